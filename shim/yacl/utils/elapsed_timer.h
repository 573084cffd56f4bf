#pragma once
#include <chrono>
namespace yacl {
class ElapsedTimer {
  std::chrono::steady_clock::time_point s_ = std::chrono::steady_clock::now();
 public:
  void Restart() { s_ = std::chrono::steady_clock::now(); }
  void Pause() {} void Resume() {}
  double CountMs() const { return std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - s_).count(); }
  double CountSec() const { return CountMs() / 1000; }
};
}
