#pragma once
#include <memory>
#include "spdlog/spdlog.h"
#include "absl/strings/string_view.h"
#include <memory>
#include <string>
#include <string_view>
namespace yacl::link {
class TraceLogger {
 public:
  static void SetLogger(std::shared_ptr<TraceLogger>) {}
  virtual ~TraceLogger() = default;
 private:
  virtual void LinkTraceImpl(std::string_view event, std::string_view tag, std::string_view content) = 0;
};
}
