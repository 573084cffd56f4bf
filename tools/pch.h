#include <algorithm>
#include <array>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <unordered_map>
#include <functional>
#include <future>
#include <mutex>
#include <thread>
#include <vector>
#include <numeric>
#include <set>
#include <complex>
#include <regex>
#include "fmt/format.h"
#include "fmt/ranges.h"
#include "fmt/ostream.h"
#include "spdlog/spdlog.h"
#include "absl/types/span.h"
#include "absl/numeric/bits.h"
#include "google/protobuf/message.h"
#include "google/protobuf/generated_message_util.h"
#include "google/protobuf/repeated_field.h"
#include "google/protobuf/map.h"
#include "google/protobuf/map_entry.h"
#include "Eigen/Core"
#include "spdlog/sinks/ansicolor_sink.h"
#include "spdlog/sinks/stdout_color_sinks.h"
#include "spdlog/sinks/basic_file_sink.h"
#include "spdlog/sinks/rotating_file_sink.h"
