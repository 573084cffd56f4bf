#pragma once
#include <string>
namespace butil { struct StringPiece { const char* d; size_t n; const char* data() const { return d; } size_t length() const { return n; } size_t size() const { return n; } }; }
namespace logging {
constexpr int BLOG_INFO = 0, BLOG_NOTICE = 1, BLOG_WARNING = 2, BLOG_ERROR = 3, BLOG_FATAL = 4;
struct LogSink { virtual ~LogSink() = default; virtual bool OnLogMessage(int, const char*, int, const butil::StringPiece&) = 0; };
inline LogSink* SetLogSink(LogSink*) { return nullptr; }
inline void SetMinLogLevel(int) {}
}
