// Stand-in for absl/log/log.h (the installed Abseil predates absl/log).
// Messages go to registered sinks (and nowhere else); FATAL aborts.
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>

#include "absl/base/log_severity.h"
#include "absl/status/status.h"
#include "absl/strings/string_view.h"

namespace absl {
class LogEntry {
 public:
  LogEntry(LogSeverity sev, std::string msg, const char* file, int line)
      : sev_(sev), msg_(std::move(msg)), file_(file), line_(line) {
    with_nl_ = msg_ + "\n";
  }
  LogSeverity log_severity() const { return sev_; }
  absl::string_view text_message() const { return msg_; }
  absl::string_view text_message_with_newline() const { return with_nl_; }
  absl::string_view text_message_with_prefix() const { return msg_; }
  absl::string_view text_message_with_prefix_and_newline() const {
    return with_nl_;
  }
  absl::string_view source_filename() const { return file_; }
  absl::string_view source_basename() const { return file_; }
  int source_line() const { return line_; }

 private:
  LogSeverity sev_;
  std::string msg_, with_nl_;
  const char* file_;
  int line_;
};

class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual void Send(const absl::LogEntry& entry) = 0;
  virtual void Flush() {}
};

namespace verif_log {
struct State {
  std::mutex mu;
  std::vector<LogSink*> sinks;
};
inline State& state() {
  static State* s = new State;
  return *s;
}
struct Counts {
  long info = 0, warning = 0, error = 0, fatal = 0;
};
inline Counts& counts() {
  static Counts* c = new Counts;
  return *c;
}
inline std::string& last() {
  static std::string* s = new std::string;
  return *s;
}
class Message {
 public:
  Message(LogSeverity sev, const char* file, int line)
      : sev_(sev), file_(file), line_(line) {}
  Message(const Message&) = delete;
  ~Message() noexcept(false) {
    auto& st = state();
    std::vector<LogSink*> sinks;
    LogEntry entry(sev_, os_.str(), file_, line_);
    {
      std::lock_guard<std::mutex> l(st.mu);
      sinks = st.sinks;
      auto& c = counts();
      if (sev_ == LogSeverity::kInfo) c.info++;
      if (sev_ == LogSeverity::kWarning) c.warning++;
      if (sev_ == LogSeverity::kError) c.error++;
      if (sev_ == LogSeverity::kFatal) c.fatal++;
      last() = os_.str();
    }
    for (auto* s : sinks) s->Send(entry);
    if (sev_ == LogSeverity::kFatal) {
      fprintf(stderr, "FATAL %s:%d: %s\n", file_, line_, os_.str().c_str());
      fflush(stderr);
      abort();
    }
  }
  template <typename T>
  Message& operator<<(const T& v) {
    os_ << v;
    return *this;
  }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) {
    os_ << m;
    return *this;
  }
  Message& operator<<(std::ios_base& (*m)(std::ios_base&)) {
    os_ << m;
    return *this;
  }
  Message& AtLocation(absl::string_view, int) { return *this; }
  Message& NoPrefix() { return *this; }
  Message& WithPerror() { return *this; }

 private:
  LogSeverity sev_;
  const char* file_;
  int line_;
  std::ostringstream os_;
};
struct Voidify {
  void operator&&(const Message&) const {}
};
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T>
inline auto AsStatus(const T& s) -> decltype(s.status()) {
  return s.status();
}
}  // namespace verif_log

inline void AddLogSink(LogSink* s) {
  std::lock_guard<std::mutex> l(verif_log::state().mu);
  verif_log::state().sinks.push_back(s);
}
inline void RemoveLogSink(LogSink* s) {
  auto& st = verif_log::state();
  std::lock_guard<std::mutex> l(st.mu);
  st.sinks.erase(std::remove(st.sinks.begin(), st.sinks.end(), s),
                 st.sinks.end());
}
inline void FlushLogSinks() {}
}  // namespace absl

#define VERIF_LOG_SEV_INFO ::absl::LogSeverity::kInfo
#define VERIF_LOG_SEV_WARNING ::absl::LogSeverity::kWarning
#define VERIF_LOG_SEV_ERROR ::absl::LogSeverity::kError
#define VERIF_LOG_SEV_FATAL ::absl::LogSeverity::kFatal
#define VERIF_LOG_SEV_QFATAL ::absl::LogSeverity::kFatal
#define VERIF_LOG_SEV_DFATAL ::absl::LogSeverity::kError
#define VERIF_LOG_MSG(sev) \
  ::absl::verif_log::Message(VERIF_LOG_SEV_##sev, __FILE__, __LINE__)
#define LOG(sev) VERIF_LOG_MSG(sev)
#define PLOG(sev) VERIF_LOG_MSG(sev)
#define VERIF_LOG_COND(sev, cond) \
  switch (0)                      \
  case 0:                         \
  default:                        \
    !(cond) ? (void)0 : ::absl::verif_log::Voidify() && VERIF_LOG_MSG(sev)
#define LOG_IF(sev, cond) VERIF_LOG_COND(sev, cond)
#define LOG_FIRST_N(sev, n)                                      \
  for (static int verif_log_n_ = 0, verif_log_o_ = 0;            \
       (verif_log_o_ = 0, verif_log_n_ < (n)) && !verif_log_o_;  \
       verif_log_n_++, verif_log_o_ = 1)                         \
  if (verif_log_o_) {                                            \
  } else                                                         \
    VERIF_LOG_MSG(sev)
#define LOG_EVERY_N(sev, n) VERIF_LOG_MSG(sev)
#define DLOG(sev) VERIF_LOG_COND(sev, false)
#define DLOG_IF(sev, cond) VERIF_LOG_COND(sev, false && (cond))
#define VLOG(n) VERIF_LOG_COND(INFO, false)
#define DVLOG(n) VERIF_LOG_COND(INFO, false)
#define VLOG_IS_ON(n) false
#endif
