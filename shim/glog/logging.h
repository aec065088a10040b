// Stand-in for glog: every message is evaluated and discarded; a fatal message goes to mc_fatal().
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iosfwd>
#include <memory>
#include <ostream>
#include <sstream>
#include <string>
#include <vector>
#include <iostream>
#include <sys/types.h>
#include <unistd.h>
#include <cassert>
#include <ctime>
#include <algorithm>
#include <gflags/gflags.h>

extern "C" [[noreturn]] void mc_fatal(const char* file, int line, const char* msg);
extern void (*mc_log_hook)(int severity, const char* msg);   // a harness that observes log messages sets it

namespace fLI { extern int32_t FLAGS_minloglevel; extern int32_t FLAGS_v; extern int32_t FLAGS_stderrthreshold; }
namespace fLB { extern bool FLAGS_logtostderr; }
using fLI::FLAGS_minloglevel;
using fLI::FLAGS_v;
using fLI::FLAGS_stderrthreshold;
using fLB::FLAGS_logtostderr;

namespace google {
typedef int LogSeverity;
const int GLOG_INFO = 0, GLOG_WARNING = 1, GLOG_ERROR = 2, GLOG_FATAL = 3, NUM_SEVERITIES = 4;
const int INFO = GLOG_INFO, WARNING = GLOG_WARNING, ERROR = GLOG_ERROR, FATAL = GLOG_FATAL;
inline void InitGoogleLogging(const char*) {}
inline void InstallFailureSignalHandler() {}
inline void SetStderrLogging(LogSeverity) {}
inline void FlushLogFiles(LogSeverity) {}

class LogMessage {
 public:
    void SendToLog() {}
    void SendToSyslogAndLog() {}
    LogMessage(const char* f, int l) : file_(f), line_(l), sev_(0) {}
    LogMessage(const char* f, int l, int sev) : file_(f), line_(l), sev_(sev) {}
    LogMessage(const char* f, int l, int sev, uint64_t, void (LogMessage::*)()) : file_(f), line_(l), sev_(sev) {}
    LogMessage(const char* f, int l, int sev, std::string*) : file_(f), line_(l), sev_(sev) {}
    LogMessage(const char* f, int l, int sev, std::vector<std::string>*) : file_(f), line_(l), sev_(sev) {}
    ~LogMessage() noexcept(false) { if (mc_log_hook) mc_log_hook(sev_, os_.str().c_str()); if (sev_ == GLOG_FATAL) mc_fatal(file_, line_, os_.str().c_str()); }
    std::ostream& stream() { return os_; }
    int preserved_errno() const { return errno; }
 private:
    const char* file_; int line_; int sev_;
    std::ostringstream os_;
};
typedef LogMessage ErrnoLogMessage;
class LogMessageFatal {
 public:
    LogMessageFatal(const char* f, int l) : file_(f), line_(l) {}
    LogMessageFatal(const char* f, int l, const std::string& s) : file_(f), line_(l) { os_ << s; }
    [[noreturn]] ~LogMessageFatal() noexcept(false) { mc_fatal(file_, line_, os_.str().c_str()); }
    std::ostream& stream() { return os_; }
 private:
    const char* file_; int line_;
    std::ostringstream os_;
};
class LogMessageVoidify {
 public:
    LogMessageVoidify() {}
    void operator&(std::ostream&) {}
};
class NullStream : public std::ostream {
 public:
    NullStream() : std::ostream(nullptr) {}
    NullStream& stream() { return *this; }
};
template <class T> inline T& CheckNotNullCommon(const char* f, int l, const char* n, T& t) {
    if (t == nullptr) LogMessageFatal(f, l, n);
    return t;
}
template <class T> T CheckNotNull(const char* f, int l, const char* n, T&& t) {
    if (t == nullptr) LogMessageFatal(f, l, n);
    return std::forward<T>(t);
}
template <class T> inline void mcPut(std::ostream& os, const T& v) {
    if constexpr (std::is_enum<T>::value) os << (long long)v; else if constexpr (std::is_same<T, std::nullptr_t>::value) os << "nullptr"; else os << v;
}
#define MC_GLOG_DEFINE_CHECK_OP(name, op) \
template <class A, class B> inline std::string* name(const A& a, const B& b, const char* txt) { \
    if (__builtin_expect(!!(a op b), 1)) return nullptr; \
    std::ostringstream os; os << "Check failed: " << txt << " ("; mcPut(os, a); os << " vs. "; mcPut(os, b); os << ") "; \
    return new std::string(os.str()); }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wsign-compare"
MC_GLOG_DEFINE_CHECK_OP(Check_EQImpl, ==)
MC_GLOG_DEFINE_CHECK_OP(Check_NEImpl, !=)
MC_GLOG_DEFINE_CHECK_OP(Check_LEImpl, <=)
MC_GLOG_DEFINE_CHECK_OP(Check_LTImpl, <)
MC_GLOG_DEFINE_CHECK_OP(Check_GEImpl, >=)
MC_GLOG_DEFINE_CHECK_OP(Check_GTImpl, >)
#pragma GCC diagnostic pop
struct CheckOpString {
    CheckOpString(std::string* s) : str_(s) {}
    operator bool() const { return __builtin_expect(str_ != nullptr, 0); }
    CheckOpString(const CheckOpString&) = delete;
    ~CheckOpString() { delete str_; }
    std::string* str_;
};
template <class T> inline const T& GetReferenceableValue(const T& t) { return t; }
inline char GetReferenceableValue(char t) { return t; }
inline unsigned char GetReferenceableValue(unsigned char t) { return t; }
inline int GetReferenceableValue(int t) { return t; }
inline unsigned int GetReferenceableValue(unsigned int t) { return t; }
inline long GetReferenceableValue(long t) { return t; }
inline unsigned long GetReferenceableValue(unsigned long t) { return t; }
inline long long GetReferenceableValue(long long t) { return t; }
inline unsigned long long GetReferenceableValue(unsigned long long t) { return t; }
inline bool GetReferenceableValue(bool t) { return t; }
inline short GetReferenceableValue(short t) { return t; }
inline unsigned short GetReferenceableValue(unsigned short t) { return t; }
}  // namespace google

#define COMPACT_GOOGLE_LOG_INFO google::LogMessage(__FILE__, __LINE__)
#define COMPACT_GOOGLE_LOG_WARNING google::LogMessage(__FILE__, __LINE__, google::GLOG_WARNING)
#define COMPACT_GOOGLE_LOG_ERROR google::LogMessage(__FILE__, __LINE__, google::GLOG_ERROR)
#define COMPACT_GOOGLE_LOG_FATAL google::LogMessageFatal(__FILE__, __LINE__)
#ifdef NDEBUG
#define COMPACT_GOOGLE_LOG_DFATAL COMPACT_GOOGLE_LOG_ERROR
#else
#define COMPACT_GOOGLE_LOG_DFATAL COMPACT_GOOGLE_LOG_FATAL
#endif
#define GOOGLE_PLOG(severity, counter) google::ErrnoLogMessage(__FILE__, __LINE__, google::GLOG_##severity)
#define SYSLOG_INFO(c) google::LogMessage(__FILE__, __LINE__)
#define SYSLOG_WARNING(c) google::LogMessage(__FILE__, __LINE__)
#define SYSLOG_ERROR(c) google::LogMessage(__FILE__, __LINE__)
#define LOG(severity) COMPACT_GOOGLE_LOG_##severity.stream()
#define PLOG(severity) GOOGLE_PLOG(severity, 0).stream()
#define LOG_IF(severity, condition) !(condition) ? (void)0 : google::LogMessageVoidify() & LOG(severity)
#define VLOG_IS_ON(n) (FLAGS_v >= (n))
#define VLOG(n) LOG_IF(INFO, VLOG_IS_ON(n))
#define VLOG_IF(n, c) LOG_IF(INFO, (c) && VLOG_IS_ON(n))
#define VLOG_EVERY_N(n, k) VLOG(n)
#define DVLOG(n) VLOG(n)
#define CHECK(condition) (!!(condition)) ? (void)0 : google::LogMessageVoidify() & google::LogMessageFatal(__FILE__, __LINE__).stream() << "Check failed: " #condition " "
#define PCHECK(condition) CHECK(condition)
#define CHECK_OP(name, op, a, b) \
    while (google::CheckOpString _result = google::Check##name##Impl(google::GetReferenceableValue(a), google::GetReferenceableValue(b), #a " " #op " " #b)) \
        google::LogMessageFatal(__FILE__, __LINE__, *_result.str_).stream()
#define CHECK_EQ(a, b) CHECK_OP(_EQ, ==, a, b)
#define CHECK_NE(a, b) CHECK_OP(_NE, !=, a, b)
#define CHECK_LE(a, b) CHECK_OP(_LE, <=, a, b)
#define CHECK_LT(a, b) CHECK_OP(_LT, <, a, b)
#define CHECK_GE(a, b) CHECK_OP(_GE, >=, a, b)
#define CHECK_GT(a, b) CHECK_OP(_GT, >, a, b)
#define CHECK_NOTNULL(v) google::CheckNotNull(__FILE__, __LINE__, "'" #v "' Must be non NULL", (v))
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
#ifdef NDEBUG
#define MC_GLOG_DC(x) while (false) x
#define DCHECK(c) MC_GLOG_DC(CHECK(c))
#define DCHECK_EQ(a, b) MC_GLOG_DC(CHECK_EQ(a, b))
#define DCHECK_NE(a, b) MC_GLOG_DC(CHECK_NE(a, b))
#define DCHECK_LE(a, b) MC_GLOG_DC(CHECK_LE(a, b))
#define DCHECK_LT(a, b) MC_GLOG_DC(CHECK_LT(a, b))
#define DCHECK_GE(a, b) MC_GLOG_DC(CHECK_GE(a, b))
#define DCHECK_GT(a, b) MC_GLOG_DC(CHECK_GT(a, b))
#define DCHECK_NOTNULL(v) (v)
#else
#define DCHECK(c) CHECK(c)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_NOTNULL(v) CHECK_NOTNULL(v)
#endif
#define LOG_EVERY_N(severity, n) LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)
#define DLOG(severity) LOG(severity)
