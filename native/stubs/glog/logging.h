// Stand-in for glog: severities INFO/WARNING/ERROR are discarded, FATAL ends the process as glog does.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
namespace google {
inline void InitGoogleLogging(const char*) {}
}  // namespace google
namespace vfglog {
struct Sink {
  bool fatal;
  std::ostringstream s;
  explicit Sink(bool f) : fatal(f) {}
  ~Sink() {
    if (fatal) {
      std::cerr << "FATAL " << s.str() << std::endl;
      std::abort();
    }
  }
  template <class T> Sink& operator<<(const T& v) { s << v; return *this; }
  Sink& operator<<(std::ostream& (*m)(std::ostream&)) { s << m; return *this; }
};
}  // namespace vfglog
#define VF_GLOG_INFO vfglog::Sink(false)
#define VF_GLOG_WARNING vfglog::Sink(false)
#define VF_GLOG_ERROR vfglog::Sink(false)
#define VF_GLOG_FATAL vfglog::Sink(true)
#define LOG(severity) VF_GLOG_##severity
#define VLOG(level) vfglog::Sink(false)
#define VF_GLOG_DFATAL vfglog::Sink(true)
#define LOG_IF(severity, c) if (c) LOG(severity)
#define LOG_EVERY_N(severity, n) LOG(severity)
#define LOG_FIRST_N(severity, n) LOG(severity)
#define DLOG(severity) LOG(severity)
#define VLOG_IS_ON(level) false
#define CHECK(c) if (!(c)) LOG(FATAL) << #c
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define DCHECK(c) CHECK(c)
