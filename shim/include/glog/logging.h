// Minimal stand-in for glog's stream logging.
#pragma once
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>

namespace google
{
inline void InitGoogleLogging(const char *)
{
}
inline void ShutdownGoogleLogging()
{
}
enum LogSeverity
{
    GLOG_INFO = 0,
    GLOG_WARNING = 1,
    GLOG_ERROR = 2,
    GLOG_FATAL = 3
};
} // namespace google

namespace verif_glog
{
class LogMessage
{
  public:
    LogMessage(const char *level, bool fatal) : m_level(level), m_fatal(fatal)
    {
    }
    ~LogMessage()
    {
        std::cerr << "[" << m_level << "] " << m_stream.str() << std::endl;
        if (m_fatal)
        {
            std::abort();
        }
    }
    std::ostream &stream()
    {
        return m_stream;
    }

  private:
    const char *m_level;
    bool m_fatal;
    std::ostringstream m_stream;
};
} // namespace verif_glog

#define LOG_VERIF_INFO ::verif_glog::LogMessage("INFO", false).stream()
#define LOG_VERIF_WARNING ::verif_glog::LogMessage("WARNING", false).stream()
#define LOG_VERIF_ERROR ::verif_glog::LogMessage("ERROR", false).stream()
#define LOG_VERIF_FATAL ::verif_glog::LogMessage("FATAL", true).stream()
#define LOG(severity) LOG_VERIF_##severity
#define LOG_IF(severity, condition)                                                                                    \
    if (condition)                                                                                                     \
    LOG_VERIF_##severity
#define CHECK(condition)                                                                                               \
    if (!(condition))                                                                                                  \
    LOG_VERIF_FATAL << "Check failed: " #condition " "
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define DCHECK(condition) CHECK(condition)
#define VLOG(level)                                                                                                    \
    if (false)                                                                                                         \
    LOG_VERIF_INFO
