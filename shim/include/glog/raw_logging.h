// Minimal stand-in for glog's raw logging: messages go to stderr, FATAL aborts.
#pragma once
#include <cstdarg>
#include <cstdio>
#include <cstdlib>

namespace verif_glog
{
inline void raw_log(const char *level, bool fatal, const char *format, ...) __attribute__((format(printf, 3, 4)));
inline void raw_log(const char *level, bool fatal, const char *format, ...)
{
    static const bool quiet = std::getenv("VERIF_QUIET_LOG") != nullptr;
    if (!quiet || fatal)
    {
        char buffer[2048];
        va_list args;
        va_start(args, format);
        std::vsnprintf(buffer, sizeof(buffer), format, args);
        va_end(args);
        std::fprintf(stderr, "[%s] %s\n", level, buffer);
        std::fflush(stderr);
    }
    if (fatal)
    {
        std::abort();
    }
}
} // namespace verif_glog

#define RAW_LOG_INFO(...) ::verif_glog::raw_log("INFO", false, __VA_ARGS__)
#define RAW_LOG_WARNING(...) ::verif_glog::raw_log("WARNING", false, __VA_ARGS__)
#define RAW_LOG_ERROR(...) ::verif_glog::raw_log("ERROR", false, __VA_ARGS__)
#define RAW_LOG_FATAL(...) ::verif_glog::raw_log("FATAL", true, __VA_ARGS__)
#define RAW_LOG(severity, ...) RAW_LOG_##severity(__VA_ARGS__)
#define RAW_VLOG(verboselevel, ...)                                                                                    \
    do                                                                                                                 \
    {                                                                                                                  \
    } while (0)
#define RAW_CHECK(condition, message)                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(condition))                                                                                              \
        {                                                                                                              \
            RAW_LOG_FATAL("Check %s failed: %s", #condition, message);                                                 \
        }                                                                                                              \
    } while (0)
