// Logging is outside every property: all of it is discarded in the engine build.
#include "logger.h"
extern "C" { extern char fsx_log_obj[4096]; } char fsx_log_obj[4096];
#ifdef FSX_NATIVE
StreamToLog::StreamToLog(int) {} StreamToLog::~StreamToLog() {} StreamToLog Logger::log(int l) { return StreamToLog(l); }
#else
extern "C" void fsx_os_null(void *o);
extern "C" long fsx_log_vt[8]; long fsx_log_vt[8] = {112, 0, 0, 0, 0, 0, 0, 0};
struct OSx { void *vptr; void *text; };
extern "C" {
void stl_ctor(OSx *o, int) __asm__("_ZN11StreamToLogC1Ei"); void stl_ctor(OSx *o, int) { o->vptr = &fsx_log_vt[3]; o->text = nullptr; }
void stl_ctor2(OSx *o, void *, int) __asm__("_ZN11StreamToLogC2Ei"); void stl_ctor2(OSx *o, void *, int) { o->vptr = &fsx_log_vt[3]; o->text = nullptr; }
void stl_dtor(OSx *) __asm__("_ZN11StreamToLogD1Ev"); void stl_dtor(OSx *) {}
void stl_log(OSx *o, Logger *, int) __asm__("_ZN6Logger3logEi"); void stl_log(OSx *o, Logger *, int) { o->vptr = &fsx_log_vt[3]; o->text = nullptr; }
}
#endif
Logger *Logger::getInstance() { return (Logger *)fsx_log_obj; }
void Logger::logstring(int, const std::string &) {}
void Logger::logf(int, const char *, va_list) {}
void Logger::logf(int, const char *, ...) {}
bool Logger::wouldLog(int) const { return false; }
void Logger::queueReOpen() {} void Logger::noLongerLogToStd() {} void Logger::setLogPath(const std::string &) {} void Logger::setFlags(LogLevel, bool, bool) {} void Logger::setFlags(std::optional<bool>, std::optional<bool>) {} void Logger::quit() {} void Logger::start() {}
int logSslError(const char *, size_t, void *) { return 1; }
