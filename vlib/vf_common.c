/* Trusted environment shared by all units: logging does nothing. */
#include <rtLog.h>
#include <stdarg.h>
void rtLogPrintf(rtLogLevel level, const char* pModule, const char* file, int line, const char* format, ...)
{ (void)level; (void)pModule; (void)file; (void)line; (void)format; }
