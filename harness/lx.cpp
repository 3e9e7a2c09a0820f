#include "config.h"
#include "hdbscan/logger.h"
#include "hdbscan/logger.h"
extern "C" void lx_init() { logger_init(); }
extern "C" void lx_close() { logger_close(); }
extern "C" void lx_write(int level, const char *s) { static const enum LOGTYPE t[] = { FATAL, ERROR, INFO, WARN, NONE }; logger_write(t[level], s); }
extern "C" int lx_debug() {
#ifdef DEBUG
	return 1;
#else
	return 0;
#endif
}
