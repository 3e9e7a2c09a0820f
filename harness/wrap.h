#ifndef WRAP_H
#define WRAP_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
long wrap_live(void); long wrap_bytes(void); long wrap_mark(void); long wrap_total(void);
/* make requests of at least min bytes fail: the one after `after` others, and with forever the later ones too */
void wrap_fail(long after, size_t min, int forever, int kinds); long wrap_fail_end(void); long wrap_asked(void); size_t wrap_refused_size(void); void *wrap_refused_who(void); /* number of requests refused */
int wrap_first_since(long mark, size_t *n, void **who, void **p);
#ifdef __cplusplus
}
#include <string>
#include <dlfcn.h>
inline std::string wrap_desc(size_t n, void *who) { Dl_info i; char b[200]; const char *s = dladdr(who, &i) && i.dli_sname ? i.dli_sname : "?"; snprintf(b, sizeof b, "%zu bytes allocated in %s", n, s); return b; }
#endif
#endif
