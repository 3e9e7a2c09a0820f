// The same accounting for C++ allocations (ld --wrap of operator new and delete).
#include <cstddef>
extern "C" {
void wrap_add(void *p, size_t n, void *who); void wrap_del(void *p);
#define NEW(s) void *__real_##s(size_t); void *__wrap_##s(size_t n) { void *p = __real_##s(n); wrap_add(p, n, __builtin_return_address(0)); return p; }
#define NEWT(s) void *__real_##s(size_t, const void *); void *__wrap_##s(size_t n, const void *t) { void *p = __real_##s(n, t); wrap_add(p, n, __builtin_return_address(0)); return p; }
#define DEL(s) void __real_##s(void *); void __wrap_##s(void *p) { wrap_del(p); __real_##s(p); }
#define DELS(s) void __real_##s(void *, size_t); void __wrap_##s(void *p, size_t n) { wrap_del(p); __real_##s(p, n); }
#define DELT(s) void __real_##s(void *, const void *); void __wrap_##s(void *p, const void *t) { wrap_del(p); __real_##s(p, t); }
NEW(_Znwm) NEW(_Znam) NEWT(_ZnwmRKSt9nothrow_t) NEWT(_ZnamRKSt9nothrow_t)
DEL(_ZdlPv) DEL(_ZdaPv) DELS(_ZdlPvm) DELS(_ZdaPvm) DELT(_ZdlPvRKSt9nothrow_t) DELT(_ZdaPvRKSt9nothrow_t)
}
