/* thread count of the library's parallel regions; a no-op in builds without OpenMP */
#ifdef __cplusplus
extern "C" {
#endif
void omp_set_num_threads(int) __attribute__((weak));
static inline void omp_control_threads(int n) { if (omp_set_num_threads) omp_set_num_threads(n); }
#ifdef __cplusplus
}
#endif
