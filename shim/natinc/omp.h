#ifndef QKV_OMP_H
#define QKV_OMP_H
#include <ctime>
static inline int omp_get_thread_num() { return 0; }
static inline int omp_get_num_threads() { return 1; }
static inline int omp_get_max_threads() { return 1; }
static inline double omp_get_wtime() { return (double)clock() / CLOCKS_PER_SEC; }
#endif
