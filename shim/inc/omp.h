#ifndef QKV_OMP_H
#define QKV_OMP_H
extern "C" { int omp_get_thread_num(); int omp_get_num_threads(); int omp_get_max_threads(); double omp_get_wtime(); }
#endif
