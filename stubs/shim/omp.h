#ifndef SHIM_OMP_H
#define SHIM_OMP_H
int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_thread_num(void); void omp_set_num_threads(int n);
int omp_get_num_procs(void); int omp_in_parallel(void); double omp_get_wtime(void);
#endif
