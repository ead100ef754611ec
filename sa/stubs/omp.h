// Minimal OpenMP runtime declarations, only so that the analyser can parse
// the OpenMP build of the library with clang (no libomp headers installed).
#ifndef VERIF_STUB_OMP_H
#define VERIF_STUB_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
double omp_get_wtime(void);
void omp_init_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
