/* Declarations only: the IR extraction needs the names, nothing is executed. */
#ifndef NBV_OMP_H
#define NBV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
extern double omp_get_wtime(void);
extern int omp_get_max_threads(void);
extern int omp_get_num_threads(void);
extern int omp_get_thread_num(void);
extern int omp_get_num_procs(void);
extern int omp_in_parallel(void);
extern void omp_set_num_threads(int);
extern void omp_set_dynamic(int);
extern void omp_set_nested(int);
typedef struct { void* p; } omp_lock_t;
extern void omp_init_lock(omp_lock_t*);
extern void omp_destroy_lock(omp_lock_t*);
extern void omp_set_lock(omp_lock_t*);
extern void omp_unset_lock(omp_lock_t*);
#ifdef __cplusplus
}
#endif
#endif
