// Declarations only: enough of omp.h to type-check the OpenMP configuration.
#ifndef GX_OMP_STUB
#define GX_OMP_STUB
extern "C" {
typedef struct { int x; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void);
void omp_set_num_threads(int); void omp_set_nested(int); int omp_get_nested(void);
void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*); double omp_get_wtime(void); int omp_in_parallel(void); void omp_set_dynamic(int);
int omp_get_num_procs(void); int omp_get_dynamic(void); int omp_get_thread_limit(void); int omp_get_level(void); int omp_get_active_level(void); int omp_get_max_active_levels(void); void omp_set_max_active_levels(int); double omp_get_wtick(void);
}
#endif
