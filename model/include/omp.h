#ifndef VC_OMP
#define VC_OMP
extern "C" { typedef struct { long st; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);
int omp_get_active_level(void); int omp_get_ancestor_thread_num(int); int omp_get_team_size(int); int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_get_level(void); }
#endif
