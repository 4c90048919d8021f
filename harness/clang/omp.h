// declarations only, for clang's front end (g++ has its own omp.h)
#pragma once
extern "C" {
typedef struct { unsigned char x[4]; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); int omp_in_parallel(void); int omp_get_num_procs(void); int omp_get_level(void);
void omp_set_num_threads(int); double omp_get_wtime(void); void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*);
}
