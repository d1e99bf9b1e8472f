#pragma once
extern "C" { typedef struct {void*p;} omp_lock_t; int omp_get_max_threads(); int omp_get_thread_num(); int omp_get_num_threads(); void omp_set_nested(int); int omp_get_nested(); void omp_set_num_threads(int); double omp_get_wtime(); int omp_in_parallel(); int omp_get_num_procs(); int omp_get_dynamic(); void omp_set_dynamic(int); void omp_init_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); int omp_test_lock(omp_lock_t*);}
