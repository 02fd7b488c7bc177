/* OpenMP calls of a serial program, for compilers that come without an OpenMP runtime. */
#ifndef SERIAL_OMP_H
#define SERIAL_OMP_H
#include <sys/time.h>
typedef int omp_lock_t;
typedef int omp_nest_lock_t;
typedef enum { omp_sched_static=1, omp_sched_dynamic=2, omp_sched_guided=3, omp_sched_auto=4 } omp_sched_t;
static inline int  omp_get_thread_num(void) { return 0; }
static inline int  omp_get_num_threads(void) { return 1; }
static inline int  omp_get_max_threads(void) { return 1; }
static inline int  omp_get_num_procs(void) { return 1; }
static inline int  omp_get_thread_limit(void) { return 1; }
static inline int  omp_in_parallel(void) { return 0; }
static inline int  omp_get_dynamic(void) { return 0; }
static inline int  omp_get_nested(void) { return 0; }
static inline int  omp_get_level(void) { return 0; }
static inline int  omp_get_active_level(void) { return 0; }
static inline int  omp_get_max_active_levels(void) { return 1; }
static inline int  omp_get_ancestor_thread_num(int) { return 0; }
static inline int  omp_get_team_size(int) { return 1; }
static inline void omp_set_num_threads(int) {}
static inline void omp_set_dynamic(int) {}
static inline void omp_set_nested(int) {}
static inline void omp_set_max_active_levels(int) {}
static inline void omp_set_schedule(omp_sched_t, int) {}
static inline void omp_init_lock(omp_lock_t *l) { *l=0; }
static inline void omp_destroy_lock(omp_lock_t *) {}
static inline void omp_set_lock(omp_lock_t *l) { *l=1; }
static inline void omp_unset_lock(omp_lock_t *l) { *l=0; }
static inline int  omp_test_lock(omp_lock_t *l) { return *l ? 0 : (*l=1); }
static inline void omp_init_nest_lock(omp_nest_lock_t *l) { *l=0; }
static inline void omp_destroy_nest_lock(omp_nest_lock_t *) {}
static inline void omp_set_nest_lock(omp_nest_lock_t *l) { ++*l; }
static inline void omp_unset_nest_lock(omp_nest_lock_t *l) { --*l; }
static inline double omp_get_wtime(void) { struct timeval t; gettimeofday(&t,0); return t.tv_sec+1e-6*t.tv_usec; }
static inline double omp_get_wtick(void) { return 1e-6; }
#endif
