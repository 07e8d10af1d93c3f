// stand-in for the OpenMP runtime header (clang has none here): declarations only
#ifndef OMP_STUB_H
#define OMP_STUB_H
extern "C" {
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
void omp_set_num_threads(int);
int omp_in_parallel(void);
}
#endif
