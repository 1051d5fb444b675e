// clang is here without its OpenMP headers; the coverage-guided targets are single-threaded.
#pragma once
inline int omp_get_num_threads() { return 1; }
inline int omp_get_thread_num() { return 0; }
inline int omp_get_max_threads() { return 1; }
inline void omp_set_num_threads(int) {}
inline void omp_set_dynamic(int) {}
