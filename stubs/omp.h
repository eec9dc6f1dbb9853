// Analysis stub: declarations only (the pragmas are ignored, so every construct is its sequential elision).
#pragma once
extern "C" { int omp_get_max_threads(); int omp_get_thread_num(); int omp_in_parallel(); void omp_set_num_threads(int); }
