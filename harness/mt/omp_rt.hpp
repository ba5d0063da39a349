// A controlled OpenMP runtime.  Programs compiled with -fopenmp -fsanitize=thread are linked against omp_rt.cpp instead of
// libgomp and libtsan: the threads of a region are coroutines run one at a time in an order chosen by the explorer, and
// every memory access made inside a region is recorded, so that two conflicting unsynchronised accesses of different threads are found
// whatever the order they were made in.
#pragma once
#include <setjmp.h>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace mt {
struct Region { const void* fn; int n; };
extern std::function<std::vector<int>(const Region&, long)> order;  // permutation of the threads of the k-th region
extern std::function<int(int)> dynamic;      // which of the n waiting threads goes on (dynamic schedules, barriers)
extern long regions, accesses, granules, switches;
extern std::vector<std::string> races;       // text of the first races since the last reset
extern long nraces;
extern jmp_buf escape;                       // taken when an exception would have left a parallel region (the process would end)
void reset();
}
