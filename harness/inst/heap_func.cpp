// Explicit instantiation, so that every member of the template has code: index types of the CPU and of the GPU engines.
#include <cstddef>
#include "nbody_space_heap_func.h"
template struct nbody_heap_func<size_t>;
template struct nbody_heap_func<int>;
