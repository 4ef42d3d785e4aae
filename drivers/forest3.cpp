// driver for C03: size, comparison, shape, copy, move, swap of forests
#include "forest.cpp"
#include <stlab/forest_algorithms.hpp>
extern "C" {
bool d_ne(F* f, F* g) { return *f != *g; }
bool d_shape(F* f, F* g) { return stlab::forests::equal_shape(*f, *g); }
void d_fswap(F* f, F* g) { using std::swap; f->swap(*g); }
void d_stdswap(F* f, F* g) { std::swap(*f, *g); }
bool d_size_valid(F* f) { return f->size_valid(); }
unsigned long f_sizeof(int k) { return k ? sizeof(It) : sizeof(F); }
}
