// Entry points into the C++ class, for B01.
#pragma once
#include "adapter.h"
#include <functional>
size_t bx_sizeof();
void *bx_new(int64_t minPts);            // minPts < 0: default constructor
void bx_delete(void *o);
void *bx_place(void *mem, int64_t minPts); void bx_unplace(void *o); // placement new, destructor call
void *bx_array(int64_t n); void *bx_array_at(void *a, int64_t i); void bx_array_delete(void *a);
void bx_auto(int64_t minPts, const std::function<void(void *)> &f); // an automatic object
void bx_member(int64_t minPts, const std::function<void(void *)> &f); // a member of another class, destroyed by an exception
void bx_run(void *o, void *data, int64_t rows, int64_t cols, int rowwise, int dtype);
void bx_rerun(void *o, int64_t minPts); void bx_clean(void *o);
void bx_steps(void *o, void *data, int64_t rows, int64_t cols, int dtype, int compact, double *noise, int64_t *last, int *infinite, int again);
extern "C" ad_snap *bx_snapshot(void *o, int64_t distlimit);
// a distance object by itself
void bx_distance(int ctor, int64_t before, void *data, int64_t rows, int64_t cols, int dtype, int64_t k1, int64_t k2, double *core1, double *core2, double *dist);
void bx_graph(); // construct and destroy an empty graph
