// Entry points to member functions of IrregularlyPartitionedArray (see akv/build.py): an array of n partitions that end at
// stops[0], ..., stops[n - 1].
#include "akv_ptr.h"
#include "akv_unit.h"
#include "awkward/common.h"
#include "awkward/array/UnionArray.h"
#define private public
#define protected public
#define override final   // the object is of this very class: its virtual functions are the ones called
#include "awkward/partition/IrregularlyPartitionedArray.h"
#undef override
#include "libawkward/partition/PartitionedArray.cpp"
#undef FILENAME
#undef FILENAME_C
#include "libawkward/partition/IrregularlyPartitionedArray.cpp"
#undef private
#undef protected
using namespace awkward;

// a vector is its first element, the end of its elements and the end of its memory
template <typename T, typename V>
static inline void vec(const V& v, T* begin, int64_t n) {
  T** p = (T**)&v;
  p[0] = begin;
  p[1] = begin + n;
  p[2] = begin + n;
}
#define BEGIN                                                                     \
  Box<IrregularlyPartitionedArray> b;                                             \
  vec(b.it.stops_, stops, n);                                                     \
  vec(b.it.partitions_, (int64_t*)partitions, n);

extern "C" void unit_partition_at(int64_t* partitions, int64_t* stops, int64_t n, int64_t at, int64_t* partitionid, int64_t* index) {
  BEGIN
  b.it.IrregularlyPartitionedArray::partitionid_index_at(at, *partitionid, *index);
}
extern "C" void unit_partition_bounds(int64_t* partitions, int64_t* stops, int64_t n, int64_t partitionid, int64_t* out) {
  BEGIN
  out[0] = b.it.IrregularlyPartitionedArray::start(partitionid);
  out[1] = b.it.IrregularlyPartitionedArray::stop(partitionid);
}
extern "C" void unit_partition_length(int64_t* partitions, int64_t* stops, int64_t n, int64_t* out) {
  BEGIN
  out[0] = b.it.PartitionedArray::numpartitions();
  out[1] = b.it.IrregularlyPartitionedArray::length();
}
