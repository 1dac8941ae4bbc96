// Entry points to the member functions of ForthOutputBufferOf<OUT> (see akv/build.py).
#include "akv_ptr.h"
#include "akv_unit.h"
#include "libawkward/forth/ForthOutputBuffer.cpp"
using namespace awkward;
#ifdef AKV_NATIVE
void* operator new[](size_t bytes) { return akv_alloc((int64_t)bytes); }
#endif

#define STATE(T) T* buf, T* fresh, int64_t* requested, int64_t* length, int64_t reserved, double resize, int64_t* state
#define BEGIN(T)                                                                  \
  AKV_ALLOC(fresh, requested);                                                    \
  Box<ForthOutputBufferOf<T>> b;                                                  \
  b.it.length_ = *length;                                                         \
  b.it.reserved_ = reserved;                                                      \
  b.it.resize_ = resize;                                                          \
  b.it.ptr_.p = buf;
// state: reserved, and 1 if the buffer has moved to the new memory
#define END                                                                       \
  *length = b.it.length_;                                                         \
  state[0] = b.it.reserved_;                                                      \
  state[1] = b.it.ptr_.get() == buf ? 0 : 1;

#define ONE(N, T, K, V)                                                           \
  extern "C" void unit_forthoutput_##N##_one_##K(STATE(T), V value, bool byteswap) { \
    BEGIN(T) b.it.ForthOutputBufferOf<T>::write_one_##K(value, byteswap); END     \
  }
#define MANY(N, T, K, V)                                                          \
  extern "C" void unit_forthoutput_##N##_many_##K(STATE(T), int64_t num_items, V* values, bool byteswap) { \
    BEGIN(T) b.it.ForthOutputBufferOf<T>::write_##K(num_items, values, byteswap); END \
  }
#define ALL(N, T)                                                                 \
  ONE(N, T, bool, bool) ONE(N, T, int8, int8_t) ONE(N, T, int16, int16_t) ONE(N, T, int32, int32_t) ONE(N, T, int64, int64_t) \
  ONE(N, T, intp, ssize_t) ONE(N, T, uint8, uint8_t) ONE(N, T, uint16, uint16_t) ONE(N, T, uint32, uint32_t)                  \
  ONE(N, T, uint64, uint64_t) ONE(N, T, uintp, size_t) ONE(N, T, float32, float) ONE(N, T, float64, double)                  \
  MANY(N, T, bool, bool) MANY(N, T, int8, int8_t) MANY(N, T, int16, int16_t) MANY(N, T, int32, int32_t) MANY(N, T, int64, int64_t) \
  MANY(N, T, intp, ssize_t) MANY(N, T, uint8, uint8_t) MANY(N, T, uint16, uint16_t) MANY(N, T, uint32, uint32_t)                  \
  MANY(N, T, uint64, uint64_t) MANY(N, T, uintp, size_t) MANY(N, T, float32, float) MANY(N, T, float64, double)                  \
  extern "C" void unit_forthoutput_##N##_add_int32(STATE(T), int32_t value) {     \
    BEGIN(T) b.it.ForthOutputBufferOf<T>::write_add_int32(value); END             \
  }                                                                               \
  extern "C" void unit_forthoutput_##N##_add_int64(STATE(T), int64_t value) {     \
    BEGIN(T) b.it.ForthOutputBufferOf<T>::write_add_int64(value); END             \
  }                                                                               \
  extern "C" void unit_forthoutput_##N##_dup(STATE(T), int64_t num_times, int64_t* err) { \
    util::ForthError e = util::ForthError::none;                                  \
    BEGIN(T) b.it.ForthOutputBufferOf<T>::dup(num_times, e); END                  \
    *err = (int64_t)e;                                                            \
  }                                                                               \
  extern "C" void unit_forthoutput_##N##_rewind(STATE(T), int64_t num_items, int64_t* err) { \
    util::ForthError e = util::ForthError::none;                                  \
    BEGIN(T) b.it.ForthOutputBuffer::rewind(num_items, e); END                    \
    *err = (int64_t)e;                                                            \
  }

ALL(bool, bool) ALL(int8, int8_t) ALL(int16, int16_t) ALL(int32, int32_t) ALL(int64, int64_t)
ALL(uint8, uint8_t) ALL(uint16, uint16_t) ALL(uint32, uint32_t) ALL(uint64, uint64_t) ALL(float32, float) ALL(float64, double)
