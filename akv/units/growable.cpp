// Entry points to the member functions of GrowableBuffer<T> (see akv/build.py).
#include "akv_ptr.h"
#include "akv_unit.h"
#include "libawkward/builder/ArrayBuilderOptions.cpp"
#include "libawkward/builder/GrowableBuffer.cpp"
using namespace awkward;
#ifdef AKV_NATIVE
extern "C" void* awkward_malloc(int64_t bytes) { return akv_alloc(bytes); }
#endif

#define STATE(T) T* buf, T* fresh, int64_t* requested, int64_t* length, int64_t reserved, int64_t initial, double resize, int64_t* state
#define BEGIN(T)                                                                  \
  AKV_ALLOC(fresh, requested);                                                    \
  Box<GrowableBuffer<T>> b;                                                       \
  std::shared_ptr<T> p;                                                           \
  p.p = buf;                                                                      \
  new (&b.it) GrowableBuffer<T>(ArrayBuilderOptions(initial, resize), p, *length, reserved);
// state: reserved, and 1 if the buffer has moved to the new memory
#define END                                                                       \
  *length = b.it.length();                                                        \
  state[0] = b.it.reserved();                                                     \
  state[1] = b.it.ptr().get() == buf ? 0 : 1;

// state: length, reserved, and 1 if the buffer is the new memory
#define MAKE(T, call)                                                             \
  AKV_ALLOC(fresh, requested);                                                    \
  ArrayBuilderOptions options(initial, resize);                                   \
  GrowableBuffer<T> b = call;                                                     \
  state[0] = b.length();                                                          \
  state[1] = b.reserved();                                                        \
  state[2] = b.ptr().get() == fresh ? 1 : 0;
#define NEW(T) T* fresh, int64_t* requested, int64_t initial, double resize, int64_t* state

#define ALL(N, T)                                                                 \
  extern "C" void unit_growable_##N##_append(STATE(T), T datum) {                 \
    BEGIN(T) b.it.append(datum); END                                              \
  }                                                                               \
  extern "C" void unit_growable_##N##_setreserved(STATE(T), int64_t minreserved) { \
    BEGIN(T) b.it.set_reserved(minreserved); END                                  \
  }                                                                               \
  extern "C" void unit_growable_##N##_setlength(STATE(T), int64_t newlength) {    \
    BEGIN(T) b.it.set_length(newlength); END                                      \
  }                                                                               \
  extern "C" void unit_growable_##N##_clear(STATE(T)) {                           \
    BEGIN(T) b.it.clear(); END                                                    \
  }                                                                               \
  extern "C" void unit_growable_##N##_getitem(STATE(T), int64_t at, T* out) {     \
    BEGIN(T) *out = b.it.getitem_at_nowrap(at); END                               \
  }                                                                               \
  extern "C" void unit_growable_##N##_new(NEW(T)) {                               \
    MAKE(T, GrowableBuffer<T>(options))                                           \
  }                                                                               \
  extern "C" void unit_growable_##N##_empty(NEW(T), int64_t minreserve) {         \
    MAKE(T, GrowableBuffer<T>::empty(options, minreserve))                        \
  }                                                                               \
  extern "C" void unit_growable_##N##_full(NEW(T), T value, int64_t length) {     \
    MAKE(T, GrowableBuffer<T>::full(options, value, length))                      \
  }                                                                               \
  extern "C" void unit_growable_##N##_arange(NEW(T), int64_t length) {            \
    MAKE(T, GrowableBuffer<T>::arange(options, length))                           \
  }

ALL(bool, bool) ALL(int8, int8_t) ALL(int16, int16_t) ALL(int32, int32_t) ALL(int64, int64_t)
ALL(uint8, uint8_t) ALL(uint16, uint16_t) ALL(uint32, uint32_t) ALL(uint64, uint64_t) ALL(float32, float) ALL(float64, double)
