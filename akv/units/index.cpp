// Entry points to the member functions of IndexOf<T> (see akv/build.py).
// An error (handle_error of a failure, or a throw) ends the call: what goes into the message is dropped.
#include "akv_ptr.h"
#include "akv_unit.h"
#include "awkward/common.h"
#ifdef AKV_NATIVE
#define RAISE throw 1
#define TRY try {
#define CATCH } catch (int) { *raised = 1; }
#else
extern "C" void akv_raise() noexcept __attribute__((noreturn));   // see ir.Function.normalize
#define RAISE akv_raise()
#define TRY
#define CATCH
#endif
[[noreturn]] __attribute__((always_inline)) static inline void akv_raised() { RAISE; }
#define handle_error(err, ...) akv_handle(err)
#define throw akv_raised(), (void)
namespace awkward { namespace util { __attribute__((always_inline)) static inline void akv_handled(const struct Error& err) { if (err.str != nullptr) akv_raised(); } } }
#include "awkward/util.h"
#undef handle_error
#define handle_error(err, ...) akv_handled(err)
#include "cpu-kernels/kernel-utils.cpp"
#undef FILENAME
#undef FILENAME_C
#include "cpu-kernels/awkward_Index_iscontiguous.cpp"
#undef FILENAME
#include "cpu-kernels/awkward_Index_to_Index64.cpp"
#undef FILENAME
#include "awkward/kernel-dispatch.h"
// the dispatch functions (P18)
namespace awkward { namespace kernel {
  void regularize_rangeslice(int64_t* start, int64_t* stop, bool posstep, bool hasstart, bool hasstop, int64_t length) {
    awkward_regularize_rangeslice(start, stop, posstep, hasstart, hasstop, length);
  }
#define DISPATCH(T, NAME, N)                                                      \
  template <> T index_getitem_at_nowrap<T>(kernel::lib, T* ptr, int64_t at) { return awkward_Index##NAME##_getitem_at_nowrap(ptr, at); } \
  template <> void index_setitem_at_nowrap<T>(kernel::lib, T* ptr, int64_t at, T value) { awkward_Index##NAME##_setitem_at_nowrap(ptr, at, value); } \
  template <> ERROR Index_iscontiguous<T>(kernel::lib, bool* result, const T* fromindex, int64_t length) { return awkward_Index##NAME##_iscontiguous(result, fromindex, length); }
#define TO64(T, NAME)                                                             \
  template <> ERROR Index_to_Index64<T>(kernel::lib, int64_t* toptr, const T* fromptr, int64_t length) { return awkward_Index##NAME##_to_Index64(toptr, fromptr, length); }
  DISPATCH(int8_t, 8, int8) DISPATCH(uint8_t, U8, uint8) DISPATCH(int32_t, 32, int32) DISPATCH(uint32_t, U32, uint32) DISPATCH(int64_t, 64, int64)
  TO64(int8_t, 8) TO64(uint8_t, U8) TO64(int32_t, 32) TO64(uint32_t, U32)
} }
#include "libawkward/Index.cpp"
#undef FILENAME
#undef FILENAME_C
#include "libawkward/Slice.cpp"
#undef throw
#undef handle_error
#undef FILENAME
#undef FILENAME_C
#include "libawkward/util.cpp"
using namespace awkward;
#ifdef AKV_NATIVE
extern "C" void* awkward_malloc(int64_t bytes) { return akv_alloc(bytes); }
#endif

#define STATE(T) T* buf, int64_t offset, int64_t length, int64_t* raised
#define BEGIN(T)                                                                  \
  Box<IndexOf<T>> b;                                                              \
  std::shared_ptr<T> p;                                                           \
  p.p = buf;                                                                      \
  new (&b.it) IndexOf<T>(p, offset, length, kernel::lib::cpu);                    \
  *raised = 0;                                                                    \
  TRY
// state: offset and length of the index made, and 1 if it has the same buffer
#define RESULT(call)                                                              \
  { auto r = call;                                                                \
    state[0] = r.IndexOf::offset(); state[1] = r.IndexOf::length(); state[2] = (void*)r.IndexOf::ptr().get() == (void*)buf ? 1 : 0; }

#define ALL(N, T)                                                                 \
  extern "C" void unit_index_##N##_getitem(STATE(T), int64_t at, T* out) {        \
    BEGIN(T) *out = b.it.IndexOf<T>::getitem_at(at); CATCH                        \
  }                                                                               \
  extern "C" void unit_index_##N##_getnowrap(STATE(T), int64_t at, T* out) {      \
    BEGIN(T) *out = b.it.IndexOf<T>::getitem_at_nowrap(at); CATCH                 \
  }                                                                               \
  extern "C" void unit_index_##N##_setitem(STATE(T), int64_t at, T value) {       \
    BEGIN(T) b.it.IndexOf<T>::setitem_at_nowrap(at, value); CATCH                 \
  }                                                                               \
  extern "C" void unit_index_##N##_range(STATE(T), int64_t start, int64_t stop, int64_t* state) { \
    BEGIN(T) RESULT(b.it.IndexOf<T>::getitem_range(start, stop)) CATCH            \
  }                                                                               \
  extern "C" void unit_index_##N##_rangenowrap(STATE(T), int64_t start, int64_t stop, int64_t* state) { \
    BEGIN(T) RESULT(b.it.IndexOf<T>::getitem_range_nowrap(start, stop)) CATCH     \
  }                                                                               \
  extern "C" void unit_index_##N##_contiguous(STATE(T), int64_t* out) {           \
    BEGIN(T) *out = b.it.IndexOf<T>::iscontiguous() ? 1 : 0; CATCH                \
  }                                                                               \
  extern "C" void unit_index_##N##_copy(STATE(T), T* fresh, int64_t* requested, int64_t* state) { \
    AKV_ALLOC(fresh, requested);                                                  \
    BEGIN(T) RESULT(b.it.IndexOf<T>::deep_copy()) CATCH                           \
  }                                                                               \
  extern "C" void unit_index_##N##_to64(STATE(T), int64_t* fresh, int64_t* requested, int64_t* state) { \
    AKV_ALLOC(fresh, requested);                                                  \
    BEGIN(T) RESULT(b.it.IndexOf<T>::to64()) CATCH                                \
  }
ALL(int8, int8_t)
ALL(uint8, uint8_t)
ALL(int32, int32_t)
ALL(uint32, uint32_t)
ALL(int64, int64_t)

// offsets -> where each list starts and stops
#define LISTS(N, T)                                                               \
  extern "C" void unit_index_##N##_starts(STATE(T), int64_t* state) {             \
    BEGIN(T) RESULT(util::make_starts<T>(b.it)) CATCH                             \
  }                                                                               \
  extern "C" void unit_index_##N##_stops(STATE(T), int64_t* state) {              \
    BEGIN(T) RESULT(util::make_stops<T>(b.it)) CATCH                              \
  }
LISTS(int32, int32_t)
LISTS(uint32, uint32_t)
LISTS(int64, int64_t)
