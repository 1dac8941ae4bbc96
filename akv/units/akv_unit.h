// Storage for an object whose fields are set one by one; never destroyed.
#pragma once
#include <cstdint>
#include <memory>
template <typename T> union Box { T it; char c; Box() {} ~Box() {} };

// One allocation per call: the memory an allocation function returns is the buffer `fresh`, and the size asked for goes to
// *requested. (The verifier does the same for calls of akv_alloc and of operator new[]; see dsl.K.alloc.)
extern "C" void* akv_alloc(int64_t bytes) noexcept;
#ifdef AKV_NATIVE
#include <cstdlib>
#include <new>
static void* akv_fresh;
static int64_t* akv_requested;
extern "C" void* akv_alloc(int64_t bytes) noexcept {
  if (akv_requested == nullptr  ||  *akv_requested >= 0) std::abort();
  *akv_requested = bytes;
  return akv_fresh;
}
#define AKV_ALLOC(fresh, requested) (akv_fresh = (void*)(fresh), akv_requested = (requested), *akv_requested = -1)
#else
#define AKV_ALLOC(fresh, requested) (*(requested) = -1)
#endif
