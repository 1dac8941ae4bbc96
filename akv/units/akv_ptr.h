// Stand-in for std::shared_ptr used by the units: the pointer, without counting references (nothing is ever freed).
// All standard headers the repository's headers use are included first, with the real one.
#pragma once
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
namespace std {
  template <typename T>
  class akv_ptr {
  public:
    akv_ptr() : p(nullptr) { }
    akv_ptr(std::nullptr_t) : p(nullptr) { }
    template <typename U> explicit akv_ptr(U* q) : p(q) { }
    template <typename U, typename D> akv_ptr(U* q, D) : p(q) { }
    template <typename U> akv_ptr(const akv_ptr<U>& o) : p(o.p) { }
    template <typename U> akv_ptr(const akv_ptr<U>&, T* q) : p(q) { }
    T* get() const { return p; }
    typename std::add_lvalue_reference<T>::type operator*() const { return *p; }
    T* operator->() const { return p; }
    explicit operator bool() const { return p != nullptr; }
    bool operator==(const akv_ptr& o) const { return p == o.p; }
    bool operator!=(const akv_ptr& o) const { return p != o.p; }
    bool operator==(std::nullptr_t) const { return p == nullptr; }
    bool operator!=(std::nullptr_t) const { return p != nullptr; }
    void reset() { p = nullptr; }
    template <typename U> void reset(U* q) { p = q; }
    template <typename U, typename D> void reset(U* q, D) { p = q; }
    void swap(akv_ptr& o) { T* q = p; p = o.p; o.p = q; }
    typename std::add_lvalue_reference<T>::type operator[](std::ptrdiff_t i) const { return p[i]; }
    T* p;
  };
  template <typename T>
  void swap(akv_ptr<T>& a, akv_ptr<T>& b) { a.swap(b); }
  template <typename T, typename... A>
  akv_ptr<T> akv_make(A&&... a) { return akv_ptr<T>(new T(std::forward<A>(a)...)); }
  template <typename T>
  struct akv_self {
    akv_ptr<T> shared_from_this() { return akv_ptr<T>(static_cast<T*>(this)); }
    akv_ptr<const T> shared_from_this() const { return akv_ptr<const T>(static_cast<const T*>(this)); }
  };
}
#define shared_ptr akv_ptr
#define make_shared akv_make
#define enable_shared_from_this akv_self
