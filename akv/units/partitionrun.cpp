// Bounded stand-in (P27): positions, ranges and repartitions of every small partitioned array, on the real PartitionedArray and
// IrregularlyPartitionedArray. The partitions themselves are stand-ins: a Content here is a list of numbers with the operations
// partitioned arrays ask of it.
#define AWKWARD_CONTENT_H_
#define AWKWARD_UNIONARRAY_H_
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include "awkward/common.h"
#include "awkward/util.h"
#include "awkward/kernel-dispatch.h"
#include "awkward/Slice.h"
#include "awkward/io/json.h"

static std::string current;
static void fail(const std::string& what) { printf("FAILED %s: %s\n", what.c_str(), current.c_str()); fflush(stdout); _Exit(1); }
typedef std::vector<int64_t> V;
static std::string str(const V& v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? ", " : "") + std::to_string(v[i]);
  return s + "]";
}
static std::string str(int64_t x) { return x == awkward::Slice::none() ? "None" : std::to_string(x); }

// Python's slice(start, stop, step).indices(n) applied to v
static V pyslice(const V& v, int64_t start, int64_t stop, int64_t step) {
  const int64_t none = awkward::Slice::none(), n = (int64_t)v.size();
  if (step == none) step = 1;
  const int64_t lo = step > 0 ? 0 : -1, hi = step > 0 ? n : n - 1;
  auto clamp = [&](int64_t x) { if (x < 0) x += n; return std::min(std::max(x, lo), hi); };
  const int64_t a = start == none ? (step > 0 ? lo : hi) : clamp(start), b = stop == none ? (step > 0 ? hi : lo) : clamp(stop);
  V out;
  for (int64_t i = a; step > 0 ? i < b : i > b; i += step) out.push_back(v[(size_t)i]);
  return out;
}

namespace awkward {
  class Content;
  using ContentPtr = std::shared_ptr<Content>;
  using ContentPtrVec = std::vector<ContentPtr>;
  class Content {
  public:
    explicit Content(const V& v) : v(v) { }
    virtual ~Content() { }
    int64_t length() const { return (int64_t)v.size(); }
    const ContentPtr getitem_at_nowrap(int64_t at) const {
      if (at < 0 || at >= length()) fail("a position outside the partition is used");
      return std::make_shared<Content>(V(1, v[(size_t)at]));
    }
    const ContentPtr getitem_at(int64_t at) const {
      int64_t i = at < 0 ? at + length() : at;
      if (i < 0 || i >= length()) throw std::invalid_argument("index out of range");
      return getitem_at_nowrap(i);
    }
    const ContentPtr getitem_range_nowrap(int64_t start, int64_t stop) const {
      if (start == stop) return getitem_nothing();
      if (start < 0 || start > stop || stop > length()) fail("a range outside the partition is used");
      return std::make_shared<Content>(V(v.begin() + start, v.begin() + stop));
    }
    const ContentPtr getitem_range(int64_t start, int64_t stop) const { return std::make_shared<Content>(pyslice(v, start, stop, Slice::none())); }
    const ContentPtr getitem_nothing() const { return std::make_shared<Content>(V()); }
    const ContentPtr getitem(const Slice& where) const {
      auto items = where.items();
      SliceRange* r = items.size() == 1 ? dynamic_cast<SliceRange*>(items[0].get()) : nullptr;
      if (r == nullptr) { printf("SKIPPED\n"); fflush(stdout); _Exit(0); }
      return std::make_shared<Content>(pyslice(v, r->start(), r->stop(), r->step()));
    }
    bool mergeable(const ContentPtr&, bool) const { return true; }
    const ContentPtr merge(const ContentPtr& o) const { V x = v; x.insert(x.end(), o->v.begin(), o->v.end()); return std::make_shared<Content>(x); }
    const ContentPtr mergemany(const ContentPtrVec& os) const { V x = v; for (auto& o : os) x.insert(x.end(), o->v.begin(), o->v.end()); return std::make_shared<Content>(x); }
    const ContentPtr merge_as_union(const ContentPtr& o) const { return merge(o); }
    const ContentPtr copy_to(kernel::lib) const { return std::make_shared<Content>(v); }
    const ContentPtr shallow_copy() const { return std::make_shared<Content>(v); }
    const std::string tostring_part(const std::string&, const std::string&, const std::string&) const { return str(v); }
    const std::string tostring() const { return str(v); }
    void tojson_part(ToJson&, bool) const { }
    V v;
  };
  template <int N>
  class Union : public Content { public: const ContentPtr simplify_uniontype(bool, bool) const { return shallow_copy(); } };
  using UnionArray8_32 = Union<1>;
  using UnionArray8_U32 = Union<2>;
  using UnionArray8_64 = Union<3>;
  namespace kernel {
    void regularize_rangeslice(int64_t* start, int64_t* stop, bool posstep, bool hasstart, bool hasstop, int64_t length) {   // P03
      const int64_t lo = posstep ? 0 : -1, hi = posstep ? length : length - 1;
      auto clamp = [&](int64_t x) { if (x < 0) x += length; return std::min(std::max(x, lo), hi); };
      *start = hasstart ? clamp(*start) : (posstep ? lo : hi);
      *stop = hasstop ? clamp(*stop) : (posstep ? hi : lo);
      if (posstep ? *stop < *start : *stop > *start) *stop = *start;
    }
  }
}
#include "libawkward/partition/PartitionedArray.cpp"
#undef FILENAME
#undef FILENAME_C
#include "libawkward/partition/IrregularlyPartitionedArray.cpp"
using namespace awkward;
static long arrays = 0, ops = 0;

// the elements of a partitioned array; its partitions end where it says
static V contents(const PartitionedArray* a) {
  if (a->numpartitions() < 1) fail("no partitions");
  V out;
  for (int64_t i = 0; i < a->numpartitions(); i++) {
    if (a->start(i) != (int64_t)out.size()) fail("where a partition starts");
    V x = a->partition(i)->v;
    out.insert(out.end(), x.begin(), x.end());
    if (a->stop(i) != (int64_t)out.size()) fail("where a partition stops");
  }
  if (a->length() != (int64_t)out.size()) fail("the length");
  return out;
}

static void check(const V& lens) {
  ContentPtrVec parts;
  V all, stops;
  for (int64_t n : lens) {
    V x;
    for (int64_t i = 0; i < n; i++) { x.push_back((int64_t)all.size() * 7 + 3); all.push_back(x.back()); }
    parts.push_back(std::make_shared<Content>(x));
    stops.push_back((int64_t)all.size());
  }
  const int64_t none = Slice::none(), n = (int64_t)all.size();
  const std::string head = "partitions of lengths " + str(lens) + ", ";
  arrays++;
  IrregularlyPartitionedArray a(parts, stops);
  current = head + "whole";
  if (contents(&a) != all) fail("the elements");
  for (int64_t at = -n - 2; at < n + 2; at++, ops++) {
    current = head + "item " + str(at);
    try {
      V x = a.getitem_at(at)->v;
      if (at < -n || at >= n) fail("an item out of range");
      if (x != V(1, all[(size_t)(at < 0 ? at + n : at)])) fail("the item");
    }
    catch (std::invalid_argument&) { if (at >= -n && at < n) fail("an item refused"); }
  }
  V ends(1, none);
  for (int64_t i = -n - 2; i <= n + 2; i++) ends.push_back(i);
  ends.push_back(1000);
  ends.push_back(-1000);
  for (int64_t step : { none, (int64_t)1, (int64_t)2, (int64_t)3, (int64_t)5, (int64_t)100, (int64_t)-1, (int64_t)-2, (int64_t)-3, (int64_t)-4, (int64_t)-100 })
    for (int64_t start : ends)
      for (int64_t stop : ends) {
        ops++;
        current = head + "range " + str(start) + ":" + str(stop) + ":" + str(step);
        if (contents(a.getitem_range(start, stop, step).get()) != pyslice(all, start, stop, step)) fail("the elements of a range");
      }
  for (int64_t p = 1; p <= 3; p++)
    for (int64_t code = 0, m = 1; (m = (n + 1) * (p > 2 ? n + 1 : 1), code < (p > 1 ? m : 1)); code++) {
      V to;
      if (p > 2) to.push_back(code / (n + 1));
      if (p > 1) to.push_back(code % (n + 1));
      to.push_back(n);
      if (!std::is_sorted(to.begin(), to.end())) continue;
      ops++;
      current = head + "repartitioned to end at " + str(to);
      PartitionedArrayPtr r = a.repartition(to);
      if (contents(r.get()) != all) fail("the elements after repartitioning");
      if (r->numpartitions() != (int64_t)to.size()) fail("the number of partitions");
      for (size_t i = 0; i < to.size(); i++) if (r->stop((int64_t)i) != to[i]) fail("where a partition stops");
    }
  for (const V& to : { V(), V(1, n + 1), V{ n + 1, n }, V{ n, -1, n }, V{ -1, n } }) {
    ops++;
    current = head + "repartitioned to end at " + str(to);
    try { a.repartition(to); fail("not refused"); } catch (std::invalid_argument&) { }
  }
}

static void crashed(int) { printf("FAILED memory: %s\n", current.c_str()); fflush(stdout); _Exit(1); }
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_on_error() { printf("FAILED memory: %s\n", current.c_str()); fflush(stdout); }
#endif

int main(int argc, char** argv) {
  signal(SIGSEGV, crashed);
  // every array of 1 to `most` partitions of 0 to `longest` elements; this process takes every procs-th
  const int64_t most = atoi(argv[1]), longest = atoi(argv[2]), mine = atoi(argv[3]), procs = atoi(argv[4]);
  int64_t number = 0;
  for (int64_t p = 1; p <= most; p++) {
    V lens((size_t)p, 0);
    for (;;) {
      if (number++ % procs == mine) check(lens);
      size_t i = 0;
      while (i < lens.size() && ++lens[i] > longest) lens[i++] = 0;
      if (i == lens.size()) break;
    }
  }
  printf("DONE %ld arrays, %ld operations\n", arrays, ops);
}
