// Bounded check of ForthMachineOf<T, I>::internal_run: random programs of read, seek, skip, write, rewind and dup instructions
// are run on the real machine (with AddressSanitizer) and compared with what the instructions mean.
// usage: forthrun SEED PROGRAMS MODE (r: reading from the input; w: writing to the output from the stack)
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <unistd.h>
#include <vector>
#include "awkward/forth/ForthMachine.h"
using namespace awkward;
typedef util::ForthError E;

extern "C" void awkward_free(void const* ptr) { delete [] reinterpret_cast<uint8_t const*>(ptr); }   // as in cpu-kernels/allocators.cpp

static std::string current;
static void died() { printf("FAILED died: %s\n", current.c_str()); fflush(stdout); }
static void on_signal(int s) { printf("FAILED signal %d: %s\n", s, current.c_str()); fflush(stdout); _exit(3); }
extern "C" void __asan_set_death_callback(void (*f)(void)) __attribute__((weak));

static uint64_t rs;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1DULL; }
static int64_t below(int64_t n) { return (int64_t)((rnd() >> 11) % (uint64_t)n); }

struct Value {   // a value read: float, signed or unsigned
  char kind; double f; int64_t i; uint64_t u;
};
template <typename OUT> OUT as(const Value& v) { return v.kind == 'f' ? (OUT)v.f : v.kind == 'i' ? (OUT)v.i : (OUT)v.u; }
template <> float as<float>(const Value& v) { return v.kind == 'f' ? (float)v.f : v.kind == 'i' ? (float)v.i : (float)v.u; }

template <typename V> Value decode(const uint8_t* p, bool big, char kind) {
  uint8_t b[sizeof(V)];
  for (size_t j = 0;  j < sizeof(V);  j++) b[j] = p[big ? sizeof(V) - 1 - j : j];
  V x; memcpy(&x, b, sizeof(V));
  Value v; v.kind = kind; v.f = (double)x; v.i = (int64_t)x; v.u = (uint64_t)x;
  return v;
}

struct Format { const char* word; int size; char kind; };
static const Format FORMATS[] = {{"?", 1, '?'}, {"b", 1, 'i'}, {"h", 2, 'i'}, {"i", 4, 'i'}, {"q", 8, 'i'}, {"n", 8, 'i'}, {"B", 1, 'u'},
  {"H", 2, 'u'}, {"I", 4, 'u'}, {"Q", 8, 'u'}, {"N", 8, 'u'}, {"f", 4, 'f'}, {"d", 8, 'f'}, {"varint", 0, 'v'}, {"zigzag", 0, 'z'}, {"bit", 0, 'n'}};

static Value read_one(const Format& f, const uint8_t* p, bool big) {
  switch (f.kind) {
    case '?': return decode<uint8_t>(p, false, 'u');
    case 'f': return f.size == 4 ? decode<float>(p, big, 'f') : decode<double>(p, big, 'f');
    case 'i': return f.size == 1 ? decode<int8_t>(p, big, 'i') : f.size == 2 ? decode<int16_t>(p, big, 'i') : f.size == 4 ? decode<int32_t>(p, big, 'i') : decode<int64_t>(p, big, 'i');
    default:  return f.size == 1 ? decode<uint8_t>(p, big, 'u') : f.size == 2 ? decode<uint16_t>(p, big, 'u') : f.size == 4 ? decode<uint32_t>(p, big, 'u') : decode<uint64_t>(p, big, 'u');
  }
}

static bool writing;
static const int64_t DEPTH = 24;   // of the machine's stack

template <typename T, typename OUT>
struct Run {
  std::vector<uint8_t> in;
  int64_t pos, seen;   // seen: how far it has been read
  std::vector<T> stack;
  std::vector<OUT> out;
  E err;
  std::string text;

  void push(const Value& v) {
    if ((int64_t)stack.size() == DEPTH) { err = E::stack_overflow; return; }
    stack.push_back(as<T>(v));
  }
  void give(const Value& v, bool direct) { if (direct) out.push_back(as<OUT>(v)); else push(v); }

  void number(int64_t x) {   // push it (literals are 32 bits)
    text += std::to_string(x) + " ";
    Value v; v.kind = 'i'; v.i = x; push(v);
  }
  // pushes a count; large ones need a 64-bit stack
  int64_t count(bool huge) {
    if (!huge  ||  sizeof(T) < 8) { int64_t n = below(10) == 0 ? -1 - below(3) : below(6); number(n); return n; }
    int64_t sh = 58 + below(6);
    bool neg = below(3) == 0;
    int64_t add = below(4);
    text += std::string(neg ? "-1 " : "1 ") + std::to_string(sh) + " lshift " + std::to_string(add) + " + ";
    int64_t n = (int64_t)(((uint64_t)(neg ? -1 : 1) << sh) + (uint64_t)add);
    if ((int64_t)stack.size() + 1 >= DEPTH) { stack.push_back((T)n); err = E::stack_overflow; return n; }
    stack.push_back((T)n);
    return n;
  }
  bool room(int64_t n) { return (int64_t)stack.size() + n <= DEPTH; }

  void read() {
    const Format& f = FORMATS[below(16)];
    bool big = below(2) == 0, rep = below(2) == 0, direct = below(2) == 0;
    int64_t left = (int64_t)in.size() - pos;
    int64_t n = 1;
    int width = 1 + (int)below(64);
    if (pos > seen) seen = pos;
    if ((f.kind == 'f'  ||  f.kind == '?')  &&  pos < seen) return;
    if (f.kind == 'f') {   // floating-point data that converts to every type
      for (int64_t j = pos;  j + f.size <= (int64_t)in.size();  j += f.size) {
        double d = (double)below(60) + (below(2) ? 0.5 : 0);
        uint8_t b[8];
        if (f.size == 4) { float x = (float)d; memcpy(b, &x, 4); } else memcpy(b, &d, 8);
        for (int k = 0;  k < f.size;  k++) in[j + k] = b[big ? f.size - 1 - k : k];
      }
    }
    if (f.kind == '?') for (int64_t j = pos;  j < (int64_t)in.size();  j++) in[j] &= 1;
    if (!room(3)) return;
    if (rep) {
      n = count(f.size > 0  &&  below(4) == 0);
      if (f.kind == 'n'  &&  n < 0) { text += "drop "; stack.pop_back(); return; }
      stack.pop_back();
    }
    text += std::string("x ") + (rep ? "#" : "") + (big ? "!" : "") + (f.kind == 'n' ? std::to_string(width) : "") + f.word + "-> " + (direct ? "y " : "stack ");
    if (f.size > 0) {
      if (n < 0  ||  n > left / f.size) { err = E::read_beyond; return; }
      int64_t at = pos;
      pos += n * f.size;
      for (int64_t j = 0;  j < n  &&  err == E::none;  j++) give(read_one(f, in.data() + at + j * f.size, big), direct);
    }
    else if (f.kind == 'n') {
      int avail = 0; uint8_t byte = 0;
      for (int64_t j = 0;  j < n  &&  err == E::none;  j++) {
        uint64_t x = 0;
        for (int k = 0;  k < width;  k++) {
          if (avail == 0) {
            if (pos == (int64_t)in.size()) { err = E::read_beyond; return; }
            byte = in[pos++];
            if (big) { uint8_t r = 0; for (int q = 0;  q < 8;  q++) r |= (uint8_t)(((byte >> q) & 1) << (7 - q)); byte = r; }
            avail = 8;
          }
          x |= (uint64_t)(byte & 1) << k;
          byte >>= 1; avail--;
        }
        Value v; v.kind = 'u'; v.u = x;
        give(v, direct);
      }
    }
    else {
      for (int64_t j = 0;  j < n  &&  err == E::none;  j++) {
        uint64_t x = 0; int nb = 0; uint8_t byte;
        do {
          if (pos == (int64_t)in.size()) { err = E::read_beyond; return; }
          byte = in[pos++];
          if (nb == 9) { err = E::varint_too_big; return; }
          x |= (uint64_t)(byte & 0x7f) << (7 * nb++);
        } while (byte & 0x80);
        Value v; v.kind = 'u'; v.u = x;
        if (f.kind == 'z') { v.kind = 'i'; v.i = (int64_t)(x >> 1) ^ -(int64_t)(x & 1); }
        give(v, direct);
      }
    }
  }

  void step() {
    if (pos > seen) seen = pos;
    if (!room(3)) { while (!stack.empty()  &&  stack.size() > 4) { text += "drop "; stack.pop_back(); } }
    switch (writing ? 3 + below(5) : below(4) == 0 ? below(3) : 8) {
      case 0: { int64_t to = below(8) == 0 ? (int64_t)in.size() + 1 + below(3) : below((int64_t)in.size() + 1);
                if (below(12) == 0) to = -1 - below(4);
                number(to); text += "x seek "; stack.pop_back();
                if (to < 0  ||  to > (int64_t)in.size()) err = E::seek_beyond; else pos = to;
                break; }
      case 1: { int64_t by = below(9) - 4;
                number(by); text += "x skip "; stack.pop_back();
                if (pos + by < 0  ||  pos + by > (int64_t)in.size()) err = E::skip_beyond; else pos += by;
                break; }
      case 2: { text += "x pos x len x end "; Value v; v.kind = 'i';
                v.i = pos; push(v); v.i = (int64_t)in.size(); push(v); v.i = pos == (int64_t)in.size() ? -1 : 0; push(v);
                break; }
      case 3: { if (sizeof(T) == 8  &&  below(3) == 0) count(true);
                else if (stack.empty()  ||  below(2)) number(below(3) ? below(400) - 200 : below((int64_t)1 << 32) - ((int64_t)1 << 31));
                Value v; v.kind = 'i'; v.i = (int64_t)stack.back(); stack.pop_back();
                text += "y <- stack "; out.push_back(as<OUT>(v));
                break; }
      case 4: { int64_t x = below(9); number(x); stack.pop_back(); text += "y +<- stack ";
                if (std::is_same<OUT, bool>::value) { out.push_back((OUT)((!out.empty() && out.back() != 0) || x != 0)); }
                else { out.push_back((OUT)((out.empty() ? (OUT)0 : out.back()) + (OUT)x)); }
                break; }
      case 5: { int64_t x = below(10) == 0 ? -1 : below(4); number(x); stack.pop_back(); text += "y rewind ";
                if (x < 0  ||  x > (int64_t)out.size()) err = E::rewind_beyond; else out.resize(out.size() - (size_t)x);
                break; }
      case 6: { int64_t x = below(5) - 1; number(x); stack.pop_back(); text += "y dup ";
                if (out.empty()) err = E::rewind_beyond; else { OUT v = out.back(); for (int64_t j = 0;  j < x;  j++) out.push_back(v); }
                break; }
      case 7: { text += "y len "; Value v; v.kind = 'i'; v.i = (int64_t)out.size(); push(v); break; }
      default: read();
    }
  }
};

static int64_t failures = 0, programs = 0, instructions = 0;
static void bad(const char* what) {
  printf("FAILED %s: %s\n", what, current.c_str());
  if (++failures >= 5) { fflush(stdout); _exit(1); }
}

template <typename M, typename T, typename OUT>
void one(const char* dtype) {
  Run<T, OUT> r;
  r.pos = r.seen = 0; r.err = E::none;
  int64_t n = below(4) == 0 ? below(4) : below(60);
  for (int64_t j = 0;  j < n;  j++) r.in.push_back(below(3) == 0 ? (uint8_t)(0x80 | below(128)) : (uint8_t)below(256) & (below(2) ? 0x7f : 0xff));
  int64_t init = 1 + below(8);
  double factor = below(2) ? 1.5 : 1.1;
  int64_t steps = 1 + below(writing ? 20 : 8);
  for (int64_t s = 0;  s < steps  &&  r.err == E::none;  s++) { r.step(); instructions++; }
  std::string src = std::string("input x output y ") + dtype + " " + r.text;
  int64_t off = below(5);
  current = std::string(sizeof(T) == 8 ? "64" : "32") + "-bit machine: " + src + "with input at " + std::to_string(off) + ", bytes";
  for (uint8_t b : r.in) current += " " + std::to_string((int)b);
  M vm(src, DEPTH, 16, init, factor);
  // the input ends where its memory ends
  std::shared_ptr<void> mem(malloc((size_t)(off + n) + (off + n == 0 ? 1 : 0)), free);
  if (n) memcpy((uint8_t*)mem.get() + off, r.in.data(), (size_t)n);
  std::shared_ptr<ForthInputBuffer> x = std::make_shared<ForthInputBuffer>(mem, off, n);
  std::map<std::string, std::shared_ptr<ForthInputBuffer>> ins; ins["x"] = x;
  E err = vm.run(ins);
  programs++;
  if (err != r.err) { bad("error"); return; }
  if (n  &&  memcmp((uint8_t*)mem.get() + off, r.in.data(), (size_t)n) != 0) bad("input changed");
  if (x->pos() != r.pos) bad("position");
  std::shared_ptr<ForthOutputBuffer> y = vm.output_at("y");
  if (y->len() != (int64_t)r.out.size()) { bad("output length"); return; }
  const OUT* p = reinterpret_cast<const OUT*>(y->ptr().get());
  for (size_t j = 0;  j < r.out.size();  j++) if (!(p[j] == r.out[j])) { bad("output"); break; }
  const std::vector<T> st = vm.stack();
  if (err != E::stack_overflow  &&  !(st == r.stack)) bad("stack");
}

template <typename M, typename T>
void all() {
  switch (below(11)) {
    case 0: one<M, T, bool>("bool"); break;
    case 1: one<M, T, int8_t>("int8"); break;
    case 2: one<M, T, int16_t>("int16"); break;
    case 3: one<M, T, int32_t>("int32"); break;
    case 4: one<M, T, int64_t>("int64"); break;
    case 5: one<M, T, uint8_t>("uint8"); break;
    case 6: one<M, T, uint16_t>("uint16"); break;
    case 7: one<M, T, uint32_t>("uint32"); break;
    case 8: one<M, T, uint64_t>("uint64"); break;
    case 9: one<M, T, float>("float32"); break;
    case 10: one<M, T, double>("float64"); break;
  }
}

int main(int argc, char** argv) {
  rs = 0x9E3779B97F4A7C15ULL ^ (uint64_t)strtoull(argv[1], nullptr, 10) * 0xD1342543DE82EF95ULL;
  int64_t n = strtoll(argv[2], nullptr, 10);
  writing = argv[3][0] == 'w';
  if (__asan_set_death_callback) __asan_set_death_callback(died);
  signal(SIGABRT, on_signal); signal(SIGALRM, on_signal);
  for (int64_t i = 0;  i < n;  i++) {
    alarm(20);
    if (below(2)) all<ForthMachine32, int32_t>(); else all<ForthMachine64, int64_t>();
  }
  printf("DONE %lld programs, %lld instructions, %lld failures\n", (long long)programs, (long long)instructions, (long long)failures);
  return failures ? 1 : 0;
}
