// Entry points to the member functions of ForthInputBuffer (see akv/build.py).
#include "akv_unit.h"
#include "libawkward/forth/ForthInputBuffer.cpp"
using namespace awkward;

static inline void make(ForthInputBuffer* b, const uint8_t* base, int64_t offset, int64_t length, int64_t pos) {
  new (b) ForthInputBuffer(std::shared_ptr<void>(std::shared_ptr<void>(), const_cast<uint8_t*>(base)), offset, length);
  b->pos_ = pos;
}

extern "C" {
void unit_forthinput_new(const uint8_t* base, int64_t offset, int64_t length, int64_t* state) {
  Box<ForthInputBuffer> b;
  new (&b.it) ForthInputBuffer(std::shared_ptr<void>(std::shared_ptr<void>(), const_cast<uint8_t*>(base)), offset, length);
  state[0] = b.it.pos();
  state[1] = b.it.len();
  state[2] = b.it.offset_;
  state[3] = (const uint8_t*)b.it.ptr_.get() - base;
}
void unit_forthinput_read(const uint8_t* base, int64_t offset, int64_t length, int64_t* pos, int64_t num_bytes, int64_t* err, int64_t* out) {
  Box<ForthInputBuffer> b;
  make(&b.it, base, offset, length, *pos);
  util::ForthError e = util::ForthError::none;
  void* p = b.it.read(num_bytes, e);
  *pos = b.it.pos();
  *err = (int64_t)e;
  *out = p == nullptr ? -1 : (const uint8_t*)p - base;
}
void unit_forthinput_seek(const uint8_t* base, int64_t offset, int64_t length, int64_t* pos, int64_t to, int64_t* err) {
  Box<ForthInputBuffer> b;
  make(&b.it, base, offset, length, *pos);
  util::ForthError e = util::ForthError::none;
  b.it.seek(to, e);
  *pos = b.it.pos();
  *err = (int64_t)e;
}
void unit_forthinput_skip(const uint8_t* base, int64_t offset, int64_t length, int64_t* pos, int64_t num_bytes, int64_t* err) {
  Box<ForthInputBuffer> b;
  make(&b.it, base, offset, length, *pos);
  util::ForthError e = util::ForthError::none;
  b.it.skip(num_bytes, e);
  *pos = b.it.pos();
  *err = (int64_t)e;
}
void unit_forthinput_query(const uint8_t* base, int64_t offset, int64_t length, int64_t* pos, int64_t* state) {
  Box<ForthInputBuffer> b;
  make(&b.it, base, offset, length, *pos);
  state[0] = b.it.end() ? 1 : 0;
  state[1] = b.it.pos();
  state[2] = b.it.len();
  *pos = b.it.pos_;
}
}
