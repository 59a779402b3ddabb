// Failure injection: the k-th allocation, or the k-th call of a user-supplied function, fails.
#pragma once
#include <cstdlib>
#include <cstddef>
#include <new>
namespace fault {
struct Boom { long k; };
inline long epoch = 0, bal = 0, na = 0, ncb = 0, at = -1, cbat = -1;
inline bool on = false;
inline void tick() { if (on && ++ncb == cbat) throw Boom{cbat}; }
inline void plan(long alloc, long cb) { ++epoch; bal = na = ncb = 0; at = alloc; cbat = cb; on = false; }
inline void arm() { on = true; }
inline void disarm() { on = false; }
struct alignas(16) Head { long epoch; size_t n; };
inline void* get(size_t n) {
  if (on && ++na == at) throw std::bad_alloc();
  auto* h = (Head*)std::malloc(sizeof(Head) + n);
  if (!h) throw std::bad_alloc();
  h->epoch = on ? epoch : 0; h->n = n;
  if (on) ++bal;
  return h + 1;
}
inline void put(void* p) noexcept {
  if (!p) return;
  auto* h = (Head*)p - 1;
  if (h->epoch && h->epoch == epoch) --bal;
  std::free(h);
}
}
void* operator new(size_t n) { return fault::get(n); }
void* operator new[](size_t n) { return fault::get(n); }
void operator delete(void* p) noexcept { fault::put(p); }
void operator delete[](void* p) noexcept { fault::put(p); }
void operator delete(void* p, size_t) noexcept { fault::put(p); }
void operator delete[](void* p, size_t) noexcept { fault::put(p); }
