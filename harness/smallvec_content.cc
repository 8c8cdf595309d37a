// SmallVector: which element ends up where. Elements are one byte wide; the element at one arbitrary
// position is remembered. A moved-from element holds an arbitrary value afterwards.
#include "smallvec.h"
struct El {
  char c;
  El() noexcept : c(0) {}
  explicit El(char x) noexcept : c(x) {}
  El(const El& o) noexcept : c(o.c) {}
  El(El&& o) noexcept : c(o.c) { o.c = (char)vf_nd_u8(); }
  El& operator=(const El& o) noexcept { c = o.c; return *this; }
  El& operator=(El&& o) noexcept { char x = o.c; o.c = (char)vf_nd_u8(); c = x; return *this; }
  ~El() {}
  friend bool operator==(const El& a, const El& b) noexcept { return a.c == b.c; }
  friend bool operator!=(const El& a, const El& b) noexcept { return a.c != b.c; }
};
using V = gul14::SmallVector<El, 4>;
template <bool Heap> inline void any_contents(V& v) {
  unsigned n = vf_pick32(7);
  if (Heap) { unsigned c = vf_pick32(7); vf_assume(c > v.inner_capacity()); vf_assume(n <= c); v.reserve(c); }
  else vf_assume(n <= v.inner_capacity());
  for (unsigned i = 0; i < n; ++i) v.emplace_back((char)vf_nd_u8());
  if (Heap) vf_havoc(v.data(), n);
}
inline unsigned any_pos(const V& v) { unsigned k = vf_pick32(7); vf_assume(k <= v.size()); return k; }
inline unsigned any_elem(const V& v) { unsigned k = vf_pick32(7); vf_assume(k < v.size()); return k; }
// remember position k in the vector's own object, in its current storage and in every storage allocated from now on
inline void watch_inner(void* object, unsigned k) { V e; const long off = (const char*)e.data() - (const char*)&e; if (k < e.inner_capacity()) vf_track((char*)object + off + k, 1); }
template <bool Heap> inline void watch(V& v, unsigned k) { if (Heap) vf_track(v.data() + k, 1); else watch_inner(&v, k); vf_autotrack_add(k); }
#define OPS(name, heap, ...) extern "C" void vfh_##name() { constexpr bool H = heap; V v; any_contents<heap>(v); const unsigned S = v.size(); (void)S; __VA_ARGS__; vf_reach("end"); }
#define OP(name, ...) OPS(name##_inner, false, __VA_ARGS__) OPS(name##_heap, true, __VA_ARGS__)
// operations that may grow by n elements: from inner storage with and without growth; allocated storage of arbitrary
// capacity without growth; allocated storage that is full (5 elements) and has to grow
#define FIXED(name, num, cap, ...) extern "C" void vfh_##name() { constexpr bool H = true; const unsigned n = (num); V v; v.reserve(cap); for (int i = 0; i < 5; ++i) v.emplace_back((char)vf_nd_u8()); const unsigned S = 5; __VA_ARGS__; vf_reach("end"); }
#define OPG(name, num, ...) OPS(name##_inner, false, const unsigned n = (num); __VA_ARGS__) FIXED(name##_full, num, 5, __VA_ARGS__) \
  OPS(name##_heap, true, const unsigned n = (num); vf_assume((unsigned long)S + n <= v.capacity()); __VA_ARGS__)
// n elements: allocated storage has 5 elements and is full or has room for 7 more
#define OPN(name, ...) OPS(name##_inner, false, const unsigned n = vf_pick32(7); __VA_ARGS__) FIXED(name##_full, vf_pick32(7), 5, __VA_ARGS__) \
  FIXED(name##_room, vf_pick32(7), 12, vf_assume(n <= 7); __VA_ARGS__)
// an element that was there before: k is its old position, K its position afterwards
#define OLD(cond, newpos) unsigned k = any_elem(v); vf_assume(cond); const unsigned K = (newpos); watch<H>(v, k); if (K != k) watch<H>(v, K); const char x = v[k].c;
#define STAYS vf_check(v[K].c == x, "element-kept-in-place")
// an element that is new: N is its position afterwards
#define NEW(newpos) const unsigned N = (newpos); watch<H>(v, N);
#define IS(y) vf_check(v[N].c == (y), "new-element-value")
#define Y const char y = (char)vf_nd_u8(); const El e(y);

OP(push_back_old, Y OLD(true, k) v.push_back(e); STAYS)
OP(push_back_new, Y NEW(S) v.push_back(e); IS(y))
OP(push_back_move_new, Y El f(y); NEW(S) v.push_back(std::move(f)); IS(y))
OP(push_back_own, vf_assume(S > 0); unsigned k = any_elem(v); watch<H>(v, k); const char x = v[k].c; NEW(S) v.push_back(v[k]); IS(x))
OP(emplace_back_old, OLD(true, k) v.emplace_back('x'); STAYS)
OP(emplace_back_new, Y NEW(S) v.emplace_back(y); IS(y))
OP(pop_back_old, OLD(k + 1 < S, k) v.pop_back(); STAYS)
OP(emplace_before, unsigned p = any_pos(v); OLD(k < p, k) v.emplace(v.begin() + p, 'x'); STAYS)
OPG(emplace_after, 1u, unsigned p = any_pos(v); OLD(k >= p, k + 1) v.emplace(v.begin() + p, 'x'); STAYS)
OP(emplace_new, Y unsigned p = any_pos(v); NEW(p) v.emplace(v.begin() + p, y); IS(y))
OP(insert_before, Y unsigned p = any_pos(v); OLD(k < p, k) v.insert(v.begin() + p, e); STAYS)
OPG(insert_after, 1u, Y unsigned p = any_pos(v); OLD(k >= p, k + 1) v.insert(v.begin() + p, e); STAYS)
OP(insert_new, Y unsigned p = any_pos(v); NEW(p) v.insert(v.begin() + p, e); IS(y))
OP(insert_n_before, Y unsigned n = vf_pick32(7); unsigned p = any_pos(v); OLD(k < p, k) v.insert(v.begin() + p, n, e); STAYS)
OPN(insert_n_after, Y vf_assume(n < 1000000000u); vf_assume(S < 1000000000u); unsigned p = any_pos(v); OLD(k >= p, k + n) v.insert(v.begin() + p, n, e); STAYS)
OPN(insert_n_new, Y vf_assume(n < 1000000000u); vf_assume(S < 1000000000u); unsigned p = any_pos(v), j = vf_pick32(7); vf_assume(j < n); NEW(p + j) v.insert(v.begin() + p, n, e); IS(y))
// a run of n arbitrary elements; the one at j is remembered
#define RUN unsigned j = vf_pick32(7); vf_assume(j < n); const El* run = (const El*)vf_alloc(n); vf_track(run + j, 1); const char y = run[j].c;
OPN(insert_range_new, vf_assume(n < 1000000000u); unsigned p = any_pos(v); RUN NEW(p + j) v.insert(v.begin() + p, run, run + n); IS(y))
OPN(insert_range_after, vf_assume(n < 1000000000u); unsigned p = any_pos(v); const El* run = (const El*)vf_alloc(n); OLD(k >= p, k + n) v.insert(v.begin() + p, run, run + n); STAYS)
OP(assign_range, unsigned n = vf_pick32(7); RUN NEW(j) v.assign(run, run + n); IS(y))
OP(erase_before, vf_assume(S > 0); unsigned p = any_elem(v); OLD(k < p, k) v.erase(v.begin() + p); STAYS)
OP(erase_after, vf_assume(S > 0); unsigned p = any_elem(v); OLD(k > p, k - 1) v.erase(v.begin() + p); STAYS)
OP(erase_range_before, unsigned p = any_pos(v), q = any_pos(v); vf_assume(p <= q); OLD(k < p, k) v.erase(v.begin() + p, v.begin() + q); STAYS)
OP(erase_range_after, unsigned p = any_pos(v), q = any_pos(v); vf_assume(p <= q); OLD(k >= q, k - (q - p)) v.erase(v.begin() + p, v.begin() + q); STAYS)
OP(reserve_old, unsigned n = vf_pick32(7); OLD(true, k) v.reserve(n); STAYS)
OPS(shrink_old_inner, false, OLD(true, k) v.shrink_to_fit(); STAYS)
OPS(shrink_old_heap, true, OLD(true, k) watch_inner(&v, k); v.shrink_to_fit(); STAYS)
OP(resize_old, unsigned n = vf_pick32(7); OLD(k < n, k) v.resize(n); STAYS)
OP(resize_new, unsigned n = vf_pick32(7), j = vf_pick32(7); vf_assume(S <= j); vf_assume(j < n); NEW(j) v.resize(n); IS(0))
OP(resize_value_new, Y unsigned n = vf_pick32(7), j = vf_pick32(7); vf_assume(S <= j); vf_assume(j < n); NEW(j) v.resize(n, e); IS(y))
OP(assign_n, Y unsigned n = vf_pick32(7), j = vf_pick32(7); vf_assume(j < n); NEW(j) v.assign(n, e); IS(y))
// a second vector in raw memory, position k remembered in it
#define OTHER alignas(V) char raw[sizeof(V)]; watch_inner(raw, k); V* w;
OP(copy_ctor, OLD(true, k) OTHER w = new (raw) V(v); vf_check((*w)[K].c == x, "element-copied"); STAYS; w->~V())
OP(move_ctor, OLD(true, k) OTHER w = new (raw) V(std::move(v)); vf_check((*w)[K].c == x, "element-moved-along"); w->~V())
OP(copy_assign, OLD(true, k) OTHER w = new (raw) V; *w = v; vf_check((*w)[K].c == x, "element-copied"); STAYS; w->~V())
OP(move_assign, OLD(true, k) OTHER w = new (raw) V; *w = std::move(v); vf_check((*w)[K].c == x, "element-moved-along"); w->~V())
// exchanging two vectors of any kind: k is watched in both objects and all storage
#define SWAPS(name, h1, h2, ...) extern "C" void vfh_##name() { constexpr bool H = h1; V v, w; any_contents<h1>(v); any_contents<h2>(w); OLD(true, k) __VA_ARGS__; vf_reach("end"); }
#define SWAP(name, ...) SWAPS(name##_ii, false, false, watch_inner(&w, k); __VA_ARGS__) SWAPS(name##_ih, false, true, vf_track(w.data() + k, 1); watch_inner(&w, k); __VA_ARGS__) SWAPS(name##_hi, true, false, watch_inner(&w, k); __VA_ARGS__) SWAPS(name##_hh, true, true, vf_track(w.data() + k, 1); __VA_ARGS__)
SWAP(swap, v.swap(w); vf_check(w[K].c == x, "element-swapped"))
SWAP(copy_over, w = v; vf_check(w[K].c == x, "element-copied"); STAYS)
SWAP(move_over, w = std::move(v); vf_check(w[K].c == x, "element-moved-along"))
// a difference at any position makes vectors unequal
#define DIFF(name, h1, h2) extern "C" void vfh_equal_diff_##name() { constexpr bool H = h1; V v, w; any_contents<h1>(v); any_contents<h2>(w); OLD(k < w.size(), k) if (h2) vf_track(w.data() + k, 1); else watch_inner(&w, k); vf_assume(w[k].c != x); vf_check(!(v == w), "equal.difference"); vf_check(v != w, "unequal.difference"); vf_reach("end"); }
DIFF(ii, false, false) DIFF(ih, false, true) DIFF(hi, true, false) DIFF(hh, true, true)
#define CTOR(name, ...) extern "C" void vfh_ctor_##name() { const unsigned n = vf_pick32(7); __VA_ARGS__; vf_check((*w)[j].c == y, "constructed-element"); w->~V(); vf_reach("end"); }
#define INTO unsigned k = j; vf_autotrack_add(j); OTHER
CTOR(n_value, unsigned j = vf_pick32(7); vf_assume(j < n); Y INTO w = new (raw) V(n, e))
CTOR(n, unsigned j = vf_pick32(7); vf_assume(j < n); const char y = 0; INTO w = new (raw) V(n))
CTOR(range, RUN INTO w = new (raw) V(run, run + n))
extern "C" void vfh_ctor_list() { const char a = vf_nd_u8(), b = vf_nd_u8(), c = vf_nd_u8(); V v{El(a), El(b), El(c)}; vf_check(v.size() == 3 && v[0].c == a && v[1].c == b && v[2].c == c, "list.elements"); vf_reach("end"); }
extern "C" void vfh_iterate() { const char a = vf_nd_u8(), b = vf_nd_u8(); V v{El(a), El(b)}; const V& w = v; vf_check(v.begin()->c == a && w.cbegin()->c == a && v.rbegin()->c == b && v.crbegin()->c == b && v.front().c == a && v.back().c == b && (v.rend() - 1)->c == a && w.begin()[1].c == b, "iteration-order"); vf_reach("end"); }
