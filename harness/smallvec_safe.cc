// SmallVector: element lifetimes and storage, for every operation on every state.
#include "smallvec.h"
#ifndef THROWS
#define THROWS false
#endif
#ifndef MOVETHROWS
#define MOVETHROWS false
#endif
#ifdef MOVEONLY
using El = MoveOnly;
#else
using El = Elem<THROWS, MOVETHROWS>;
#endif
using V = gul14::SmallVector<El, 4>;
inline unsigned any_pos(V& v) { unsigned k = vf_pick32(6); vf_assume(k <= v.size()); return k; }
inline unsigned any_elem(V& v) { unsigned k = vf_pick32(6); vf_assume(k < v.size()); return k; }
// OP runs on a vector in an arbitrary state (S = its size before); exceptions may leave it; then the vector is destroyed.
#define OPS(name, heap, ...) extern "C" void vfh_##name() { vf_ghost_on(sizeof(El)); V v; \
  try { any_state<heap>(v); } catch (...) { return; } const unsigned S = v.size(), C = v.capacity(); (void)S; (void)C; \
  try { __VA_ARGS__; vf_reach("end"); } catch (...) { } vf_check(v.size() <= v.capacity(), "size-within-capacity"); }
#define OP(name, ...) OPS(name##_inner, false, __VA_ARGS__) OPS(name##_heap, true, __VA_ARGS__)
#define PAIRS(name, h1, h2, ...) OPS(name, h1, V w; any_state<h2>(w); const unsigned T = w.size(); (void)T; __VA_ARGS__)
#define PAIR(name, ...) PAIRS(name##_ii, false, false, __VA_ARGS__) PAIRS(name##_ih, false, true, __VA_ARGS__) PAIRS(name##_hi, true, false, __VA_ARGS__) PAIRS(name##_hh, true, true, __VA_ARGS__)
#define SIZE(n) vf_check(v.size() == (n), "size-after")

// if the operation throws, the vector keeps its size
#define KEEPS(...) try { __VA_ARGS__; } catch (...) { vf_check(v.size() == S, "size-kept-on-exception"); throw; }
OP(clear, v.clear(); SIZE(0u); vf_check(v.capacity() == C, "clear.capacity"))
OP(push_back_move, El e(1); KEEPS(v.push_back(std::move(e))) SIZE(S + 1))
OP(emplace_back, El* r = nullptr; KEEPS(r = &v.emplace_back(7)) SIZE(S + 1); vf_check(r == &v[S], "emplace_back.result"))
OP(pop_back, vf_assume(S > 0); v.pop_back(); SIZE(S - 1))
OP(emplace, unsigned p = any_pos(v); auto it = v.emplace(v.begin() + p, 7); SIZE(S + 1); vf_check(it == v.begin() + p, "emplace.result"))
OP(insert_move, El e(1); unsigned p = any_pos(v); auto it = v.insert(v.begin() + p, std::move(e)); SIZE(S + 1); vf_check(it == v.begin() + p, "insert.result"))
OP(erase, vf_assume(S > 0); unsigned p = any_elem(v); auto it = v.erase(v.begin() + p); SIZE(S - 1); vf_check(it == v.begin() + p, "erase.result"))
OP(erase_range, unsigned p = any_pos(v), q = any_pos(v); vf_assume(p <= q); auto it = v.erase(v.begin() + p, v.begin() + q); SIZE(S - (q - p)); vf_check(it == v.begin() + p, "erase.result"))
OP(reserve, unsigned n = vf_pick32(6); KEEPS(v.reserve(n)) SIZE(S); vf_check(v.capacity() >= n && v.capacity() >= C, "reserve.capacity"))
OP(shrink, KEEPS(v.shrink_to_fit()) SIZE(S); vf_check(v.capacity() <= C, "shrink.capacity"))
OP(self_move, V& w = v; v = std::move(w); SIZE(S))
OP(move_ctor, V w(std::move(v)); vf_check(w.size() == S && v.empty(), "move.size"))
OP(at, unsigned k = vf_pick32(6); El& e = v.at(k); vf_check(k < S, "at.in-range-only"); vf_check(&e == v.data() + k, "at.element"))
OP(at_const, unsigned k = vf_pick32(6); const V& c = v; const El& e = c.at(k); vf_check(k < S, "at.in-range-only"); vf_check(&e == v.data() + k, "at.element"))
OP(access, vf_assume(S > 0); vf_check(&v.front() == v.data() && &v.back() == v.data() + S - 1 && v.end() == v.begin() + S && v.cend() == v.cbegin() + S && v.empty() == false, "ends"); Life::alive(&v.front()); Life::alive(&v.back()); Life::alive(&v[any_elem(v)]))
PAIR(move_assign, v = std::move(w); SIZE(T); vf_check(w.empty(), "moved-from-empty"))
PAIR(swap, v.swap(w); vf_check(v.size() == T && w.size() == S, "swap.size"))
#define CTOR(name, ...) extern "C" void vfh_ctor_##name() { vf_ghost_on(sizeof(El)); try { __VA_ARGS__; vf_check(v.size() <= v.capacity(), "size-within-capacity"); vf_reach("end"); } catch (...) { } }
CTOR(default, V v; vf_check(v.empty(), "ctor.size"))
#ifndef MOVEONLY
OP(push_back_copy, const El e(1); KEEPS(v.push_back(e)) SIZE(S + 1))
OP(push_back_own, vf_assume(S > 0); KEEPS(v.push_back(v[any_elem(v)])) SIZE(S + 1))
OP(emplace_back_own, vf_assume(S > 0); KEEPS(v.emplace_back(v[any_elem(v)])) SIZE(S + 1))
OP(emplace_own, vf_assume(S > 0); v.emplace(v.begin() + any_pos(v), v[any_elem(v)]); SIZE(S + 1))
OP(insert_copy, const El e(1); unsigned p = any_pos(v); auto it = v.insert(v.begin() + p, e); SIZE(S + 1); vf_check(it == v.begin() + p, "insert.result"))
OP(insert_own, vf_assume(S > 0); v.insert(v.begin() + any_pos(v), v[any_elem(v)]); SIZE(S + 1))
OP(insert_n, unsigned n = vf_pick32(4); const El e(1); unsigned p = any_pos(v); auto it = v.insert(v.begin() + p, n, e); SIZE(S + n); vf_check(it == v.begin() + p, "insert.result"))
OP(insert_n_own, vf_assume(S > 0); unsigned n = vf_pick32(4); v.insert(v.begin() + any_pos(v), n, v[any_elem(v)]); SIZE(S + n))
OP(insert_range, unsigned n = vf_pick32(4); unsigned p = any_pos(v); auto it = v.insert(v.begin() + p, Run{0, 1}, Run{(long)n, 1}); SIZE(S + n); vf_check(it == v.begin() + p, "insert.result"))
OP(insert_il, unsigned p = any_pos(v); auto it = v.insert(v.begin() + p, {El(1), El(2), El(3)}); SIZE(S + 3); vf_check(it == v.begin() + p, "insert.result"))
OP(resize, unsigned n = vf_pick32(6); KEEPS(v.resize(n)) SIZE(n))
OP(resize_value, unsigned n = vf_pick32(6); const El e(1); KEEPS(v.resize(n, e)) SIZE(n))
OP(resize_own, vf_assume(S > 0); unsigned n = vf_pick32(6); v.resize(n, v[any_elem(v)]); SIZE(n))
OP(assign_n, unsigned n = vf_pick32(6); const El e(1); v.assign(n, e); SIZE(n))
OP(assign_own, vf_assume(S > 0); unsigned n = vf_pick32(6); v.assign(n, v[any_elem(v)]); SIZE(n))
OP(assign_range, unsigned n = vf_pick32(6); v.assign(Run{0, 1}, Run{(long)n, 1}); SIZE(n))
OP(assign_il, v.assign({El(1), El(2), El(3), El(4), El(5)}); SIZE(5u))
OP(equals_il, v = {El(1), El(2)}; SIZE(2u))
OP(self_copy, v = *&v; SIZE(S))
OP(copy_ctor, V w(v); vf_check(w.size() == S && v.size() == S, "copy.size"))
PAIR(copy_assign, v = w; vf_check(v.size() == T && w.size() == T, "copy.size"))
PAIR(equal, bool r = v == w; if (S != T) vf_check(!r, "equal.size"))
CTOR(n, unsigned n = vf_pick32(6); V v(n); vf_check(v.size() == n, "ctor.size"))
CTOR(n_value, unsigned n = vf_pick32(6); const El e(1); V v(n, e); vf_check(v.size() == n, "ctor.size"))
CTOR(range, unsigned n = vf_pick32(6); V v(Run{0, 1}, Run{(long)n, 1}); vf_check(v.size() == n, "ctor.size"))
CTOR(il, V v({El(1), El(2), El(3), El(4), El(5)}); vf_check(v.size() == 5, "ctor.size"))
#endif
