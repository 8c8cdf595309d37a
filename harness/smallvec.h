// SmallVector in an arbitrary state, with elements whose lifetimes are watched.
#pragma once
#include "vf.h"
#include <gul14/SmallVector.h>
#include <initializer_list>
#include <iterator>
#include <memory>
// Lifetime of the element at one arbitrary position of every storage block: 1 alive, 0 not alive
// (-1: some other position). Constructing over a live element, using or destroying one that is
// not alive, and releasing storage that still contains a live element are violations.
struct Life {
  static void born(const void* p) noexcept { vf_check(vf_gget(p) != 1, "element-constructed-over-a-live-one"); vf_gset(p, 1); }
  static void alive(const void* p) noexcept { vf_check(vf_gget(p) != 0, "element-used-while-not-alive"); }
  static void dies(const void* p) noexcept { vf_check(vf_gget(p) != 0, "element-destroyed-while-not-alive"); vf_gset(p, 0); }
};
template <bool Throws, bool MoveThrows = false> struct Elem {
  int v;
  static void maybe() noexcept(!Throws) { if (Throws && vf_nd_bool()) vf_throw(); }
  static void maybe_move() noexcept(!MoveThrows) { if (MoveThrows && vf_nd_bool()) vf_throw(); }
  Elem() noexcept(!Throws) { maybe(); v = 0; Life::born(this); }
  Elem(int i) noexcept(!Throws) { maybe(); v = i; Life::born(this); }
  Elem(const Elem& o) noexcept(!Throws) { Life::alive(&o); maybe(); v = o.v; Life::born(this); }
  Elem(Elem&& o) noexcept(!MoveThrows) { Life::alive(&o); maybe_move(); v = o.v; Life::born(this); }
  Elem& operator=(const Elem& o) noexcept(!Throws) { Life::alive(this); Life::alive(&o); maybe(); v = o.v; return *this; }
  Elem& operator=(Elem&& o) noexcept(!MoveThrows) { Life::alive(this); Life::alive(&o); maybe_move(); v = o.v; return *this; }
  ~Elem() { Life::dies(this); }
  friend bool operator==(const Elem& a, const Elem& b) noexcept { Life::alive(&a); Life::alive(&b); return a.v == b.v; }
};
// can only be moved; moving may throw
struct MoveOnly {
  int v;
  MoveOnly(int i) { if (vf_nd_bool()) vf_throw(); v = i; Life::born(this); }
  MoveOnly(MoveOnly&& o) { Life::alive(&o); if (vf_nd_bool()) vf_throw(); v = o.v; Life::born(this); }
  MoveOnly& operator=(MoveOnly&& o) { Life::alive(this); Life::alive(&o); if (vf_nd_bool()) vf_throw(); v = o.v; return *this; }
  ~MoveOnly() { Life::dies(this); }
};
// a run of n numbers as an iterator range (every kind of iterator access the container may use)
struct Run {
  using value_type = int; using difference_type = std::ptrdiff_t; using pointer = const int*; using reference = int; using iterator_category = std::random_access_iterator_tag;
  long i; int x;
  reference operator*() const { return x; }
  reference operator[](long) const { return x; }
  Run& operator++() { ++i; return *this; } Run operator++(int) { Run r = *this; ++i; return r; }
  Run& operator--() { --i; return *this; } Run operator--(int) { Run r = *this; --i; return r; }
  Run& operator+=(long n) { i += n; return *this; } Run& operator-=(long n) { i -= n; return *this; }
  friend Run operator+(Run r, long n) { r.i += n; return r; } friend Run operator+(long n, Run r) { r.i += n; return r; }
  friend Run operator-(Run r, long n) { r.i -= n; return r; } friend long operator-(Run a, Run b) { return a.i - b.i; }
  friend bool operator==(Run a, Run b) { return a.i == b.i; } friend bool operator!=(Run a, Run b) { return a.i != b.i; }
  friend bool operator<(Run a, Run b) { return a.i < b.i; } friend bool operator>(Run a, Run b) { return a.i > b.i; }
  friend bool operator<=(Run a, Run b) { return a.i <= b.i; } friend bool operator>=(Run a, Run b) { return a.i >= b.i; }
};
// Fill v to an arbitrary size: Heap — on allocated storage of arbitrary capacity; otherwise in the object itself.
template <bool Heap, class V> inline void any_state(V& v) {
  unsigned n = vf_pick32(6);
  if (Heap) { unsigned c = vf_pick32(7); vf_assume(c > v.inner_capacity()); vf_assume(n <= c); v.reserve(c); }
  else vf_assume(n <= v.inner_capacity());
  for (unsigned i = 0; i < n; ++i) v.emplace_back(1);
}
