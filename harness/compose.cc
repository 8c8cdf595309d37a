// Building text from pieces: cat, join, repeat, replace, safe_string.
#include "text.h"
#include <gul14/cat.h>
#include <gul14/join_split.h>
#include <gul14/replace.h>
#include <gul14/string_util.h>
#include <vector>
using gul14::string_view;
#define E(name) extern "C" void vfh_##name()
E(cat2_first) { string_view a = any_text(), b = any_text(); unsigned long k = any_index(a); char c = a[k]; REMEMBER(r, k, gul14::cat(a, b)); vf_check(r.size() == a.size() + b.size(), "cat.length"); vf_check(r[k] == c, "cat.first-piece"); vf_reach("end"); }
E(cat2_second) { string_view a = any_text(), b = any_text(); unsigned long k = any_index(b); char c = b[k]; unsigned long o = a.size() + k; REMEMBER(r, o, gul14::cat(a, b)); vf_check(r.size() == a.size() + b.size(), "cat.length"); vf_check(r[o] == c, "cat.second-piece"); vf_reach("end"); }
E(cat3_first) { string_view a = any_text(), b = any_text(), d = any_text(); unsigned long k = any_index(a); char c = a[k]; REMEMBER(r, k, gul14::cat(a, b, d)); vf_check(r.size() == a.size() + b.size() + d.size(), "cat.length"); vf_check(r[k] == c, "cat.first-piece"); vf_reach("end"); }
E(cat3_second) { string_view a = any_text(), b = any_text(), d = any_text(); unsigned long k = any_index(b); char c = b[k]; unsigned long o = a.size() + k; REMEMBER(r, o, gul14::cat(a, b, d)); vf_check(r[o] == c, "cat.second-piece"); vf_reach("end"); }
E(cat3_third) { string_view a = any_text(), b = any_text(), d = any_text(); unsigned long k = any_index(d); char c = d[k]; unsigned long o = a.size() + b.size() + k; REMEMBER(r, o, gul14::cat(a, b, d)); vf_check(r[o] == c, "cat.third-piece"); vf_reach("end"); }
E(cat4_len) { string_view a = any_text(), b = any_text(), d = any_text(), e = any_text(); std::string r = gul14::cat(a, b, d, e); vf_check(r.size() == a.size() + b.size() + d.size() + e.size(), "cat.length"); vf_reach("end"); }
E(cat4_last) { string_view a = any_text(), b = any_text(), d = any_text(), e = any_text(); unsigned long k = any_index(e); char c = e[k]; unsigned long o = a.size() + b.size() + d.size() + k; REMEMBER(r, o, gul14::cat(a, b, d, e)); vf_check(r[o] == c, "cat.last-piece"); vf_reach("end"); }
E(cat1) { string_view a = any_text(); unsigned long k = any_index(a); char c = a[k]; REMEMBER(r, k, gul14::cat(a)); vf_check(r.size() == a.size() && r[k] == c, "cat.single"); vf_reach("end"); }
E(repeat) { string_view a = any_text(); unsigned long n = vf_pick(4); std::string r = gul14::repeat(a, n); vf_reach("end"); }
E(repeat1) { string_view a = any_text(); unsigned long k = any_index(a); char c = a[k]; REMEMBER(r, k, gul14::repeat(a, 1)); vf_check(r.size() == a.size() && r[k] == c, "repeat.once"); vf_reach("end"); }
E(repeat2) { string_view a = any_text(); unsigned long k = any_index(a); char c = a[k]; unsigned long o = k + a.size(); REMEMBER(r, o, gul14::repeat(a, 2)); vf_check(r.size() == 2 * a.size() && r[o] == c, "repeat.twice"); vf_reach("end"); }
E(repeat_char) { unsigned long n = vf_pick(4); char c = 'x'; std::string r = gul14::repeat(string_view(&c, 1), n); vf_check(r.size() == n, "repeat.count"); vf_reach("end"); }
E(safe_null) { std::string r = gul14::safe_string(nullptr, vf_nd_u64()); vf_check(r.empty(), "safe_string.null"); vf_reach("end"); }
E(safe_bounded) { unsigned long n = vf_pick(4); const char* p = (const char*)vf_alloc(n); std::string r = gul14::safe_string(p, n); vf_check(r.size() <= n, "safe_string.no-longer-than-buffer"); vf_reach("end"); }
E(safe_nul) { unsigned long n = vf_pick(4), k = vf_pick(4); vf_assume(k < n); const char* p = (const char*)vf_alloc(n); vf_track(p + k, 1); vf_assume(p[k] == 0); std::string r = gul14::safe_string(p, n); vf_check(r.size() <= k, "safe_string.stops-at-nul"); vf_reach("end"); }
E(safe_content) { unsigned long n = vf_pick(4), k = vf_pick(4); vf_assume(k < n); const char* p = (const char*)vf_alloc(n); vf_track(p + k, 1); char c = p[k]; REMEMBER(r, k, gul14::safe_string(p, n)); if (k < r.size()) vf_check(r[k] == c, "safe_string.content"); vf_reach("end"); }
E(safe_full) { unsigned long n = vf_pick(4); const char* p = (const char*)vf_alloc(n); vf_exclude(p, 0); std::string r = gul14::safe_string(p, n); vf_check(r.size() == n, "safe_string.complete-without-nul"); vf_reach("end"); }
E(replace_safe) { string_view h = any_text(), n = any_text(), m = any_text(); std::string r = gul14::replace(h, n, m); vf_reach("end"); }
E(replace_inplace_safe) { string_view h = any_text(), n = any_text(), m = any_text(); std::string r(h.data(), h.size()); std::string& q = gul14::replace_inplace(r, n, m); vf_check(&q == &r, "replace_inplace.returns-argument"); vf_reach("end"); }
E(replace_empty_needle) { string_view h = any_text(), m = any_text(); unsigned long k = any_index(h); char c = h[k]; REMEMBER(r, k, gul14::replace(h, "", m)); vf_check(r.size() == h.size() && r[k] == c, "replace.empty-needle-changes-nothing"); vf_reach("end"); }
E(replace_none) { string_view h = any_text(), m = any_text(); char c = vf_nd_u8(); vf_exclude(h.data(), c); std::string r = gul14::replace(h, string_view(&c, 1), m); vf_check(r.size() == h.size(), "replace.nothing-to-replace"); vf_reach("end"); }
E(replace_char) { // one character for another: same length, every other character kept, every occurrence replaced
  string_view h = any_text(); unsigned long k = any_index(h); char c = h[k], n = vf_nd_u8(), m = vf_nd_u8(); RELATE(lt, gt, c, n);
  REMEMBER(r, k, gul14::replace(h, string_view(&n, 1), string_view(&m, 1)));
  vf_check(r.size() == h.size(), "replace.length"); vf_check(r[k] == (lt || gt ? c : m), "replace.character"); vf_reach("end"); }
E(join_safe) { unsigned long n = vf_pick(4); vf_assume(n < (1ul << 40)); string_view g = any_text();
  struct It { using value_type = string_view; using difference_type = long; using pointer = string_view*; using reference = string_view&; using iterator_category = std::forward_iterator_tag;
    unsigned long i; string_view t; bool operator==(const It& o) const { return i == o.i; } bool operator!=(const It& o) const { return i != o.i; } It& operator++() { ++i; return *this; } const string_view& operator*() const { return t; } const string_view* operator->() const { return &t; } };
  string_view t = any_text(); std::string r = gul14::join(It{0, t}, It{n, t}, g); if (n == 0) vf_check(r.empty(), "join.nothing"); vf_reach("end"); }
E(join1) { string_view a = any_text(), g = any_text(); unsigned long k = any_index(a); char c = a[k]; string_view v[1] = {a}; REMEMBER(r, k, gul14::join(v, v + 1, g)); vf_check(r.size() == a.size() && r[k] == c, "join.single"); vf_reach("end"); }
E(join2_glue) { string_view a = any_text(), b = any_text(), g = any_text(); unsigned long k = any_index(g); char c = g[k]; unsigned long o = a.size() + k; string_view v[2] = {a, b}; REMEMBER(r, o, gul14::join(v, v + 2, g)); vf_check(r.size() == a.size() + b.size() + g.size(), "join.length"); vf_check(r[o] == c, "join.glue-between"); vf_reach("end"); }
E(join2_second) { string_view a = any_text(), b = any_text(), g = any_text(); unsigned long k = any_index(b); char c = b[k]; unsigned long o = a.size() + g.size() + k; string_view v[2] = {a, b}; REMEMBER(r, o, gul14::join(v, v + 2, g)); vf_check(r[o] == c, "join.second-piece"); vf_reach("end"); }
