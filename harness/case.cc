// ASCII case mapping and the case-insensitive predicates built on it.
#include "text.h"
#include <gul14/case_ascii.h>
#include <gul14/substring_checks.h>
using gul14::string_view;
#define E(name) extern "C" void vfh_##name()
static char lower(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
static char upper(char c) { return (c >= 'a' && c <= 'z') ? (char)(c - 32) : c; }
E(case_char) {
  char c = vf_nd_u8();
  vf_check(gul14::lowercase_ascii(c) == lower(c), "lowercase.char");
  vf_check(gul14::uppercase_ascii(c) == upper(c), "uppercase.char");
  vf_reach("end");
}
// the three cases (before, within, after the range of letters) are analysed separately
#define CASES(first, last) bool below = c < first, above = c > last
#define AGREES(delta, tag) vf_check(r[k] == (below || above ? c : (char)(c + delta)), tag)
#define MAP(which, f, first, last, delta) \
E(which##_text) { string_view s = any_text(); unsigned long k = any_index(s); char c = s[k]; CASES(first, last); REMEMBER(r, k, gul14::f(s)); \
  vf_check(r.size() == s.size(), #which ".length"); AGREES(delta, #which ".character"); vf_reach("end"); } \
E(which##_inplace) { string_view s = any_text(); unsigned long k = any_index(s); char c = s[k]; CASES(first, last); REMEMBER(r, k, std::string(s.data(), s.size())); \
  std::string& q = gul14::f##_inplace(r); vf_check(&q == &r, #which ".returns-argument"); vf_check(r.size() == s.size(), #which ".length"); AGREES(delta, #which ".character"); vf_reach("end"); }
MAP(lower, lowercase_ascii, 'A', 'Z', 32) MAP(upper, uppercase_ascii, 'a', 'z', -32)
