// Arbitrary text for the analysis: a block of unknown length and contents.
#pragma once
#include "vf.h"
#include <gul14/string_view.h>
inline gul14::string_view any_text() {
  unsigned long n = vf_pick(4);
  return gul14::string_view((const char*)vf_alloc(n), n);
}
// one arbitrary position of the text; its character can be constrained and is remembered
inline unsigned long any_index(gul14::string_view s) {
  unsigned long k = vf_pick(4); vf_assume(k < s.size());
  vf_track(s.data() + k, 1);
  return k;
}
// r is a part of s
inline bool inside(gul14::string_view r, gul14::string_view s) {
  if (r.data() < s.data()) return false;
  unsigned long off = (unsigned long)(r.data() - s.data());
  return off <= s.size() && r.size() <= s.size() - off;
}
// how two characters relate; the analysis treats the three cases separately
#define RELATE(lt, gt, a, b) bool lt = (unsigned char)(a) < (unsigned char)(b), gt = (unsigned char)(a) > (unsigned char)(b)
#include <string>
#include <new>
// A string produced by library code, with the character at one arbitrary position k remembered
// in every block the library allocates for it (the analysis model of std::string has no short-string buffer).
#define REMEMBER(var, k, expr) vf_autotrack(k); std::string var(expr)
