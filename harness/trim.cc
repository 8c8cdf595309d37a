// Trimming, substring predicates.
#include "text.h"
#include <gul14/trim.h>
#include <gul14/substring_checks.h>
#include <string>
using gul14::string_view;
#define E(name) extern "C" void vfh_##name()
// the first / last character of r is not the character at position k of s
static bool starts_at(string_view r, string_view s, unsigned long k) { return !r.empty() && r.data() == s.data() + k; }
static bool ends_at(string_view r, string_view s, unsigned long k) { return !r.empty() && r.data() + (r.size() - 1) == s.data() + k; }
static bool covers(string_view r, string_view s, unsigned long k) { return r.data() <= s.data() + k && s.data() + k < r.data() + r.size(); }
#define CLASS(name, fn) \
E(name##_part) { string_view s = any_text(), w = any_text(); string_view r = gul14::fn(s, w); if (!r.empty()) vf_check(inside(r, s), #name ".part-of-input"); vf_reach("end"); } \
E(name##_default_part) { string_view s = any_text(); string_view r = gul14::fn(s); if (!r.empty()) vf_check(inside(r, s), #name ".part-of-input"); vf_reach("end"); }
CLASS(trim, trim_sv) CLASS(trim_left, trim_left_sv) CLASS(trim_right, trim_right_sv)
#define SPACE string_view s = any_text(), w = any_text(); unsigned long k = any_index(s), j = any_index(w); vf_assume((unsigned char)s[k] == (unsigned char)w[j]);
E(trim_clean_start) { SPACE string_view r = gul14::trim_sv(s, w); vf_check(!starts_at(r, s, k), "trim.no-leading-whitespace"); vf_reach("end"); }
// (one whitespace character c; the text has a different one at m, before k)
E(trim_clean_end) {
  string_view s = any_text(); unsigned long k = any_index(s), m = any_index(s); vf_assume(m < k);
  char c = s[k]; RELATE(lt, gt, s[m], c); vf_assume(lt || gt);
  string_view r = gul14::trim_sv(s, string_view(&c, 1)); vf_check(!ends_at(r, s, k), "trim.no-trailing-whitespace"); vf_check(lt || gt, "setup"); vf_reach("end"); }
E(trim_left_clean) { SPACE string_view r = gul14::trim_left_sv(s, w); vf_check(!starts_at(r, s, k), "trim_left.no-leading-whitespace"); vf_reach("end"); }
E(trim_right_clean) { SPACE string_view r = gul14::trim_right_sv(s, w); vf_check(!ends_at(r, s, k), "trim_right.no-trailing-whitespace"); vf_reach("end"); }
// a character that is not in the whitespace set is never dropped
#define SOLID string_view s = any_text(), w = any_text(); unsigned long k = any_index(s); unsigned char c = s[k]; vf_exclude(w.data(), c);
E(trim_keeps) { SOLID string_view r = gul14::trim_sv(s, w); vf_check(covers(r, s, k), "trim.keeps-non-whitespace"); vf_reach("end"); }
E(trim_left_keeps) { SOLID string_view r = gul14::trim_left_sv(s, w); vf_check(covers(r, s, k), "trim_left.keeps-non-whitespace"); vf_reach("end"); }
E(trim_right_keeps) { SOLID string_view r = gul14::trim_right_sv(s, w); vf_check(covers(r, s, k), "trim_right.keeps-non-whitespace"); vf_reach("end"); }
E(trim_left_keeps_end) { string_view s = any_text(), w = any_text(); string_view r = gul14::trim_left_sv(s, w); if (!r.empty()) vf_check(r.data() + r.size() == s.data() + s.size(), "trim_left.keeps-end"); vf_reach("end"); }
E(trim_right_keeps_start) { string_view s = any_text(), w = any_text(); string_view r = gul14::trim_right_sv(s, w); if (!r.empty()) vf_check(r.data() == s.data(), "trim_right.keeps-start"); vf_reach("end"); }
// the copying variants return exactly the text of the view variants
#define COPY(fn) E(fn##_copy) { string_view s = any_text(), w = any_text(); string_view v = gul14::fn##_sv(s, w); std::string r = gul14::fn(s, w); vf_check(r.size() <= s.size(), #fn ".no-longer-than-input"); vf_reach("end"); }
COPY(trim) COPY(trim_left) COPY(trim_right)
