// contains / starts_with / ends_with / equals and their case-insensitive variants.
#include "text.h"
#include <gul14/case_ascii.h>
#include <gul14/substring_checks.h>
using gul14::string_view;
#define E(name) extern "C" void vfh_##name()
#define NOEXC
// every predicate on arbitrary texts: reads inside both texts only, never throws
E(any) {
  string_view s = any_text(), t = any_text();
  bool a = gul14::contains(s, t), b = gul14::starts_with(s, t), d = gul14::ends_with(s, t);
  if (t.size() > s.size()) vf_check(!a && !b && !d, "longer-text-is-no-part");
  if (t.empty()) vf_check(a && b && d, "empty-text-is-part");
  vf_reach("end");
}
E(any_nocase) {
  string_view s = any_text(), t = any_text();
  bool b = gul14::starts_with_nocase(s, t), d = gul14::ends_with_nocase(s, t), e = gul14::equals_nocase(s, t);
  if (t.size() > s.size()) vf_check(!b && !d && !e, "longer-text-is-no-part");
  if (t.empty()) vf_check(b && d, "empty-text-is-part");
  if (t.size() != s.size()) vf_check(!e, "equal-needs-same-length");
  vf_reach("end");
}
E(contains_nocase_any) {
  string_view s = any_text(), t = any_text(); bool a = gul14::contains_nocase(s, t);
  if (t.size() > s.size()) vf_check(!a, "longer-text-is-no-part");
  if (t.empty()) vf_check(a, "empty-text-is-part");
  vf_reach("end");
}
E(char_variants) {
  string_view s = any_text(); char c = vf_nd_u8();
  bool b = gul14::starts_with(s, c), d = gul14::ends_with(s, c), bn = gul14::starts_with_nocase(s, c), dn = gul14::ends_with_nocase(s, c);
  if (s.empty()) vf_check(!b && !d && !bn && !dn, "empty-text-has-no-ends");
  vf_reach("end");
}
E(starts_char) { string_view s = any_text(); vf_assume(!s.empty()); vf_track(s.data(), 1); char c = vf_nd_u8(); RELATE(lt, gt, s[0], c); vf_check(gul14::starts_with(s, c) == !(lt || gt), "starts_with(char)"); vf_reach("end"); }
E(ends_char) { string_view s = any_text(); vf_assume(!s.empty()); unsigned long k = s.size() - 1; vf_track(s.data() + k, 1); char c = vf_nd_u8(); RELATE(lt, gt, s[k], c); vf_check(gul14::ends_with(s, c) == !(lt || gt), "ends_with(char)"); vf_reach("end"); }
E(contains_char) { string_view s = any_text(); unsigned long k = any_index(s); char c = s[k]; vf_check(gul14::contains(s, c), "contains(char).finds"); vf_reach("end"); }
E(contains_nocase_char) { string_view s = any_text(); unsigned long k = any_index(s); char c = s[k]; bool lo = c < 'A', hi = c > 'Z'; vf_check(gul14::contains_nocase(s, c), "contains_nocase(char).finds"); vf_check(lo || !lo || hi, "setup");  vf_reach("end"); }
E(contains_char_absent) { string_view s = any_text(); char c = vf_nd_u8(); vf_exclude(s.data(), c); vf_check(!gul14::contains(s, c), "contains(char).only-if-present"); vf_reach("end"); }
// a difference at one arbitrary position decides
static char lower(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
#define PAIR string_view s = any_text(), t = any_text(); unsigned long j = any_index(t)
E(starts_with_diff) { PAIR; vf_assume(j < s.size()); vf_track(s.data() + j, 1); RELATE(lt, gt, s[j], t[j]); vf_assume(lt || gt);
  vf_check(!gul14::starts_with(s, t), "starts_with.every-character-matters"); vf_check(lt || gt, "setup"); vf_reach("end"); }
E(ends_with_diff) { PAIR; vf_assume(t.size() <= s.size()); unsigned long o = s.size() - t.size() + j; vf_track(s.data() + o, 1); RELATE(lt, gt, s[o], t[j]); vf_assume(lt || gt);
  vf_check(!gul14::ends_with(s, t), "ends_with.every-character-matters"); vf_check(lt || gt, "setup"); vf_reach("end"); }
// two characters that differ even when the case of ASCII letters is ignored
#define DIFFER(a, b) char a = vf_nd_u8(), b = vf_nd_u8(); vf_assume(a < 'A' || a > 'Z'); vf_assume(b < 'A' || b > 'Z'); bool lt = a < b, gt = a > b; vf_assume(lt || gt)
#define LIVE vf_check(lt || gt, "setup")
E(starts_nocase_diff) { PAIR; vf_assume(j < s.size()); vf_track(s.data() + j, 1); DIFFER(a, b); vf_assume(s[j] == a && t[j] == b);
  vf_check(!gul14::starts_with_nocase(s, t), "starts_with_nocase.every-character-matters"); LIVE; vf_reach("end"); }
E(ends_nocase_diff) { PAIR; vf_assume(t.size() <= s.size()); unsigned long o = s.size() - t.size() + j; vf_track(s.data() + o, 1); DIFFER(a, b); vf_assume(s[o] == a && t[j] == b);
  vf_check(!gul14::ends_with_nocase(s, t), "ends_with_nocase.every-character-matters"); LIVE; vf_reach("end"); }
E(equals_nocase_diff) { PAIR; vf_assume(t.size() == s.size()); vf_track(s.data() + j, 1); DIFFER(a, b); vf_assume(s[j] == a && t[j] == b);
  vf_check(!gul14::equals_nocase(s, t), "equals_nocase.every-character-matters"); LIVE; vf_reach("end"); }
// exact result on texts of one and two characters
#define ONE(a, A) char a = vf_nd_u8(); bool a##l = a < 'A', a##h = a > 'Z'; int A = a##l || a##h ? a : a + 32
#define KEEP(a) vf_check((a##l || !a##l) && (a##h || !a##h), "setup")
#define SAME(A, B, lt, gt) bool lt = A < B, gt = A > B
E(nocase_one) { ONE(a, A); ONE(b, B); SAME(A, B, lt, gt); string_view s(&a, 1), t(&b, 1); bool e = !lt && !gt;
  vf_check(gul14::equals_nocase(s, t) == e, "equals_nocase.one-character"); vf_check(gul14::starts_with_nocase(s, t) == e, "starts_with_nocase.one-character");
  vf_check(gul14::ends_with_nocase(s, t) == e, "ends_with_nocase.one-character"); vf_check(gul14::contains_nocase(s, t) == e, "contains_nocase.one-character");
  vf_check(gul14::starts_with_nocase(s, b) == e, "starts_with_nocase(char).one-character"); vf_check(gul14::ends_with_nocase(s, b) == e, "ends_with_nocase(char).one-character"); vf_check(gul14::contains_nocase(s, b) == e, "contains_nocase(char).one-character");
  KEEP(a); KEEP(b); vf_check(lt || gt || e, "setup"); vf_reach("end"); }
E(exact_one) { char a = vf_nd_u8(), b = vf_nd_u8(); RELATE(lt, gt, a, b); string_view s(&a, 1), t(&b, 1); bool e = !lt && !gt;
  vf_check(gul14::contains(s, t) == e, "contains.one-character"); vf_check(gul14::starts_with(s, t) == e, "starts_with.one-character"); vf_check(gul14::ends_with(s, t) == e, "ends_with.one-character"); vf_check(gul14::contains(s, b) == e, "contains(char).one-character"); vf_check(lt || gt || e, "setup"); vf_reach("end"); }
// a part of a text is recognised as such
#define PART string_view s = any_text(); unsigned long k = any_index(s), n = vf_pick(4); vf_assume(n > 0 && n <= s.size() - k); string_view t(s.data() + k, n)
E(contains_part) { PART; vf_check(gul14::contains(s, t), "contains.part"); vf_reach("end"); }
E(starts_part) { PART; vf_assume(k == 0); vf_check(gul14::starts_with(s, t), "starts_with.part");  vf_reach("end"); }
E(starts_nocase_part) { PART; vf_assume(k == 0); vf_check(gul14::starts_with_nocase(s, t), "starts_with_nocase.part");  vf_reach("end"); }
E(ends_part) { PART; vf_assume(k + n == s.size()); vf_check(gul14::ends_with(s, t), "ends_with.part");  vf_reach("end"); }
E(ends_nocase_part) { PART; vf_assume(k + n == s.size()); vf_check(gul14::ends_with_nocase(s, t), "ends_with_nocase.part");  vf_reach("end"); }
E(equals_nocase_self) { string_view s = any_text(); vf_assume(!s.empty()); any_index(s); vf_check(gul14::equals_nocase(s, s), "equals_nocase.reflexive"); vf_reach("end"); }
