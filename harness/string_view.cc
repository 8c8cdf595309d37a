#include "text.h"
#include <string>
using gul14::string_view;
#define E(name) extern "C" void vfh_sv_##name()
static constexpr unsigned long npos = string_view::npos;

E(substr) {
  string_view s = any_text(); unsigned long pos = vf_nd_u64(), n = vf_nd_u64();
  bool ok = false;
  try {
    string_view r = s.substr(pos, n); ok = true;
    vf_check(inside(r, s), "substr.inside");
    vf_check(r.data() == s.data() + pos, "substr.start");
    vf_check(r.size() <= n, "substr.length<=n");
    vf_check(r.size() == n || r.data() + r.size() == s.data() + s.size(), "substr.truncated-only-at-end");
  } catch (...) {}
  vf_check(ok == (pos <= s.size()), "substr.throws-iff-out-of-range");
  vf_reach("end");
}
E(at) {
  string_view s = any_text(); unsigned long pos = vf_nd_u64(); bool ok = false;
  try { const char& c = s.at(pos); (void)c; ok = true; vf_check(&c == s.data() + pos, "at.element"); char d = c; (void)d; } catch (...) {}
  vf_check(ok == (pos < s.size()), "at.throws-iff-out-of-range");
  vf_reach("end");
}
E(remove) {
  string_view s = any_text(), t = s, u = s; unsigned long n = vf_nd_u64();
  t.remove_prefix(n); u.remove_suffix(n);
  vf_check(inside(t, s) && inside(u, s), "remove.inside");
  vf_check(t.data() + t.size() == s.data() + s.size(), "remove_prefix.keeps-end");
  vf_check(u.data() == s.data(), "remove_suffix.keeps-start");
  if (n <= s.size()) { vf_check(t.size() + n == s.size(), "remove_prefix.count"); vf_check(u.size() + n == s.size(), "remove_suffix.count"); }
  vf_reach("end");
}
E(copy) {
  string_view s = any_text(); unsigned long n = vf_nd_u64(), pos = vf_nd_u64(); bool ok = false;
  unsigned long cap = vf_pick(4); vf_assume(cap <= n);
  vf_assume(pos > s.size() || cap == n || cap == s.size() - pos); // room for exactly what may be copied
  char* buf = (char*)vf_alloc(cap);
  try { unsigned long r = s.copy(buf, n, pos); ok = true; vf_check(r <= n && r + pos <= s.size(), "copy.count"); vf_check(r == n || r + pos == s.size(), "copy.complete"); } catch (...) {}
  vf_check(ok == (pos <= s.size()), "copy.throws-iff-out-of-range");
  vf_reach("end");
}
E(copy_content) {
  string_view s = any_text(); unsigned long k = any_index(s); char c = s[k];
  char* buf = (char*)vf_alloc(s.size()); vf_track(buf + k, 1);
  s.copy(buf, s.size());
  vf_check(buf[k] == c, "copy.content");
  vf_reach("end");
}
// --- which position is returned: k is an arbitrary position, its character an arbitrary one ---
#define ONE_CHAR string_view s = any_text(); unsigned long k = any_index(s), pos = vf_nd_u64(); char c = vf_nd_u8();
#define MATCH vf_assume((unsigned char)s[k] == (unsigned char)c);
#define NOMATCH RELATE(lt, gt, s[k], c); vf_assume(lt || gt);
#define KEEP vf_check(lt || gt, "setup")
E(find_char_first) { ONE_CHAR MATCH vf_assume(k >= pos); unsigned long r = s.find(c, pos); vf_check(r <= k, "find.first"); vf_reach("end"); }
E(find_char_only) { ONE_CHAR NOMATCH unsigned long r = s.find(c, pos); vf_check(r != k, "find.only-matches"); KEEP; vf_reach("end"); }
E(find_char_range) { ONE_CHAR unsigned long r = s.find(c, pos); vf_check(r == npos || (r < s.size() && r >= pos), "find.range"); vf_reach("end"); }
E(rfind_char_last) { ONE_CHAR MATCH vf_assume(k <= pos); unsigned long r = s.rfind(c, pos); vf_check(r != npos, "rfind.found"); vf_check(r >= k, "rfind.last"); vf_reach("end"); }
E(rfind_char_only) { ONE_CHAR NOMATCH unsigned long r = s.rfind(c, pos); vf_check(r != k, "rfind.only-matches"); KEEP; vf_reach("end"); }
E(rfind_char_range) { ONE_CHAR unsigned long r = s.rfind(c, pos); vf_check(r == npos || (r < s.size() && r <= pos), "rfind.range"); vf_reach("end"); }
E(ffo_char_first) { ONE_CHAR MATCH vf_assume(k >= pos); unsigned long r = s.find_first_of(c, pos); vf_check(r <= k, "find_first_of.first"); vf_reach("end"); }
E(ffo_char_only) { ONE_CHAR NOMATCH unsigned long r = s.find_first_of(c, pos); vf_check(r != k, "find_first_of.only-members"); KEEP; vf_reach("end"); }
E(flo_char_last) { ONE_CHAR MATCH vf_assume(k <= pos); unsigned long r = s.find_last_of(c, pos); vf_check(r != npos, "find_last_of.found"); vf_check(r >= k, "find_last_of.last"); vf_reach("end"); }
E(flo_char_only) { ONE_CHAR NOMATCH unsigned long r = s.find_last_of(c, pos); vf_check(r != k, "find_last_of.only-members"); KEEP; vf_reach("end"); }
E(ffno_char_first) { ONE_CHAR NOMATCH vf_assume(k >= pos); unsigned long r = s.find_first_not_of(c, pos); vf_check(r <= k, "find_first_not_of.first"); KEEP; vf_reach("end"); }
E(ffno_char_only) { ONE_CHAR MATCH unsigned long r = s.find_first_not_of(c, pos); vf_check(r != k, "find_first_not_of.only-outside"); vf_reach("end"); }
E(flno_char_last) { ONE_CHAR NOMATCH vf_assume(k <= pos); unsigned long r = s.find_last_not_of(c, pos); vf_check(r != npos, "find_last_not_of.found"); vf_check(r >= k, "find_last_not_of.last"); KEEP; vf_reach("end"); }
E(flno_char_only) { ONE_CHAR MATCH unsigned long r = s.find_last_not_of(c, pos); vf_check(r != k, "find_last_not_of.only-outside"); vf_reach("end"); }
E(find_sv) {
  string_view s = any_text(), t = any_text(); unsigned long pos = vf_nd_u64();
  unsigned long r = s.find(t, pos);
  vf_check(r == npos || (r >= pos && t.size() <= s.size() && r <= s.size() - t.size()), "find.range");
  vf_reach("end");
}
E(rfind_sv) {
  string_view s = any_text(), t = any_text(); unsigned long pos = vf_nd_u64();
  unsigned long r = s.rfind(t, pos);
  vf_check(r == npos || (r <= pos && t.size() <= s.size() && r <= s.size() - t.size()), "rfind.range");
  vf_reach("end");
}
// character-set searches: the set t contains the character of position k at an arbitrary place j
#define MEMBER string_view s = any_text(), t = any_text(); unsigned long k = any_index(s), j = any_index(t), pos = vf_nd_u64(); vf_assume((unsigned char)s[k] == (unsigned char)t[j]);
E(ffo_set_first) { MEMBER vf_assume(k >= pos); unsigned long r = s.find_first_of(t, pos); vf_check(r <= k, "find_first_of.first"); vf_reach("end"); }
E(flo_set_last) { MEMBER vf_assume(k <= pos); unsigned long r = s.find_last_of(t, pos); vf_check(r != npos, "find_last_of.found"); vf_check(r >= k, "find_last_of.last"); vf_reach("end"); }
E(ffno_set_only) { MEMBER unsigned long r = s.find_first_not_of(t, pos); vf_check(r != k, "find_first_not_of.only-outside-set"); vf_reach("end"); }
E(flno_set_only) { MEMBER unsigned long r = s.find_last_not_of(t, pos); vf_check(r != k, "find_last_not_of.only-outside-set"); vf_reach("end"); }
// arbitrary set, including the empty set and empty text
#define SET_RANGE(f) E(f##_any) { string_view s = any_text(), t = any_text(); unsigned long pos = vf_nd_u64(); unsigned long r = s.f(t, pos); vf_check(r == npos || r < s.size(), #f ".range"); vf_reach("end"); }
SET_RANGE(find_first_of) SET_RANGE(find_last_of) SET_RANGE(find_first_not_of) SET_RANGE(find_last_not_of)
E(compare) {
  string_view s = any_text(), t = any_text();
  int r = s.compare(t); (void)r;
  bool eq = s == t;
  if (eq) vf_check(s.size() == t.size(), "equal.same-length");
  vf_reach("end");
}
E(compare_diff) { // texts that differ somewhere are not equal
  string_view s = any_text(), t = any_text(); vf_assume(s.size() == t.size());
  unsigned long k = any_index(s); vf_track(t.data() + k, 1);
  RELATE(lt, gt, s[k], t[k]); vf_assume(lt || gt);
  vf_check(!(s == t) && s != t, "equal.detects-difference");
  vf_check(s.compare(t) != 0, "compare.detects-difference"); vf_check(lt || gt, "x");
  vf_reach("end");
}
E(compare_self) {
  string_view s = any_text();
  string_view e; vf_check(e == e && e.compare(e) == 0, "compare.empty");
  vf_check(s.compare(s.substr(0, 0)) >= 0, "compare.prefix");
  vf_reach("end");
}
E(compare_pos) {
  string_view s = any_text(), t = any_text(); unsigned long p1 = vf_nd_u64(), n1 = vf_nd_u64(), p2 = vf_nd_u64(), n2 = vf_nd_u64();
  bool a = false, b = false;
  try { s.compare(p1, n1, t); a = true; } catch (...) {}
  vf_check(a == (p1 <= s.size()), "compare(pos).throws-iff-out-of-range");
  try { s.compare(p1, n1, t, p2, n2); b = true; } catch (...) {}
  vf_check(b == (p1 <= s.size() && p2 <= t.size()), "compare(pos,pos).throws-iff-out-of-range");
  vf_reach("end");
}
E(cstr) { // NUL-terminated sources
  unsigned long n = vf_pick(4); const char* z = (const char*)vf_alloc_cstr(n);
  string_view s(z);
  vf_check(s.data() == z && s.size() <= n, "from-c-string.inside");
  vf_reach("end");
}
E(to_string) {
  string_view s = any_text();
  unsigned long k = any_index(s); char c = s[k];
  std::string r(s);
  vf_check(r.size() == s.size(), "to-string.length");
  vf_reach("end");
}
E(append) {
  string_view s = any_text(), t = any_text();
  std::string a(s); a += t;
  vf_check(a.size() == s.size() + t.size(), "append.length");
  std::string b = std::string(s) + t;
  vf_check(b.size() == s.size() + t.size(), "plus.length");
  std::string d = s + std::string(t);
  vf_check(d.size() == s.size() + t.size(), "plus.length");
  vf_reach("end");
}
E(null_view) {
  string_view s; unsigned long pos = vf_nd_u64(); string_view t = any_text();
  string_view u = s.substr(0, pos); vf_check(u.empty(), "null.substr");
  s.remove_prefix(pos); s.remove_suffix(pos);
  unsigned long a = s.find(t, pos), b = s.rfind(t, pos), c = s.find_first_of(t, pos), d = s.find_last_of(t, pos), e = s.find_first_not_of(t, pos), f = s.find_last_not_of(t, pos);
  vf_check(c == npos && d == npos && e == npos && f == npos, "null.find");
  vf_check((a == npos || t.empty()) && (b == npos || t.empty()), "null.find");
  (void)(s == t); (void)s.compare(t);
  vf_reach("end");
}
E(iterate) {
  string_view s = any_text(); unsigned long m = 0;
  for (char c : s) { (void)c; ++m; }
  vf_check(m == s.size(), "iterate.count");
  m = 0;
  for (auto it = s.rbegin(); it != s.rend(); ++it) { char c = *it; (void)c; ++m; }
  vf_check(m == s.size(), "iterate.count");
  if (!s.empty()) { char a = s.front(), b = s.back(); (void)a; (void)b; vf_check(&s.front() == s.data() && &s.back() == s.data() + s.size() - 1, "front-back"); }
  vf_reach("end");
}
E(swap) {
  string_view s = any_text(), t = any_text(), a = s, b = t; a.swap(b);
  vf_check(a.data() == t.data() && a.size() == t.size() && b.data() == s.data() && b.size() == s.size(), "swap");
  vf_reach("end");
}
E(wide) { // other character types share the implementation
  unsigned long n = vf_pick(4); vf_assume(n < (1ul << 60)); const char16_t* p = (const char16_t*)vf_alloc(2 * n);
  gul14::u16string_view s(p, n); unsigned long pos = vf_nd_u64(), c = vf_nd_u64();
  try { auto r = s.substr(pos, c); vf_check(r.data() >= p && r.data() + r.size() <= p + n, "substr.inside"); (void)r.find(u'x', pos); (void)r.rfind(u'x', pos); } catch (...) {}
  vf_reach("end");
}
// a part of the text is found, at or before its own position (from the end: at or after)
E(find_self) { string_view s = any_text(); unsigned long k = any_index(s), n = vf_pick(4); vf_assume(n <= s.size() - k); vf_assume(n > 0); unsigned long r = s.find(string_view(s.data() + k, n)); vf_check(r <= k, "find.finds-part"); vf_reach("end"); }
E(rfind_self) { string_view s = any_text(); unsigned long k = any_index(s), n = vf_pick(4); vf_assume(n <= s.size() - k); vf_assume(n > 0); unsigned long r = s.rfind(string_view(s.data() + k, n)); vf_check(r >= k && r < s.size(), "rfind.finds-part"); vf_reach("end"); }
// a reported position is a real match: a difference in either character rules the position out
#define MISMATCH string_view s = any_text(); char tt[2] = {(char)vf_nd_u8(), (char)vf_nd_u8()}; string_view t(tt, 2); unsigned long p = vf_pick(4); vf_assume(s.size() >= 2); vf_assume(p <= s.size() - 2)
#define DIFF(j) vf_track(s.data() + p + j, 1); RELATE(lt, gt, s[p + j], tt[j]); vf_assume(lt || gt)
E(find_only_1) { MISMATCH; DIFF(0); unsigned long r = s.find(t); vf_check(r != p, "find.only-matches"); vf_check(lt || gt, "setup"); vf_reach("end"); }
E(find_only_2) { MISMATCH; DIFF(1); unsigned long r = s.find(t); vf_check(r != p, "find.only-matches"); vf_check(lt || gt, "setup"); vf_reach("end"); }
E(rfind_only_1) { MISMATCH; DIFF(0); unsigned long r = s.rfind(t); vf_check(r != p, "rfind.only-matches"); vf_check(lt || gt, "setup"); vf_reach("end"); }
