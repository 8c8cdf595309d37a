// Numeric core of the abstract interpreter: linear expressions over mathematical
// integers and convex polyhedra in constraint form.  Entailment is decided with an
// exact (128-bit integer, overflow-checked) simplex; an arithmetic overflow only ever
// makes an answer weaker ("not entailed"), never wrong.
#pragma once
#include <algorithm>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <utility>
#include <vector>

using Z = __int128;
struct NumOverflow {};

inline Z zmul(Z a, Z b) { Z r; if (__builtin_mul_overflow(a, b, &r)) throw NumOverflow(); return r; }
inline Z zadd(Z a, Z b) { Z r; if (__builtin_add_overflow(a, b, &r)) throw NumOverflow(); return r; }
inline Z zabs(Z a) { return a < 0 ? -a : a; }
inline Z zgcd(Z a, Z b) {
  a = zabs(a); b = zabs(b);
  while (b) {
    if (a <= (Z)UINT64_MAX && b <= (Z)UINT64_MAX) {
      uint64_t x = (uint64_t)a, y = (uint64_t)b;
      while (y) { uint64_t t = x % y; x = y; y = t; }
      return (Z)x;
    }
    Z t = a % b; a = b; b = t;
  }
  return a;
}
inline Z zfloordiv(Z a, Z b) { Z q = a / b; if ((a % b != 0) && ((a < 0) != (b < 0))) --q; return q; }
inline Z zceildiv(Z a, Z b) { return -zfloordiv(-a, b); }
inline std::string zstr(Z v) {
  if (v == 0) return "0";
  bool neg = v < 0; std::string s;
  unsigned __int128 u = neg ? -(unsigned __int128)v : (unsigned __int128)v;
  while (u) { s += char('0' + (int)(u % 10)); u /= 10; }
  if (neg) s += '-';
  std::reverse(s.begin(), s.end());
  return s;
}

struct Lin {
  Z c = 0;
  std::vector<std::pair<int, Z>> t; // sorted by variable id, non-zero coefficients
  Lin() {}
  Lin(Z k) : c(k) {}
  static Lin var(int v) { Lin l; l.t.push_back({v, 1}); return l; }
  bool isConst() const { return t.empty(); }
  Z coef(int v) const {
    auto it = std::lower_bound(t.begin(), t.end(), v, [](auto& p, int x) { return p.first < x; });
    return it != t.end() && it->first == v ? it->second : 0;
  }
  bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
  bool operator<(const Lin& o) const { if (t != o.t) return t < o.t; return c < o.c; }
  static Lin comb(const Lin& a, Z ka, const Lin& b, Z kb) { // ka*a + kb*b
    Lin r; r.c = zadd(zmul(a.c, ka), zmul(b.c, kb));
    size_t i = 0, j = 0; r.t.reserve(a.t.size() + b.t.size());
    while (i < a.t.size() || j < b.t.size()) {
      if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) {
        Z k = zmul(a.t[i].second, ka); if (k) r.t.push_back({a.t[i].first, k}); ++i;
      } else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
        Z k = zmul(b.t[j].second, kb); if (k) r.t.push_back({b.t[j].first, k}); ++j;
      } else {
        Z k = zadd(zmul(a.t[i].second, ka), zmul(b.t[j].second, kb));
        if (k) r.t.push_back({a.t[i].first, k});
        ++i; ++j;
      }
    }
    return r;
  }
  Lin operator+(const Lin& o) const { return comb(*this, 1, o, 1); }
  Lin operator-(const Lin& o) const { return comb(*this, 1, o, -1); }
  Lin operator-() const { return comb(*this, -1, Lin(), 0); }
  Lin operator*(Z k) const { if (k == 0) return Lin(0); return comb(*this, k, Lin(), 0); }
  // replace v by e
  Lin subst(int v, const Lin& e) const {
    Z k = coef(v); if (!k) return *this;
    Lin r = *this;
    r.t.erase(std::lower_bound(r.t.begin(), r.t.end(), v, [](auto& p, int x) { return p.first < x; }));
    return comb(r, 1, e, k);
  }
  Z gcdCoefs() const { Z g = 0; for (auto& p : t) g = zgcd(g, p.second); return g; }
  std::string str() const {
    std::string s;
    for (auto& p : t) {
      if (!s.empty()) s += p.second < 0 ? " - " : " + "; else if (p.second < 0) s += "-";
      Z a = zabs(p.second); if (a != 1) s += zstr(a) + "*";
      s += "v" + std::to_string(p.first);
    }
    if (s.empty()) return zstr(c);
    if (c) s += (c < 0 ? " - " : " + ") + zstr(zabs(c));
    return s;
  }
};

extern long g_lp_count, g_pivot_count;

// Simplex tableau over constraints e_i >= 0 (free variables).
// Row i:  den_i * basic_i = const_i + sum_j num_ij * nonbasic_j ,  den_i > 0.
// Column/basic identifiers: >=0 : slack index; <0 : free variable -(v+1).
struct Tableau {
  int m = 0, n = 0;                 // rows, columns
  std::vector<std::vector<Z>> a;    // m x (n+2): [const, den, n nums...]
  std::vector<long> bas, non;       // ids
  bool infeasible = false, broken = false;
  std::map<int, int> dummy;

  static void normRow(std::vector<Z>& r, bool force = false) {
    if (!force) {
      const Z lim = (Z)1 << 40; bool big = false;
      for (Z x : r) if (x > lim || x < -lim) { big = true; break; }
      if (!big) return;
    }
    Z g = 0; for (Z x : r) { if (x) { g = zgcd(g, x); if (g == 1) return; } }
    if (g > 1) for (Z& x : r) x /= g;
  }
  void pivot(int r, int c) {
    ++g_pivot_count;
    // den*B = k + sum n_j N_j ;  N_c = (den*B - k - sum_{j!=c} n_j N_j)/n_c
    std::vector<Z>& R = a[r];
    Z p = R[2 + c], den = R[1];
    int sgn = p > 0 ? 1 : -1;
    Z ap = zabs(p);
    // new row for N_c: ap * N_c = sgn*( -k + den*B - sum n_j N_j )
    std::vector<Z> NR(R.size());
    NR[0] = -R[0] * sgn;
    NR[1] = ap;
    for (int j = 0; j < n; ++j) NR[2 + j] = -R[2 + j] * sgn;
    NR[2 + c] = den * sgn;
    normRow(NR, true);
    R.swap(NR);
    std::vector<Z>& P = a[r];
    for (int i = 0; i < (int)a.size(); ++i) {
      if (i == r) continue;
      Z q = a[i][2 + c]; if (!q) continue;
      // den_i*B_i = k_i + q*N_c + ... ; multiply by P[1]/g
      Z g = zgcd(q, P[1]); Z mul = P[1] / g, f = q / g;
      std::vector<Z>& I = a[i];
      I[2 + c] = 0;
      if (mul != 1) { for (size_t x = 0; x < I.size(); ++x) if (I[x]) I[x] = zmul(I[x], mul); }
      I[0] = zadd(I[0], zmul(f, P[0]));
      for (int j = 0; j < n; ++j) if (P[2 + j]) I[2 + j] = zadd(I[2 + j], zmul(f, P[2 + j]));
      normRow(I);
    }
    std::swap(bas[r], non[c]);
  }
  // Build from constraints (each >= 0); eqs are given twice by the caller.
  Tableau(const std::vector<Lin>& cons, const std::vector<int>& vars) {
    try {
      m = cons.size(); n = vars.size();
      std::map<int, int> ix; for (int j = 0; j < n; ++j) ix[vars[j]] = j;
      a.assign(m, std::vector<Z>(n + 2, 0));
      bas.resize(m); non.resize(n);
      for (int i = 0; i < m; ++i) {
        a[i][0] = cons[i].c; a[i][1] = 1; bas[i] = i;
        for (auto& p : cons[i].t) a[i][2 + ix[p.first]] = p.second;
      }
      for (int j = 0; j < n; ++j) non[j] = -(long)(vars[j] + 1);
      // make free variables basic
      for (int j = 0; j < n; ++j) {
        int best = -1; 
        for (int i = 0; i < m; ++i)
          if (bas[i] >= 0 && a[i][2 + j] != 0) {
            if (best < 0 || (zabs(a[i][2 + j]) == 1 && zabs(a[best][2 + j]) != 1)) best = i;
          }
        if (best >= 0) pivot(best, j);
      }
      // dual simplex with zero objective
      for (long it = 0;; ++it) {
        if (it > 5000) { broken = true; return; }
        int r = -1;
        for (int i = 0; i < m; ++i)
          if (bas[i] >= 0 && a[i][0] < 0 && (r < 0 || bas[i] < bas[r])) r = i;
        if (r < 0) break;
        int c = -1;
        for (int j = 0; j < n; ++j)
          if (non[j] >= 0 && a[r][2 + j] > 0 && (c < 0 || non[j] < non[c])) c = j;
        if (c < 0) { infeasible = true; return; }
        pivot(r, c);
      }
    } catch (NumOverflow&) { broken = true; }
  }
  // minimum of e. returns 0: bounded, value num/den ; 1: unbounded ; 2: unknown
  int minimize(const Lin& e, Z& num, Z& den) {
    ++g_lp_count;
    if (broken) return 2;
    try {
      // objective row appended as extra row with basic id LONG_MIN (free)
      std::vector<Z> obj(n + 2, 0);
      obj[0] = e.c; obj[1] = 1;
      // express in nonbasics
      for (auto& p : e.t) {
        long id = -(long)(p.first + 1);
        bool found = false;
        for (int j = 0; j < n; ++j) if (non[j] == id) { obj[2 + j] = zadd(obj[2 + j], zmul(p.second, obj[1])); found = true; break; }
        if (found) continue;
        for (int i = 0; i < m; ++i) if (bas[i] == id) {
          found = true;
          Z d = a[i][1]; Z g = zgcd(d, obj[1]); Z mo = d / g, mi = zmul(obj[1] / g, p.second);
          for (auto& x : obj) if (x) x = zmul(x, mo);
          obj[0] = zadd(obj[0], zmul(a[i][0], mi));
          for (int j = 0; j < n; ++j) if (a[i][2 + j]) obj[2 + j] = zadd(obj[2 + j], zmul(a[i][2 + j], mi));
          normRow(obj, true);
          break;
        }
        if (!found) return 1; // variable unconstrained
      }
      // free nonbasic with non-zero coefficient: unbounded
      for (int j = 0; j < n; ++j) if (non[j] < 0 && obj[2 + j] != 0) return 1;
      a.push_back(obj); bas.push_back(INT64_MIN);
      struct Pop { Tableau* t; ~Pop() { t->a.resize(t->m); t->bas.resize(t->m); } } pop{this};
      for (long it = 0;; ++it) {
        if (it > 5000) return 2;
        auto& O = a[m];
        int c = -1;
        for (int j = 0; j < n; ++j)
          if (non[j] >= 0 && O[2 + j] < 0 && (c < 0 || non[j] < non[c])) c = j;
        if (c < 0) { num = O[0]; den = O[1]; return 0; }
        int r = -1;
        for (int i = 0; i < m; ++i) {
          if (bas[i] < 0 || a[i][2 + c] >= 0) continue;
          if (r < 0) { r = i; continue; }
          // ratio a[i][0] / -a[i][c]  vs a[r][0] / -a[r][c]
          Z lhs = zmul(a[i][0], -a[r][2 + c]), rhs = zmul(a[r][0], -a[i][2 + c]);
          if (lhs < rhs || (lhs == rhs && bas[i] < bas[r])) r = i;
        }
        if (r < 0) return 1;
        pivot(r, c);
      }
    } catch (NumOverflow&) { broken = true; a.resize(m); bas.resize(m); return 2; }
  }
};

struct Poly {
  bool bot = false;
  std::map<int, Lin> sub;   // solved variables (right sides mention no solved variable)
  std::vector<Lin> ineq;    // e >= 0
  std::vector<Lin> eqs;     // e == 0, no unit coefficient
  mutable std::shared_ptr<Tableau> tab;
  mutable int feas = -1;    // cached feasibility

  void dirty() { tab.reset(); feas = -1; }
  Lin norm(const Lin& e) const {
    bool need = false;
    for (auto& p : e.t) if (sub.count(p.first)) { need = true; break; }
    if (!need) return e;
    Lin r(e.c);
    for (auto& p : e.t) {
      auto it = sub.find(p.first);
      r = it == sub.end() ? Lin::comb(r, 1, Lin::var(p.first), p.second) : Lin::comb(r, 1, it->second, p.second);
    }
    return r;
  }
  static Lin tighten(Lin e) { // e >= 0 over integers
    Z g = e.gcdCoefs();
    if (g > 1) { for (auto& p : e.t) p.second /= g; e.c = zfloordiv(e.c, g); }
    return e;
  }
  std::vector<int> usedVars() const {
    std::set<int> s;
    for (auto& e : ineq) for (auto& p : e.t) s.insert(p.first);
    for (auto& e : eqs) for (auto& p : e.t) s.insert(p.first);
    return std::vector<int>(s.begin(), s.end());
  }
  Tableau& tableau() const {
    if (!tab) {
      std::vector<Lin> cs = ineq;
      for (auto& e : eqs) { cs.push_back(e); cs.push_back(-e); }
      tab = std::make_shared<Tableau>(cs, usedVars());
    } else if (tab.use_count() > 1) tab = std::make_shared<Tableau>(*tab);
    return *tab;
  }
  bool isBot() const {
    if (bot) return true;
    if (feas < 0) {
      if (ineq.empty() && eqs.empty()) feas = 1;
      else { Tableau& t = tableau(); feas = (!t.broken && t.infeasible) ? 0 : 1; }
    }
    return feas == 0;
  }
  // cheap interval of a variable from single-variable constraints
  bool ivMin(const Lin& e, Z& r) const { // lower bound of normalized e via box; false if none
    r = e.c;
    try {
      for (auto& p : e.t) {
        bool ok = false; Z best = 0;
        for (auto& q : ineq) if (q.t.size() == 1 && q.t[0].first == p.first) {
          Z k = q.t[0].second; // k*v + c >= 0, |k|==1 after tighten
          if (k == 1 && p.second > 0) { Z b = zmul(-q.c, p.second); if (!ok || b > best) best = b; ok = true; }
          if (k == -1 && p.second < 0) { Z b = zmul(q.c, p.second); if (!ok || b > best) best = b; ok = true; }
        }
        if (!ok) return false;
        r = zadd(r, best);
      }
    } catch (NumOverflow&) { return false; }
    return true;
  }
  // integer lower bound of e; false if unbounded/unknown
  bool minOf(const Lin& e0, Z& r) const {
    Lin e; try { e = norm(e0); } catch (NumOverflow&) { return false; }
    if (e.isConst()) { r = e.c; return true; }
    if (isBot()) { r = (Z)1 << 120; return true; }
    Z num, den;
    int k = tableau().minimize(e, num, den);
    if (k != 0) return false;
    r = zceildiv(num, den);
    return true;
  }
  bool maxOf(const Lin& e0, Z& r) const { Z x; if (!minOf(-e0, x)) return false; r = -x; return true; }
  bool entailsGE(const Lin& e0) const {
    Lin e; try { e = norm(e0); } catch (NumOverflow&) { return false; }
    if (e.isConst()) return e.c >= 0 || isBot();
    for (auto& q : ineq) if (q.t == e.t && q.c <= e.c) return true;
    Z b;
    if (ivMin(e, b) && b >= 0) return true;
    Z g = e.gcdCoefs();
    if (g > 1) { for (auto& p : e.t) p.second /= g; e.c = zfloordiv(e.c, g); }
    return minOf(e, b) && b >= 0;
  }
  bool entailsEQ(const Lin& e0) const {
    Lin e; try { e = norm(e0); } catch (NumOverflow&) { return false; }
    if (e.isConst()) return e.c == 0 || isBot();
    return entailsGE(e) && entailsGE(-e);
  }
  void setBot() { bot = true; ineq.clear(); eqs.clear(); dirty(); feas = 0; }
  void addGE(const Lin& e0) {
    if (bot) return;
    Lin e; try { e = tighten(norm(e0)); } catch (NumOverflow&) { return; }
    if (e.isConst()) { if (e.c < 0) setBot(); return; }
    for (auto it = ineq.begin(); it != ineq.end(); ++it)
      if (it->t == e.t) { if (it->c <= e.c) return; *it = e; dirty(); checkOpp(e); return; }
    ineq.push_back(e);
    dirty();
    checkOpp(e);
  }
  void checkOpp(const Lin& e) { // e>=0 and -e+k>=0
    Lin n = -e;
    for (size_t i = 0; i < ineq.size(); ++i)
      if (ineq[i].t == n.t) {
        Z s = ineq[i].c + e.c; // both: L + e.c >=0, -L + c2 >= 0  => -e.c <= L <= c2
        if (s < 0) { setBot(); return; }
        if (s == 0) { Lin q = e; addEQ(q); return; }
      }
  }
  void addEQ(const Lin& e0) {
    if (bot) return;
    Lin e; try { e = norm(e0); } catch (NumOverflow&) { return; }
    if (e.isConst()) { if (e.c != 0) setBot(); return; }
    Z g = e.gcdCoefs();
    if (e.c % g != 0) { setBot(); return; }
    if (g > 1) { e.c /= g; for (auto& p : e.t) p.second /= g; }
    int v = -1; Z k = 0;
    for (auto& p : e.t) if (p.second == 1 || p.second == -1) { v = p.first; k = p.second; } // newest
    if (v < 0) {
      for (auto& q : eqs) if (q == e || q == -e) return;
      eqs.push_back(e); dirty(); return;
    }
    Lin rhs = e; // k*v + rest = 0 -> v = -rest/k
    rhs = rhs.subst(v, Lin(0));
    if (k == 1) rhs = -rhs;
    for (auto& s : sub) s.second = s.second.subst(v, rhs);
    sub[v] = rhs;
    std::vector<Lin> oi, oe; oi.swap(ineq); oe.swap(eqs); dirty();
    std::vector<Lin> redo;
    for (auto& q : oi) { if (q.coef(v)) redo.push_back(q); else ineq.push_back(q); }
    std::vector<Lin> redoE;
    for (auto& q : oe) { if (q.coef(v)) redoE.push_back(q); else eqs.push_back(q); }
    for (auto& q : redo) addGE(q);
    for (auto& q : redoE) addEQ(q);
  }
  // remove redundant inequalities
  void reduce() {
    if (isBot()) { setBot(); return; }
    for (size_t i = 0; i < ineq.size();) {
      Poly o; o.eqs = eqs;
      for (size_t j = 0; j < ineq.size(); ++j) if (j != i) o.ineq.push_back(ineq[j]);
      if (o.entailsGE(ineq[i])) { ineq.erase(ineq.begin() + i); dirty(); }
      else ++i;
    }
  }
  std::vector<Lin> equalities() const {
    std::vector<Lin> r = eqs;
    for (auto& s : sub) r.push_back(Lin::var(s.first) - s.second);
    return r;
  }
  // turn implicit equalities into explicit ones
  void explicitEqualities() {
    if (isBot()) return;
    bool again = true;
    while (again && !bot) {
      again = false;
      for (size_t i = 0; i < ineq.size(); ++i) {
        Z mx; if (maxOf(ineq[i], mx) && mx <= 0) { Lin e = ineq[i]; addEQ(e); again = true; break; }
      }
    }
  }
  // existential projection onto `keep`
  void project(const std::set<int>& keep) {
    if (bot) return;
    std::vector<Lin> E = equalities(), I = ineq;
    std::set<int> dead;
    for (auto& e : E) for (auto& p : e.t) if (!keep.count(p.first)) dead.insert(p.first);
    for (auto& e : I) for (auto& p : e.t) if (!keep.count(p.first)) dead.insert(p.first);
    if (dead.empty()) return;
    try {
      // Gaussian elimination of dead variables
      bool prog = true;
      while (prog) {
        prog = false;
        for (auto di = dead.begin(); di != dead.end(); ++di) {
          int v = *di; int best = -1;
          for (size_t i = 0; i < E.size(); ++i) {
            Z k = zabs(E[i].coef(v));
            if (k && (best < 0 || k < zabs(E[best].coef(v)))) best = i;
          }
          if (best < 0) continue;
          Lin q = E[best]; Z b = q.coef(v);
          E.erase(E.begin() + best);
          for (auto& e : E) { Z k = e.coef(v); if (k) { e = Lin::comb(e, b, q, -k); Z g = zgcd(e.gcdCoefs(), e.c); if (g > 1) { e.c /= g; for (auto& p : e.t) p.second /= g; } } }
          for (auto& e : I) { Z k = e.coef(v); if (k) { Z s = b > 0 ? 1 : -1; e = tighten(Lin::comb(e, b * s, q, -k * s)); } }
          dead.erase(di); prog = true; break;
        }
      }
      // Fourier-Motzkin
      while (!dead.empty()) {
        int bv = -1; long bestCost = 0;
        std::set<int> gone;
        for (int v : dead) {
          long p = 0, nn = 0; for (auto& e : I) { Z k = e.coef(v); if (k > 0) ++p; else if (k < 0) ++nn; }
          if (p + nn == 0) { gone.insert(v); continue; }
          long cost = p * nn - (p + nn);
          if (bv < 0 || cost < bestCost) { bv = v; bestCost = cost; }
        }
        for (int v : gone) dead.erase(v);
        if (bv < 0) break;
        std::vector<Lin> P, N, R;
        for (auto& e : I) { Z k = e.coef(bv); if (k > 0) P.push_back(e); else if (k < 0) N.push_back(e); else R.push_back(e); }
        if (P.size() * N.size() <= 64)
          for (auto& p : P) for (auto& q : N) {
            Z a = p.coef(bv), b = -q.coef(bv); Z g = zgcd(a, b);
            try { Lin r = tighten(Lin::comb(p, b / g, q, a / g)); if (!r.isConst()) R.push_back(r); else if (r.c < 0) { setBot(); return; } } catch (NumOverflow&) {}
          }
        std::sort(R.begin(), R.end());
        std::vector<Lin> R2;
        for (auto& r : R) { if (!R2.empty() && R2.back().t == r.t) continue; R2.push_back(r); } // smallest c first = strongest
        I.swap(R2);
        if (I.size() > 14) { Poly q; q.ineq = I; q.reduce(); if (q.bot) { setBot(); return; } I = q.ineq; }
        dead.erase(bv);
      }
    } catch (NumOverflow&) {
      // drop anything that still mentions a dead variable
      auto bad = [&](const Lin& e) { for (auto& p : e.t) if (!keep.count(p.first)) return true; return false; };
      E.erase(std::remove_if(E.begin(), E.end(), bad), E.end());
      I.erase(std::remove_if(I.begin(), I.end(), bad), I.end());
    }
    sub.clear(); ineq.clear(); eqs.clear(); dirty();
    for (auto& e : E) addEQ(e);
    for (auto& e : I) addGE(e);
  }
  std::string str() const {
    if (bot) return "BOT";
    std::string s;
    for (auto& p : sub) s += "v" + std::to_string(p.first) + " = " + p.second.str() + "; ";
    for (auto& e : eqs) s += e.str() + " == 0; ";
    for (auto& e : ineq) s += e.str() + " >= 0; ";
    return s;
  }
  void allVars(std::set<int>& s) const {
    for (auto& p : sub) { s.insert(p.first); for (auto& q : p.second.t) s.insert(q.first); }
    for (auto& e : ineq) for (auto& p : e.t) s.insert(p.first);
    for (auto& e : eqs) for (auto& p : e.t) s.insert(p.first);
  }
};

// affine-hull join: forms vanishing on both (Zassenhaus)
inline std::vector<Lin> karrJoin(const std::vector<Lin>& A, const std::vector<Lin>& B, const std::vector<int>& vars) {
  int n = vars.size() + 1;
  std::map<int, int> ix; for (size_t i = 0; i < vars.size(); ++i) ix[vars[i]] = i;
  std::vector<std::vector<Z>> M;
  auto put = [&](const Lin& e, bool both) {
    std::vector<Z> r(2 * n, 0);
    for (auto& p : e.t) { auto it = ix.find(p.first); if (it == ix.end()) return; r[it->second] = p.second; }
    r[n - 1] = e.c;
    if (both) for (int j = 0; j < n; ++j) r[n + j] = r[j];
    M.push_back(r);
  };
  for (auto& e : A) put(e, true);
  for (auto& e : B) put(e, false);
  std::vector<Lin> out;
  try {
    size_t row = 0;
    for (int c = 0; c < n && row < M.size(); ++c) {
      size_t piv = M.size(); 
      for (size_t i = row; i < M.size(); ++i) if (M[i][c]) { if (piv == M.size() || zabs(M[i][c]) < zabs(M[piv][c])) piv = i; }
      if (piv == M.size()) continue;
      std::swap(M[row], M[piv]);
      for (size_t i = row + 1; i < M.size(); ++i) if (M[i][c]) {
        Z a = M[row][c], b = M[i][c]; Z g = zgcd(a, b); a /= g; b /= g;
        for (int j = 0; j < 2 * n; ++j) M[i][j] = zadd(zmul(M[i][j], a), -zmul(M[row][j], b));
        Z gg = 0; for (Z x : M[i]) gg = zgcd(gg, x);
        if (gg > 1) for (Z& x : M[i]) x /= gg;
      }
      ++row;
    }
    for (size_t i = row; i < M.size(); ++i) {
      Lin e; bool nz = false;
      std::vector<std::pair<int, Z>> t;
      for (size_t j = 0; j < vars.size(); ++j) if (M[i][n + j]) { t.push_back({vars[j], M[i][n + j]}); nz = true; }
      std::sort(t.begin(), t.end());
      e.t = t; e.c = M[i][2 * n - 1];
      if (nz) out.push_back(e);
    }
  } catch (NumOverflow&) {}
  return out;
}

// Join / widening of two projected polyhedra over the same live variables.
// hints: extra candidate expressions (template directions).
inline Poly polyJoin(Poly A, Poly B, const std::vector<int>& live, bool widen, const std::vector<Lin>& hints, bool octagon = true, const std::set<Z>* thresholds = nullptr, const std::vector<Lin>* facts = nullptr) {
  if (A.isBot()) return B;
  if (B.isBot()) return A;
  A.explicitEqualities(); B.explicitEqualities();
  if (A.isBot()) return B;
  if (B.isBot()) return A;
  Poly R;
  auto E = karrJoin(A.equalities(), B.equalities(), live);
  for (auto& e : E) R.addEQ(e);
  std::vector<Lin> cand;
  auto pushBoth = [&](const Lin& e) { cand.push_back(e); };
  for (auto& e : A.ineq) pushBoth(e);
  for (auto& e : A.equalities()) { pushBoth(e); pushBoth(-e); }
  size_t fromA = cand.size();
  for (auto& e : B.ineq) pushBoth(e);
  for (auto& e : B.equalities()) { pushBoth(e); pushBoth(-e); }
  size_t hint0 = cand.size();
  for (auto& e : hints) { pushBoth(e); pushBoth(-e); }
  size_t hint1 = cand.size();
  if (octagon) {
    size_t n = live.size();
    bool pairs = n <= 14;
    for (size_t i = 0; i < n; ++i) {
      Lin x = Lin::var(live[i]);
      pushBoth(x); pushBoth(-x);
      if (pairs) for (size_t j = i + 1; j < n; ++j) {
        Lin y = Lin::var(live[j]);
        pushBoth(x - y); pushBoth(y - x); pushBoth(x + y); pushBoth(-(x + y));
      }
    }
  }
  if (!widen) { // one side fixes a variable the other leaves open: lift its relations along that variable
    auto lift = [&](const Poly& X, const Poly& Y) {
      std::vector<Lin> fixed;
      for (int v : live) { Lin x = X.norm(Lin::var(v)); if (!x.isConst()) continue; Lin y = Y.norm(Lin::var(v)); if (y.isConst() && y.c == x.c) continue; Z d = y.isConst() ? y.c - x.c : 0; if (d > 4096 || d < -4096) continue; fixed.push_back(Lin::var(v) - x); if (fixed.size() >= 5) break; }
      if (fixed.empty()) return;
      for (auto& e : X.ineq) if (e.t.size() >= 2 && e.t.size() <= 4) for (auto& f : fixed) { pushBoth(e + f); pushBoth(e - f); }
    };
    lift(A, B); lift(B, A);
  }
  std::set<std::vector<std::pair<int, Z>>> seen;
  size_t idx = 0;
  for (auto& e : cand) {
    ++idx;
    bool hint = idx > hint0 && idx <= hint1;
    if (widen && idx > fromA && !hint) { bool unit = true; for (auto& p : e.t) if (p.second != 1 && p.second != -1) unit = false; if (!unit) continue; }
    Lin d = R.norm(e);
    if (d.isConst()) continue;
    Z g = d.gcdCoefs(); d.c = 0; if (g > 1) for (auto& p : d.t) p.second /= g;
    if (!seen.insert(d.t).second) continue;
    Z ma, mb;
    if (!A.minOf(d, ma)) continue;
    if (widen) {
      // keep the bound of A only if B respects it
      Lin f = d; f.c = -ma;
      if (R.entailsGE(f)) continue;
      if (B.entailsGE(f)) { R.addGE(f); continue; }
      if (thresholds && (e.t.size() == 2 || hint) && ma >= -1) { // differences: relax to a sign
        Lin e0 = e; e0.c = 0; Z ea, eb; if (!A.minOf(e0, ea) || ea < -1 || !B.minOf(e0, eb) || eb < -1) continue;
        Z m = std::min(ea, eb); Lin h = e0; h.c = -(Z)(m >= 1 ? 1 : m); R.addGE(h);
      }
    } else {
      if (!B.minOf(d, mb)) continue;
      Lin f = d; f.c = -std::min(ma, mb);
      if (R.entailsGE(f)) continue;
      R.addGE(f);
    }
  }
  (void)fromA;
  if (widen && thresholds) for (int v : live) for (int sg : {1, -1}) {
    Lin d = Lin::var(v) * sg; Lin rd = R.norm(d); if (rd.isConst()) continue;
    Z m0, ma, mb; if (R.minOf(d, m0) || !A.minOf(d, ma) || !B.minOf(d, mb)) continue;
    Z m = std::min(ma, mb); // sg*v >= m: relax to the nearest threshold
    bool ok = false; Z t = 0;
    if (sg > 0) { auto it = thresholds->upper_bound(m); if (it != thresholds->begin()) { t = *--it; ok = true; } }
    else { auto it = thresholds->lower_bound(-m); if (it != thresholds->end()) { t = -*it; ok = true; } }
    if (ok) { Lin f = d; f.c = -t; R.addGE(f); }
  }
  if (facts) for (auto& f : *facts) { Lin g = R.norm(f); if (g.isConst() || R.entailsGE(g)) continue; if (A.entailsGE(f) && B.entailsGE(f)) R.addGE(g); }
  R.reduce();
  return R;
}
