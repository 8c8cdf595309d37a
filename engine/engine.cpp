#include "engine.h"
#include "llvm/Bitcode/BitcodeReader.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Utils/LowerInvoke.h"
#include <chrono>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/personality.h>
#include <unistd.h>

long g_lp_count = 0, g_pivot_count = 0;
static const Z ONE = 1;
static Z pow2(unsigned w) { return ONE << w; }

struct Options {
  int K = 4;            // disjuncts kept per key at ordinary merges
  bool orderAll = false; int peel = 1;
  bool small = false;   // bounded mode: vf_pick enumerates constants, loops are unrolled, states kept apart
  int joinIters = 3;    // plain joins before widening
  int maxStates = 256;   // hard cap of states per program point
  bool allocFail = true;
  bool dump = false;
  bool trace = false;
  long maxSteps = 60000000;
  std::set<std::string> kinds; // obligation kinds recorded (empty: all)
  std::string prefix = "/repo/";
};

struct Violation { std::string kind, tag, where, func, msg; std::vector<std::string> stack; std::string state; };

struct Analysis {
  Module& M; const DataLayout& DL; Options opt;
  int nextVar = 1, nextReg = 100000;
  std::map<const GlobalVariable*, int> globalIds; std::map<int, const GlobalVariable*> idGlobals;
  std::map<std::pair<uint64_t, const Value*>, int> allocaIds;
  int nextStatic = 1;
  int mute = 0; long steps = 0;
  std::map<std::pair<const Instruction*, uint64_t>, size_t> pickSites; std::vector<int> picks, pickMax; // bounded mode: values chosen so far and their ranges
  long nJoin = 0, nWiden = 0, nBlocks = 0, nCalls = 0, maxSeen = 0;
  std::map<std::pair<std::string, const Instruction*>, std::pair<long, long>> obls; // (checked, failed)
  std::map<std::string, std::pair<long, long>> tagStats;
  std::vector<Violation> viols; std::set<std::pair<std::string, const Instruction*>> reported;
  std::set<std::string> unmodelled, funcsSeen, reachTags, narrowed;
  std::set<const Function*> fnSeen;
  int autoGhost = 0; // element stride, 0: off

  Analysis(Module& m, Options o) : M(m), DL(m.getDataLayout()), opt(o) {}

  // ---------- helpers ----------
  int fresh() { return nextVar++; }
  int autoReg = 0; // pseudo block holding the offset remembered in every block allocated from now on
  static uint64_t hmix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2); return a * 0xff51afd7ed558ccdULL; }
  Z typeSize(Type* t) { return (Z)(uint64_t)DL.getTypeStoreSize(t).getFixedValue(); }
  unsigned width(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); return (unsigned)DL.getTypeSizeInBits(t).getFixedValue(); }

  AV freshInt(State& s, unsigned w, bool sgn = false) {
    int v = fresh();
    if (w >= 1 && w <= 64) {
      Z lo = sgn ? -pow2(w - 1) : 0, hi = sgn ? pow2(w - 1) - 1 : pow2(w) - 1;
      s.p.addGE(Lin::var(v) - Lin(lo)); s.p.addGE(Lin(hi) - Lin::var(v));
    }
    return AV::mkInt(Lin::var(v));
  }
  AV freshOf(State& s, Type* t) {
    if (t->isIntegerTy() && t->getIntegerBitWidth() <= 64) return freshInt(s, t->getIntegerBitWidth());
    if (t->isFloatingPointTy()) return AV::mkInt(Lin::var(fresh()));
    return AV::top();
  }
  static std::string locOf(const Instruction* I) {
    if (!I) return "?";
    if (const DILocation* d = I->getDebugLoc()) {
      std::string f = d->getFilename().str();
      if (!f.empty() && f[0] != '/') f = d->getDirectory().str() + "/" + f;
      return f + ":" + std::to_string(d->getLine());
    }
    return "?";
  }
  static std::string fname(const Function* f) { return f ? demangle(f->getName().str()) : "?"; }
  std::vector<std::string> stackOf(const State& s, const Instruction* I) {
    std::vector<std::string> r;
    const Instruction* at = I;
    for (int i = (int)s.frames.size() - 1; i >= 0; --i) {
      r.push_back(locOf(at) + " in " + fname(s.frames[i]->fn));
      at = s.frames[i]->call;
      if (!at) break;
    }
    return r;
  }
  bool wants(const std::string& kind) { return opt.kinds.empty() || opt.kinds.count(kind); }
  void obligation(const std::string& kind, const std::string& tag, State& s, const Instruction* I, bool ok, const std::string& msg) {
    if (mute || !wants(kind) || suppressed(s)) return;
    auto& o = obls[{kind + ":" + tag, I}]; o.first++; 
    auto& t = tagStats[kind + ":" + tag]; t.first++;
    if (ok) return;
    o.second++; t.second++;
    if (!reported.insert({kind + ":" + tag, I}).second) return;
    Violation v; v.kind = kind; v.tag = tag; v.msg = msg;
    v.stack = stackOf(s, I);
    // attribute to the innermost frame inside the repository
    v.where = v.stack.empty() ? "?" : v.stack[0];
    for (auto& e : v.stack) if (e.compare(0, opt.prefix.size(), opt.prefix) == 0) { v.where = e; break; }
    v.func = fname(s.ctop().fn);
    if (opt.dump) v.state = dumpState(s);
    viols.push_back(v);
  }
  std::string avStr(const AV& a) {
    switch (a.k) {
      case AV::Top: return "T"; case AV::Int: return a.e.str();
      case AV::Ptr: return "&r" + std::to_string(a.reg) + "[" + a.e.str() + "]";
      case AV::Fn: return "fn:" + fname(a.fn);
      case AV::Agg: { std::string r = "{"; for (auto& x : *a.agg) r += avStr(x) + ","; return r + "}"; }
    }
    return "?";
  }
  AV normAV(const State& s, const AV& a) {
    AV r = a;
    try {
    if (a.k == AV::Int || a.k == AV::Ptr) r.e = s.p.norm(a.e);
    } catch (NumOverflow&) { if (a.k == AV::Int || a.k==AV::Ptr) return AV::top(); }
    if (a.k == AV::Agg) { std::vector<AV> v; for (auto& x : *a.agg) v.push_back(normAV(s, x)); r = AV::mkAgg(v); }
    return r;
  }
  std::string dumpState(const State& s) {
    std::string r = "poly: " + s.p.str() + "\n";
    for (auto& m : s.mem) {
      auto& g = *m.second; 
      if (g.kind == RK::Global && idGlobals.count(m.first) && idGlobals[m.first]->isConstant()) continue;
      std::string nm;
      if (g.site && g.site->hasName()) nm = g.site->getName().str();
      r += "r" + std::to_string(m.first) + "(" + nm + ",k" + std::to_string((int)g.kind) + ",size " + s.p.norm(g.size).str() + "):";
      for (auto& c : g.cells) r += " [" + zstr(c.first) + ":" + zstr(c.second.size) + "]=" + avStr(normAV(s, c.second.v));
      for (auto& t : g.tracked) { r += " T@" + s.p.norm(t.off).str() + "{"; for (auto& c : t.cells) r += "[" + zstr(c.first) + "]=" + avStr(normAV(s, c.second.v)) + " "; r += "}"; }
      for (auto& t : g.ghosts) r += " G@" + s.p.norm(t.off).str() + "=" + avStr(normAV(s, t.val));
      r += "\n";
    }
    for (auto& f : s.frames) { r += "frame " + fname(f->fn) + ":"; for (auto& e : f->env) { std::string n; raw_string_ostream os(n); e.first->printAsOperand(os, false); r += " " + n + "=" + avStr(normAV(s, e.second)); } r += "\n"; }
    return r;
  }

  // ---------- memory ----------
  int newHeap(State& s, const Lin& size, RK kind, const Value* site) {
    int id = nextReg++;
    auto r = std::make_shared<Region>(); r->kind = kind; r->size = size; r->site = site; r->anyByte = kind == RK::Sym;
    if (autoReg && kind == RK::Heap) { auto it = s.mem.find(autoReg); if (it != s.mem.end()) for (auto& c : it->second->cells) { Tracked t; t.off = c.second.v.e; t.size = 1; r->tracked.push_back(t); } }
    s.mem[id] = r; return id;
  }
  void flattenInit(State& s, Region& r, const Constant* c, Z off) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (c->isNullValue()) { r.bg.push_back(Bg{off, (Z)(uint64_t)DL.getTypeAllocSize(t).getFixedValue(), 0}); return; }
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      for (unsigned i = 0; i < st->getNumElements(); ++i) flattenInit(s, r, c->getAggregateElement(i), off + (Z)(uint64_t)sl->getElementOffset(i).getFixedValue());
      return;
    }
    if (auto* at = dyn_cast<ArrayType>(t)) {
      Z es = (Z)(uint64_t)DL.getTypeAllocSize(at->getElementType()).getFixedValue();
      if (at->getNumElements() > 4096) return;
      for (unsigned i = 0; i < at->getNumElements(); ++i) flattenInit(s, r, c->getAggregateElement(i), off + es * i);
      return;
    }
    r.cells[off] = Cell{typeSize(t), constVal(s, c)};
  }
  int globalReg(State& s, const GlobalVariable* g) {
    auto it = globalIds.find(g); int id;
    if (it == globalIds.end()) { id = nextStatic++; globalIds[g] = id; idGlobals[id] = g; } else id = it->second;
    if (!s.mem.count(id)) {
      auto r = std::make_shared<Region>(); r->kind = RK::Global; r->site = g;
      r->size = Lin((Z)(uint64_t)DL.getTypeAllocSize(g->getValueType()).getFixedValue());
      s.mem[id] = r;
      if (g->hasInitializer()) { Region tmp = *r; flattenInit(s, tmp, g->getInitializer(), 0); tmp.anyByte = true;
        if (g->isConstant()) { tmp.anyByte = false; if (auto* da = dyn_cast<ConstantDataArray>(g->getInitializer()); da && da->getElementType()->isIntegerTy(8)) { bool gr = da->getNumElements() <= 4096; for (unsigned i = 0; i < da->getNumElements(); ++i) tmp.sets[gr ? i / 8 : 0].add((unsigned)da->getElementAsInteger(i)); if (da->isCString()) tmp.cstr = 1; } else tmp.anyByte = true; }
        *s.reg(id) = tmp; } else s.reg(id)->anyByte = true;
    }
    return id;
  }
  AV constVal(State& s, const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) return AV::top();
      if (ci->getBitWidth() == 1) return AV::mkInt(Lin((Z)(int)ci->getZExtValue()));
      return AV::mkInt(Lin((Z)ci->getSExtValue()));
    }
    if (isa<ConstantPointerNull>(c)) return AV::mkPtr(0, Lin(0));
    if (auto* f = dyn_cast<Function>(c)) return AV::mkFn(f);
    if (auto* g = dyn_cast<GlobalVariable>(c)) return AV::mkPtr(globalReg(s, g), Lin(0));
    if (auto* a = dyn_cast<GlobalAlias>(c)) { return constVal(s, a->getAliasee()); }
    if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) {
      std::vector<AV> v; unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->isArrayTy() ? (unsigned)c->getType()->getArrayNumElements() : 0;
      if (n == 0 || n > 64) return AV::top();
      for (unsigned i = 0; i < n; ++i) v.push_back(constVal(s, c->getAggregateElement(i)));
      return AV::mkAgg(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      if (auto* gep = dyn_cast<GEPOperator>(ce)) {
        AV b = constVal(s, cast<Constant>(gep->getPointerOperand()));
        APInt off(64, 0);
        if (b.k == AV::Ptr && gep->accumulateConstantOffset(DL, off)) { b.e = b.e + Lin((Z)off.getSExtValue()); return b; }
        return AV::top();
      }
      if (ce->getOpcode() == Instruction::BitCast || ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr || ce->getOpcode() == Instruction::AddrSpaceCast)
        return constVal(s, ce->getOperand(0));
      return AV::top();
    }
    if (isa<ConstantFP>(c)) { return AV::top(); }
    if (isa<UndefValue>(c)) {
      if (c->getType()->isStructTy()) { std::vector<AV> v(c->getType()->getStructNumElements()); return AV::mkAgg(v); }
      return AV::top();
    }
    return AV::top();
  }
  AV val(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    auto& env = s.ctop().env; auto it = env.find(v);
    if (it != env.end()) return it->second;
    return AV::top();
  }
  void set(State& s, const Value* v, const AV& a) { s.top().env[v] = a; }

  Lin addrOf(State& s, int reg) {
    if (reg == 0) return Lin(0);
    Region* r = s.reg(reg);
    if (!r) return Lin::var(fresh());
    if (!r->addrv) {
      r->addrv = fresh(); Lin a = Lin::var(r->addrv); Lin sz = r->size;
      s.p.addGE(a - Lin(4096)); s.p.addGE(Lin(pow2(63) - 1) - a - sz);
    }
    return Lin::var(r->addrv);
  }
  // integer view of a value
  Lin asInt(State& s, const AV& a, unsigned w) {
    if (a.k == AV::Int) return a.e;
    if (a.k == AV::Ptr) return addrOf(s, a.reg) + a.e;
    return freshInt(s, w).e;
  }
  // canonical representative of e modulo 2^w; may split the state
  void canon(const State& s, const Lin& e0, unsigned w, bool sgn, std::vector<std::pair<State, Lin>>& out) {
    Lin e;
    try { e = s.p.norm(e0); } catch (NumOverflow&) { State t = s; Lin f = freshInt(t, w, sgn).e; out.push_back({t, f}); return; }
    Z lo = sgn ? -pow2(w - 1) : 0, hi = sgn ? pow2(w - 1) - 1 : pow2(w) - 1;
    if (e.isConst()) {
      Z m = e.c - zfloordiv(e.c - lo, pow2(w)) * pow2(w);
      out.push_back({s, Lin(m)}); return;
    }
    if (s.p.entailsGE(e - Lin(lo)) && s.p.entailsGE(Lin(hi) - e)) { out.push_back({s, e}); return; }
    Z mn, mx;
    if (s.p.minOf(e, mn) && s.p.maxOf(e, mx)) {
      Z k0 = zfloordiv(mn - lo, pow2(w)), k1 = zfloordiv(mx - lo, pow2(w));
      if (k1 - k0 <= 2) {
        for (Z k = k0; k <= k1; ++k) {
          State t = s; Lin b = e - Lin(k * pow2(w));
          t.p.addGE(b - Lin(lo)); t.p.addGE(Lin(hi) - b);
          if (!t.p.isBot()) out.push_back({t, t.p.norm(b)});
        }
        return;
      }
    }
    State t = s; Lin f = freshInt(t, w, sgn).e; out.push_back({t, f});
  }
  // ---- access resolution: states in which the access [off,off+n) in region r is in bounds
  // returns false if region is unknown
  bool checkAccess(State& s, const AV& p, const Lin& n, const Instruction* I, const char* what) {
    if (p.k != AV::Ptr) {
      obligation("bounds", "", s, I, false, std::string(what) + " through a pointer the analysis cannot resolve");
      return false;
    }
    if (s.p.entailsGE(-n)) return true; // empty access
    const Region* r = s.creg(p.reg);
    if (p.reg == 0) { obligation("bounds", "", s, I, s.p.isBot(), std::string(what) + " through a null pointer"); s.p.setBot(); return false; }
    if (!r) { obligation("bounds", "", s, I, s.p.isBot(), std::string(what) + " of storage that has been released"); s.p.setBot(); return false; }
    Lin off = p.e, sz = r->size;
    bool ok = s.p.entailsGE(off) && s.p.entailsGE(sz - off - n);
    if (!ok) { // an empty access may hide in a disjunction
      State t = s; t.p.addGE(n - Lin(1));
      ok = t.p.isBot() || (t.p.entailsGE(off) && t.p.entailsGE(sz - off - n));
    }
    std::string msg;
    if (!ok && !mute) msg = std::string(what) + " of " + s.p.norm(n).str() + " byte(s) at offset " + s.p.norm(off).str() + " of a block of " + s.p.norm(sz).str() + " byte(s) is not provably in bounds";
    obligation("bounds", "", s, I, ok, msg);
    if (n.isConst()) { s.p.addGE(off); s.p.addGE(sz - off - n); }
    return !s.p.isBot();
  }
  // arrays of symbolic length have no per-offset contents (only tracked blocks)
  bool keepsCells(const State& s, int reg) { const Region* r = s.creg(reg); return r && r->size.isConst(); }
  AV bgVal(const Region& r, Z off, Z n) {
    for (auto it = r.bg.rbegin(); it != r.bg.rend(); ++it) {
      if (off >= it->off && off + n <= it->off + it->len) {
        if (it->byte == 0) return AV::mkInt(Lin(0));
        Z v = 0; for (int i = 0; i < (int)n && i < 8; ++i) v = v * 256 + it->byte;
        return AV::mkInt(Lin(v));
      }
      if (off < it->off + it->len && it->off < off + n) return AV::top();
    }
    return AV::top();
  }
  static void eraseBg(std::vector<Bg>& bg, Z off, Z n) {
    std::vector<Bg> r;
    for (auto& b : bg) {
      if (b.off + b.len <= off || off + n <= b.off) { r.push_back(b); continue; }
      if (b.off < off) r.push_back(Bg{b.off, off - b.off, b.byte});
      if (off + n < b.off + b.len) r.push_back(Bg{off + n, b.off + b.len - (off + n), b.byte});
    }
    bg.swap(r);
  }
  // ---- byte-value summaries ----
  void granules(State& s, const Region& r, const Lin& off, const Lin& n, Z& a, Z& b) {
    a = b = 0;
    if (!r.size.isConst() || r.size.c > 4096 || r.size.c < 1) return;
    Z mx = r.size.c - 1, lo = 0, hi = mx, v;
    if (s.p.minOf(off, v)) lo = std::max<Z>(lo, v);
    if (s.p.maxOf(off + n, v)) hi = std::min<Z>(hi, v - 1);
    a = lo / 8; b = hi / 8;
  }
  void noteWrite(State& s, int reg, const Lin& off, const Lin& n, const BS* set) {
    Region* r = s.reg(reg);
    r->recent.clear();
    if (r->hasExcl) r->hasExcl = false;
    if (r->anyByte) return;
    BS v = set ? *set : BS::all(); if (v.empty()) return;
    Z a, b; granules(s, *r, off, n, a, b);
    for (Z g = a; g <= b; ++g) r->sets[g].merge(v);
  }
  BS readSet(State& s, const Region& r, const Lin& off, const Lin& n) {
    if (r.anyByte) return BS::all();
    Z a, b; granules(s, r, off, n, a, b); BS v;
    for (auto it = r.sets.lower_bound(a); it != r.sets.end() && it->first <= b; ++it) v.merge(it->second);
    return v;
  }
  BS valueSet(State& s, const AV& v, Z n) {
    BS b;
    if (v.k == AV::Ptr && v.reg == 0) { b.add(0); return b; }
    if (v.k != AV::Int) return BS::all();
    Lin e = s.p.norm(v.e);
    if (n > 1) { if (!e.isConst() || n > 8) return BS::all(); for (int i = 0; i < (int)n; ++i) b.add((unsigned)((uint64_t)((e.c >> (8 * i)) & 255))); return b; }
    if (e.isConst()) { b.add((unsigned)((uint64_t)e.c & 255)); return b; }
    Z lo, hi; if (!s.p.minOf(e, lo) || !s.p.maxOf(e, hi) || hi - lo >= 255) return BS::all();
    for (Z x = lo; x <= hi; ++x) b.add((unsigned)((uint64_t)x & 255));
    return b;
  }
  void remember(State& s, int reg, const Lin& off, Z n, const AV& v) {
    Region* r = s.reg(reg); Tracked t; t.off = off; t.size = n; t.cells[0] = Cell{n, v};
    if (r->recent.size() >= 2) r->recent.erase(r->recent.begin());
    r->recent.push_back(t);
  }
  // an unknown byte of the block: constrained by what may have been written there
  void pushByte(State& q, int reg, const Lin& off, Type* t, std::vector<std::pair<State, AV>>& out, Z cacheAt = -1) {
    AV v = freshOf(q, t);
    auto fin = [&](State& st) { if (cacheAt < 0 && v.k != AV::Top) remember(st, reg, off, 1, v); if (cacheAt >= 0 && v.k != AV::Top) st.reg(reg)->cells[cacheAt] = Cell{1, v}; out.push_back({st, v}); };
    const Region* r = q.creg(reg);
    if (!t->isIntegerTy(8) || v.k != AV::Int) { out.push_back({q, v}); return; }
    if (r->hasExcl) {
      Lin ex = r->excl;
      for (int d : {-1, 1}) { State st = q; st.p.addGE((v.e - ex) * d - Lin(1)); if (!st.p.isBot()) fin(st); }
      return;
    }
    BS b = readSet(q, *r, off, Lin(1));
    if (b.empty() || b.full()) { fin(q); return; }
    std::vector<std::pair<int, int>> iv;
    for (int i = 0; i < 256; ++i) if (b.has(i)) { if (!iv.empty() && iv.back().second == i - 1) iv.back().second = i; else iv.push_back({i, i}); }
    while (iv.size() > 6) { size_t m = 0; for (size_t i = 1; i + 1 < iv.size(); ++i) if (iv[i + 1].first - iv[i].second < iv[m + 1].first - iv[m].second) m = i; iv[m].second = iv[m + 1].second; iv.erase(iv.begin() + m + 1); }
    for (auto& x : iv) { State st = q; st.p.addGE(v.e - Lin(x.first)); st.p.addGE(Lin(x.second) - v.e); if (!st.p.isBot()) fin(st); }
  }
  AV adapt(State& s, const AV& v, Type* t) { // value stored -> type loaded
    if (t->isPointerTy()) {
      if (v.k == AV::Ptr || v.k == AV::Fn) return v;
      if (v.k == AV::Int) { Lin e = s.p.norm(v.e); if (e.isConst() && e.c == 0) return AV::mkPtr(0, Lin(0)); }
      return AV::top();
    }
    return v;
  }
  // read n bytes at constant offset from a cell map
  AV readCells(State& s, std::map<Z, Cell>& cells, Z off, Z n, Type* t, bool& found) {
    found = false;
    auto it = cells.upper_bound(off);
    if (it != cells.begin()) {
      --it;
      if (it->first == off && it->second.size == n) { found = true; return adapt(s, it->second.v, t); }
      if (it->first == off && it->second.size > n && it->second.v.k == AV::Int && t->isIntegerTy()) { found = true; return it->second.v; }
      if (it->first <= off && it->first + it->second.size > off) { found = true; return freshOf(s, t); } // overlapping: unknown
    }
    it = cells.lower_bound(off);
    if (it != cells.end() && it->first < off + n) { found = true; return freshOf(s, t); }
    return AV::top();
  }
  // load scalar; may split on tracked blocks
  void load(const State& s0, const AV& p, Type* t, const Instruction* I, std::vector<std::pair<State, AV>>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      std::vector<std::pair<State, std::vector<AV>>> cur{{s0, {}}};
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        std::vector<std::pair<State, std::vector<AV>>> nx;
        for (auto& c : cur) {
          AV q = p; if (q.k == AV::Ptr) q.e = q.e + Lin((Z)(uint64_t)sl->getElementOffset(i).getFixedValue());
          std::vector<std::pair<State, AV>> o; load(c.first, q, st->getElementType(i), I, o);
          for (auto& x : o) { auto v = c.second; v.push_back(x.second); nx.push_back({x.first, v}); }
        }
        cur.swap(nx);
      }
      for (auto& c : cur) out.push_back({c.first, AV::mkAgg(c.second)});
      return;
    }
    State s = s0; Z n = typeSize(t);
    if (!checkAccess(s, p, Lin(n), I, "read")) { if (s.p.isBot()) return; AV a = freshOf(s, t); out.push_back({s, a}); return; }
    guardCheck(s, p, I, false);
    Lin off = s.p.norm(p.e);
    Region* r = s.reg(p.reg);
    if (r->cstr && n == 1) { // the terminator is the last byte
      Lin last = r->size - Lin(1);
      { State z = s; z.p.addEQ(off - last); if (!z.p.isBot()) out.push_back({z, AV::mkInt(Lin(0))}); }
      s.p.addGE(last - off - Lin(1)); if (s.p.isBot()) return;
      off = s.p.norm(p.e); r = s.reg(p.reg);
    }
    if (off.isConst()) {
      bool found; AV v = readCells(s, r->cells, off.c, n, t, found);
      if (found) { out.push_back({s, v}); return; }
      if (r->tracked.empty()) {
        AV b = bgVal(*r, off.c, n);
        if (b.k != AV::Top) { out.push_back({s, adapt(s, b, t)}); return; }
        for (auto& c : r->recent) if (c.size == n && s.p.entailsEQ(off - c.off)) { v = c.cells.begin()->second.v; out.push_back({s, adapt(s, v, t)}); return; }
        if (t->isIntegerTy(8)) { pushByte(s, p.reg, off, t, out, keepsCells(s, p.reg) ? off.c : (Z)-1); return; }
        v = freshOf(s, t);
        if (v.k != AV::Top && keepsCells(s, p.reg)) { r = s.reg(p.reg); r->cells[off.c] = Cell{n, v}; }
        out.push_back({s, v}); return;
      }
    }
    // symbolic offset
    if (r->kind == RK::Global && idGlobals.count(p.reg) && idGlobals[p.reg]->isConstant() && t->isIntegerTy()) {
      // bounds of the table over the feasible index range
      Z lo = 0, hi = 0; bool any = false, ok = true; Z mn, mx;
      bool rng = s.p.minOf(off, mn) && s.p.maxOf(off, mx);
      for (auto& c : r->cells) { if (c.second.v.k != AV::Int || !c.second.v.e.isConst() || c.second.size != n) { ok = false; break; } if (rng && (c.first < mn || c.first > mx)) continue; Z v = c.second.v.e.c; if (!any || v < lo) lo = v; if (!any || v > hi) hi = v; any = true; }
      if (ok && any && r->bg.empty()) {
        int v = fresh(); s.p.addGE(Lin::var(v) - Lin(lo)); s.p.addGE(Lin(hi) - Lin::var(v));
        out.push_back({s, AV::mkInt(Lin::var(v))}); return;
      }
    }
    for (auto& c : r->recent) if (c.size == n && s.p.entailsEQ(off - c.off)) { AV v = c.cells.begin()->second.v; out.push_back({s, adapt(s, v, t)}); return; }
    for (auto& c : r->cells) if (c.second.size == n && s.p.entailsEQ(off - Lin(c.first))) { out.push_back({s, adapt(s, c.second.v, t)}); return; }
    // tracked blocks
    std::vector<State> rest{s};
    for (size_t ti = 0; ti < s.creg(p.reg)->tracked.size(); ++ti) {
      std::vector<State> nrest;
      for (auto& q : rest) {
        const Tracked& T = q.creg(p.reg)->tracked[ti];
        Lin d = off - T.off; // inside if 0 <= d <= size-n
        splitRange(q, d, 0, T.size - n, [&](State& in) {
          Lin dd = in.p.norm(d);
          if (!dd.isConst()) { // enumerate possible constant deltas is not attempted
            AV v = freshOf(in, t); out.push_back({in, v}); return;
          }
          Region* rr = in.reg(p.reg); Tracked& TT = rr->tracked[ti];
          bool found; AV v = readCells(in, TT.cells, dd.c, n, t, found);
          if (!found) { v = freshOf(in, t); if (in.frames.size() == 1 && v.k == AV::Int && v.e.t.size() == 1) tokens.insert(v.e.t[0].first); if (v.k != AV::Top) { rr = in.reg(p.reg); rr->tracked[ti].cells[dd.c] = Cell{n, v}; } }
          out.push_back({in, v});
        }, nrest, T.size, n);
      }
      rest.swap(nrest);
    }
    for (auto& q : rest) {
      AV v;
      if (off.isConst()) { AV b = bgVal(*q.creg(p.reg), off.c, n); if (b.k != AV::Top) { out.push_back({q, adapt(q, b, t)}); continue; } }
      if (t->isIntegerTy(8)) { pushByte(q, p.reg, off, t, out, off.isConst() && keepsCells(q, p.reg) ? off.c : (Z)-1); continue; }
      v = freshOf(q, t);
      if (off.isConst() && v.k != AV::Top && keepsCells(q, p.reg)) q.reg(p.reg)->cells[off.c] = Cell{n, v};
      else if (v.k == AV::Int) remember(q, p.reg, off, n, v);
      out.push_back({q, v});
    }
  }
  // split q into lo<=d<=hi (callback) and the two outsides (appended to rest).
  // Accesses that straddle the block edge are not possible for aligned element accesses;
  // they are covered by the `outside` states using the exact (non-overlapping) bounds
  // when provable and otherwise treated as inside-unknown.
  template <class F> void splitRange(const State& q, const Lin& d, Z lo, Z hi, F f, std::vector<State>& rest, Z tsize, Z n) {
    { State in = q; in.p.addGE(d - Lin(lo)); in.p.addGE(Lin(hi) - d); if (!in.p.isBot()) f(in); }
    { State a = q; a.p.addGE(Lin(lo - 1) - d); if (!a.p.isBot()) rest.push_back(a); }
    { State b = q; b.p.addGE(d - Lin(hi + 1)); if (!b.p.isBot()) rest.push_back(b); }
  }
  void killOverlap(State& s, int reg, const Lin& off, const Lin& n, const BS* set = nullptr) {
    noteWrite(s, reg, off, n, set);
    Region* r = s.reg(reg);
    Lin o = s.p.norm(off), nn = s.p.norm(n);
    if (o.isConst() && nn.isConst()) {
      for (auto it = r->cells.begin(); it != r->cells.end();) {
        if (it->first < o.c + nn.c && o.c < it->first + it->second.size) it = r->cells.erase(it); else ++it;
      }
      eraseBg(r->bg, o.c, nn.c);
      return;
    }
    for (auto it = r->cells.begin(); it != r->cells.end();) {
      bool disj = s.p.entailsGE(Lin(it->first) - o - nn) || s.p.entailsGE(o - Lin(it->first + it->second.size));
      if (!disj) it = r->cells.erase(it); else ++it;
    }
    std::vector<Bg> nb;
    for (auto& b : r->bg) {
      if (s.p.entailsGE(Lin(b.off) - o - nn) || s.p.entailsGE(o - Lin(b.off + b.len))) nb.push_back(b);
      else {
        Z mn, mx; // keep the parts provably outside
        if (s.p.minOf(o, mn) && mn > b.off) nb.push_back(Bg{b.off, std::min(mn, b.off + b.len) - b.off, b.byte});
        if (s.p.maxOf(o + nn, mx) && mx < b.off + b.len) { Z st = std::max(mx, b.off); nb.push_back(Bg{st, b.off + b.len - st, b.byte}); }
      }
    }
    r->bg.swap(nb);
  }
  bool inTerminatorWrite(const State& s) {
    for (size_t i = s.frames.size(); i-- > 0 && i + 3 > s.frames.size();) if (s.frames[i]->fn && s.frames[i]->fn->getName().contains("13_M_set_lengthEm")) return true;
    return false;
  }
  void store(const State& s0, const AV& p, const AV& v, Type* t, const Instruction* I, std::vector<State>& out) {
    if (auto* st = dyn_cast<StructType>(t)) {
      const StructLayout* sl = DL.getStructLayout(st);
      std::vector<State> cur{s0};
      for (unsigned i = 0; i < st->getNumElements(); ++i) {
        std::vector<State> nx;
        for (auto& c : cur) {
          AV q = p; if (q.k == AV::Ptr) q.e = q.e + Lin((Z)(uint64_t)sl->getElementOffset(i).getFixedValue());
          store(c, q, v.k == AV::Agg ? (*v.agg)[i] : AV::top(), st->getElementType(i), I, nx);
        }
        cur.swap(nx);
      }
      for (auto& c : cur) out.push_back(c);
      return;
    }
    State s = s0; Z n = typeSize(t);
    if (!checkAccess(s, p, Lin(n), I, "write")) { if (!s.p.isBot()) out.push_back(s); return; }
    guardCheck(s, p, I, true);
    Lin off = s.p.norm(p.e);
    if (s.creg(p.reg)->kind == RK::Global && idGlobals.count(p.reg) && idGlobals[p.reg]->isConstant()) {
      obligation("bounds", "", s, I, false, "write to constant storage"); return;
    }
    std::vector<State> rest{s};
    size_t nt = s.creg(p.reg)->tracked.size();
    for (size_t ti = 0; ti < nt; ++ti) {
      std::vector<State> nrest;
      for (auto& q : rest) {
        const Tracked& T = q.creg(p.reg)->tracked[ti];
        Lin d = off - T.off; Z ts = T.size;
        splitRange(q, d, 1 - n, ts - 1, [&](State& in) {
          Lin dd = in.p.norm(d);
          Region* rr = in.reg(p.reg); Tracked& TT = rr->tracked[ti];
          if (!dd.isConst() || dd.c < 0 || dd.c + n > ts) { TT.cells.clear(); nrest.push_back(in); return; }
          for (auto it = TT.cells.begin(); it != TT.cells.end();) { if (it->first < dd.c + n && dd.c < it->first + it->second.size) it = TT.cells.erase(it); else ++it; }
          if (v.k != AV::Top) TT.cells[dd.c] = Cell{n, v};
          nrest.push_back(in);
        }, nrest, ts, n);
      }
      rest.swap(nrest);
    }
    for (auto& q : rest) {
      BS vs = valueSet(q, v, n);
      // terminators maintained by the C++ library lie outside the readable contents of a string
      if (n == 1 && v.k == AV::Int && v.e.isConst() && v.e.c == 0 && inTerminatorWrite(q)) vs = BS();
      killOverlap(q, p.reg, p.e, Lin(n), &vs);
      Lin o = q.p.norm(off);
      if (o.isConst() && v.k != AV::Top && keepsCells(q, p.reg)) q.reg(p.reg)->cells[o.c] = Cell{n, v};
      out.push_back(q);
    }
  }
  // make n bytes at p unknown (tracked blocks included)
  void havocRange(State& s, const AV& p, const Lin& n, const BS* set = nullptr) {
    if (p.k != AV::Ptr) return;
    Region* r = s.reg(p.reg); if (!r) return;
    killOverlap(s, p.reg, p.e, n, set); r = s.reg(p.reg);
    for (auto& T : r->tracked) {
      if (s.p.entailsGE(T.off - p.e - n) || s.p.entailsGE(p.e - T.off - Lin(T.size))) continue;
      T.cells.clear();
    }
  }
  void havocRegion(State& s, int reg) { Region* r = s.reg(reg); if (!r) return; r->cells.clear(); r->bg.clear(); r->anyByte = true; r->hasExcl = false; r->recent.clear(); for (auto& T : r->tracked) T.cells.clear(); }

  void memTransfer(const State& s0, const AV& d, const AV& sr, const Lin& n, const Instruction* I, std::vector<State>& out) {
    State s = s0;
    { State z = s; z.p.addEQ(n); // zero length: no access at all
      if (s.p.entailsEQ(n)) { out.push_back(s); return; }
      if (!n.isConst() && !z.p.isBot()) { State pz = s; pz.p.addGE(n - Lin(1)); if (!pz.p.isBot()) memTransfer(pz, d, sr, n, I, out); out.push_back(z); return; } }
    bool okS = checkAccess(s, sr, n, I, "block read"); if (s.p.isBot()) return;
    bool okD = checkAccess(s, d, n, I, "block write"); if (s.p.isBot()) return;
    if (okS) { s.p.addGE(sr.e); s.p.addGE(s.creg(sr.reg)->size - sr.e - n); guardCheck(s, sr, I, false); }
    if (okD) { s.p.addGE(d.e); s.p.addGE(s.creg(d.reg)->size - d.e - n); guardCheck(s, d, I, true); }
    if (!okD) { out.push_back(s); return; }
    if (!okS) { havocRange(s, d, n); out.push_back(s); return; }
    Lin so = s.p.norm(sr.e), dof = s.p.norm(d.e), nn = s.p.norm(n);
    Region src = *s.creg(sr.reg); // snapshot
    // destination tracked blocks
    std::vector<State> cur{s};
    size_t nt = s.creg(d.reg)->tracked.size();
    for (size_t ti = 0; ti < nt; ++ti) {
      std::vector<State> nx;
      for (auto& q : cur) {
        const Tracked T = q.creg(d.reg)->tracked[ti];
        Lin rel = T.off - dof; // inside if 0<=rel && rel+size<=n
        { State a = q; a.p.addGE(Lin(-1) - rel); if (!a.p.isBot()) { // starts before
            if (!a.p.entailsGE(-rel - Lin(T.size))) { State ov = a; ov.p.addGE(rel + Lin(T.size - 1)); if (!ov.p.isBot()) { ov.reg(d.reg)->tracked[ti].cells.clear(); nx.push_back(ov); } a.p.addGE(-rel - Lin(T.size)); }
            if (!a.p.isBot()) nx.push_back(a); } }
        { State b = q; b.p.addGE(rel - nn); if (!b.p.isBot()) nx.push_back(b); }
        { State o = q; o.p.addGE(rel); o.p.addGE(nn - rel - Lin(1)); o.p.addGE(rel + Lin(T.size - 1) - nn); if (!o.p.isBot()) { o.reg(d.reg)->tracked[ti].cells.clear(); nx.push_back(o); } }
        { State in = q; in.p.addGE(rel); in.p.addGE(nn - rel - Lin(T.size));
          if (!in.p.isBot()) {
            Lin srcOff = in.p.norm(so + rel);
            std::map<Z, Cell> nc; bool done = false;
            for (auto& ST : src.tracked) if (ST.size == T.size && in.p.entailsEQ(ST.off - srcOff)) { nc = ST.cells; done = true; break; }
            if (!done) {
              // maybe equal: split
              for (auto& ST : src.tracked) if (ST.size == T.size && !done) {
                State eq = in; eq.p.addEQ(ST.off - srcOff);
                if (!eq.p.isBot()) {
                  State e2 = eq; e2.reg(d.reg)->tracked[ti].cells = ST.cells; nx.push_back(e2);
                  State lt = in; lt.p.addGE(ST.off - srcOff - Lin(1)); if (!lt.p.isBot()) { lt.reg(d.reg)->tracked[ti].cells.clear(); nx.push_back(lt); }
                  State gt = in; gt.p.addGE(srcOff - ST.off - Lin(1)); if (!gt.p.isBot()) { gt.reg(d.reg)->tracked[ti].cells.clear(); nx.push_back(gt); }
                  done = true; nc.clear(); goto next;
                }
              }
              if (srcOff.isConst()) { for (auto& c : src.cells) if (c.first >= srcOff.c && c.first + c.second.size <= srcOff.c + T.size) nc[c.first - srcOff.c] = c.second; }
            }
            in.reg(d.reg)->tracked[ti].cells = nc; nx.push_back(in);
            next:;
          } }
      }
      cur.swap(nx);
    }
    BS srcSet = readSet(s, src, so, nn); if (srcSet.empty() || src.hasExcl) srcSet = BS::all();
    for (auto& q : cur) {
      killOverlap(q, d.reg, dof, nn, &srcSet);
      Lin dn = q.p.norm(dof), sn = q.p.norm(so), ln = q.p.norm(nn);
      if (dn.isConst() && sn.isConst() && ln.isConst() && keepsCells(q, d.reg)) {
        Region* r = q.reg(d.reg);
        for (auto& c : src.cells) if (c.first >= sn.c && c.first + c.second.size <= sn.c + ln.c) r->cells[c.first - sn.c + dn.c] = c.second;
        for (auto& b : src.bg) { Z a = std::max(b.off, sn.c), z = std::min(b.off + b.len, sn.c + ln.c); if (a < z) {
            bool clash = false; for (auto& c : src.cells) if (c.first < z && a < c.first + c.second.size) clash = true;
            (void)clash; r->bg.push_back(Bg{a - sn.c + dn.c, z - a, b.byte}); } }
      } else if (dn.isConst() && ln.isConst() && !src.tracked.empty() && keepsCells(q, d.reg)) {
        // copy out of a tracked block into plain storage
        for (auto& ST : src.tracked) if (q.p.entailsEQ(ST.off - so) && ST.size >= ln.c) {
          Region* r = q.reg(d.reg);
          for (auto& c : ST.cells) if (c.first + c.second.size <= ln.c) r->cells[c.first + dn.c] = c.second;
          break;
        }
      }
      out.push_back(q);
    }
  }

  // ---------- access log (lock discipline) ----------
  struct Acc { int tag; Z off, size; bool write, atomic; int held; std::string where, func; };
  std::map<std::string, Acc> accLog;
  int heldGlobal = -2, ghostGlobal = -2;
  int ghostConst(State& s, int& cache, const char* name) { // value of a harness ghost variable, -1 if unknown
    if (cache == -2) { auto* g = M.getNamedGlobal(name); cache = g ? globalReg(s, g) : -1; }
    if (cache < 0) return -1;
    if (!s.creg(cache)) globalReg(s, idGlobals[cache]);
    const Region* r = s.creg(cache);
    auto c = r->cells.find(0);
    if (c == r->cells.end()) { AV b = bgVal(*r, 0, 1); if (b.k == AV::Int && b.e.isConst()) return (int)b.e.c; return -1; }
    if (c->second.v.k == AV::Int) { Lin e = s.p.norm(c->second.v.e); if (e.isConst()) return (int)e.c; }
    return -1;
  }
  bool suppressed(State& s) { return M.getNamedGlobal("vfm_ghost") && ghostConst(s, ghostGlobal, "vfm_ghost") == 1; }
  void guardCheck(State& s, const AV& p, const Instruction* I, bool write) {
    if (mute) return;
    const Region* r = s.creg(p.reg); if (!r || !r->tag) return;
    if (suppressed(s)) return;
    Acc a; a.tag = r->tag; Lin o = s.p.norm(p.e); a.off = o.isConst() ? o.c : -1; a.size = 8; a.write = write;
    if (auto* l = dyn_cast<LoadInst>(I)) { a.size = typeSize(l->getType()); a.atomic = l->isAtomic(); }
    else if (auto* st = dyn_cast<StoreInst>(I)) { a.size = typeSize(st->getValueOperand()->getType()); a.atomic = st->isAtomic(); }
    else a.atomic = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I);
    a.held = ghostConst(s, heldGlobal, "vfm_held");
    auto stk = stackOf(s, I); a.where = stk.empty() ? "?" : stk[0];
    for (auto& e : stk) if (e.compare(0, opt.prefix.size(), opt.prefix) == 0) { a.where = e; break; }
    std::string k = std::to_string(a.tag) + ":" + zstr(a.off) + ":" + zstr(a.size) + (write ? "W" : "R") + (a.atomic ? "A" : "-") + std::to_string(a.held) + a.where;
    accLog[k] = a;
  }

  // ---------- canonical naming, keys, joins ----------
  struct Canon { std::vector<int> order; std::map<int, int> ix; };
  bool isHeapLike(const Region& r) const { return r.kind == RK::Heap || r.kind == RK::Sym || r.kind == RK::Exc; }
  void visitAV(const State& s, const AV& a, Canon& c, std::vector<int>& q) const {
    if (a.k == AV::Ptr && a.reg >= 100000) {
      if (!s.mem.count(a.reg)) return;
      if (!c.ix.count(a.reg)) { c.ix[a.reg] = (int)c.order.size(); c.order.push_back(a.reg); q.push_back(a.reg); }
    } else if (a.k == AV::Agg) for (auto& x : *a.agg) visitAV(s, x, c, q);
  }
  Canon canonOrder(const State& s) const {
    Canon c; std::vector<int> q;
    for (auto& f : s.frames) for (auto& e : f->env) visitAV(s, e.second, c, q);
    for (auto& m : s.mem) if (m.first < 100000) for (auto& x : m.second->cells) visitAV(s, x.second.v, c, q);
    for (size_t i = 0; i < q.size(); ++i) {
      auto& r = *s.mem.at(q[i]);
      for (auto& x : r.cells) visitAV(s, x.second.v, c, q);
      for (auto& t : r.tracked) for (auto& x : t.cells) visitAV(s, x.second.v, c, q);
    }
    for (auto& m : s.mem) if (m.first < 100000) for (auto& t : m.second->tracked) for (auto& x : t.cells) visitAV(s, x.second.v, c, q);
    return c;
  }
  void keyAV(const State& s, const AV& a, const Canon& c, Z size, std::string& k) const {
    switch (a.k) {
      case AV::Top: k += 'T'; break;
      case AV::Int: {
        if (size <= 1) { Lin e; try { e = s.p.norm(a.e); } catch (NumOverflow&) { k += 'I'; break; } if (e.isConst() && (e.c == 0 || e.c == 1)) { k += e.c ? '1' : '0'; break; } }
        k += 'I'; break;
      }
      case AV::Ptr:
        if (a.reg == 0) { k += 'N'; }
        else if (a.reg < 100000) { k += 'p'; k += std::to_string(s.mem.count(a.reg) ? a.reg : -1); }
        else { auto it = c.ix.find(a.reg); k += 'h'; k += it == c.ix.end() ? "D" : std::to_string(it->second); }
        break;
      case AV::Fn: { char b[32]; snprintf(b, sizeof b, "f%p", (const void*)a.fn); k += b; break; }
      case AV::Agg: k += '{'; for (auto& x : *a.agg) keyAV(s, x, c, 8, k); k += '}'; break;
    }
    k += ';';
  }
  std::set<int> tokens; // variables introduced by the harness: distinguish tracked contents
  void keyCell(const State& s, Z off, const Cell& cell, const Canon& c, bool noBool, std::string& k, bool tracked = false) const {
    const AV& a = cell.v;
    if (a.k == AV::Top) return;
    if (tracked && a.k == AV::Int) {
      Lin e; try { e = s.p.norm(a.e); } catch (NumOverflow&) { return; }
      k += zstr(off); k += '=';
      if (e.isConst() || (e.t.size() == 1 && tokens.count(e.t[0].first))) k += e.str(); else k += '?';
      k += ';'; return;
    }
    if (a.k == AV::Int) {
      if (noBool || cell.size > 1) return;
      Lin e; try { e = s.p.norm(a.e); } catch (NumOverflow&) { return; }
      if (!e.isConst() || (e.c != 0 && e.c != 1)) return;
    }
    k += zstr(off); k += ':'; keyAV(s, a, c, cell.size, k);
  }
  Z valSize(const Value* v) { Type* t = v->getType(); if (t->isIntegerTy()) return t->getIntegerBitWidth() <= 8 ? 1 : 8; return 8; }
  // position of live pointers relative to the tracked elements: kept apart at loop heads
  void orderKey(State& s, std::string& k) {
    std::vector<int> regs; for (auto& m : s.mem) if (!m.second->tracked.empty() || !m.second->ghosts.empty()) regs.push_back(m.first);
    if (regs.empty()) return;
    auto one = [&](const AV& a) {
      if (a.k != AV::Ptr) return; const Region* r = s.creg(a.reg); if (!r) return;
      std::vector<Lin> at; for (auto& T : r->tracked) at.push_back(T.off); for (auto& g : r->ghosts) at.push_back(g.off);
      for (auto& T : at) {
        Lin d; try { d = s.p.norm(a.e - T); } catch (NumOverflow&) { k += '?'; continue; }
        if (d.isConst()) { k += d.c < 0 ? '<' : d.c == 0 ? '=' : '>'; continue; }
        if (s.p.entailsGE(d)) k += s.p.entailsGE(d - Lin(1)) ? '>' : 'g'; else if (s.p.entailsGE(-d)) k += s.p.entailsGE(-d - Lin(1)) ? '<' : 'l'; else k += '?';
      }
    };
    { // pointers that move in step
      std::vector<const AV*> ps; const Frame& f = *s.frames.back();
      for (auto& e : f.env) if (e.second.k == AV::Ptr) { const Region* r = s.creg(e.second.reg); if (r && !r->tracked.empty()) ps.push_back(&e.second); }
      if (ps.size() <= 4) for (size_t i = 0; i < ps.size(); ++i) for (size_t j = i + 1; j < ps.size(); ++j) if (ps[i]->reg == ps[j]->reg) { Lin d; try { d = s.p.norm(ps[i]->e - ps[j]->e); } catch (NumOverflow&) { continue; } k += d.isConst() && d.c == 0 ? 'E' : 'e'; }
    }
    k += "O"; for (size_t fi = s.frames.size(); fi-- > (opt.orderAll ? 0 : s.frames.size() - 1);) { const Frame& f = *s.frames[fi];
      for (auto& e : f.env) one(e.second);
      for (int id : f.allocas) { const Region* r = s.creg(id); if (r) for (auto& c : r->cells) one(c.second.v); } }
  }
  std::string keyOf(State& s, const Instruction* at, Canon* outC = nullptr, bool loop = false) {
    Canon c = canonOrder(s);
    // leaked heap blocks
    for (auto it = s.mem.begin(); it != s.mem.end();) {
      if (it->first >= 100000 && !c.ix.count(it->first)) {
        if (it->second->kind == RK::Heap) {
          obligation("leak", "", s, at, false, "heap block allocated at " + locOf(dyn_cast_or_null<Instruction>(it->second->site)) + " becomes unreachable without being released");
        }
        it = s.mem.erase(it);
      } else ++it;
    }
    std::string k;
    for (auto& f : s.frames) { for (auto& e : f->env) keyAV(s, e.second, c, valSize(e.first), k); k += '|'; }
    auto regKey = [&](int id, const Region& r) {
      k += 'r'; if (id < 100000) k += std::to_string(id); 
      k += (char)('a' + (int)r.kind); if (r.tag) k += std::to_string(r.tag);
      if (r.ghostInit) k += 'G';
      k += std::to_string(r.tracked.size());
      bool bytes = false;
      if (auto* al = dyn_cast_or_null<AllocaInst>(r.site)) { Type* t = al->getAllocatedType(); while (t->isArrayTy()) { t = t->getArrayElementType(); bytes = true; } }
      auto textByte = [&](Z off) { auto it = r.cells.find(off); if (it == r.cells.end() || it->second.size != 1 || it->second.v.k != AV::Int) return false; // holds a character rather than a flag
        Lin e = s.p.norm(it->second.v.e); if (e.isConst()) return e.c != 0 && e.c != 1; return !s.p.entailsGE(Lin(1) - e); };
      for (auto& x : r.cells) keyCell(s, x.first, x.second, c, bytes || (x.second.size == 1 && (textByte(x.first - 1) || textByte(x.first + 1))), k);
      for (auto& t : r.tracked) { k += 't'; for (auto& x : t.cells) keyCell(s, x.first, x.second, c, false, k, true); }
      for (auto& g : r.ghosts) { k += 'g'; Lin e = s.p.norm(g.val.e); if (g.val.k == AV::Int && e.isConst()) k += zstr(e.c); else k += '?'; }
    };
    for (auto& m : s.mem) if (m.first < 100000) {
      auto& r = *m.second;
      if (r.kind == RK::Global && idGlobals.count(m.first) && idGlobals.at(m.first)->isConstant()) continue;
      regKey(m.first, r);
    }
    for (int id : c.order) regKey(id, *s.mem.at(id));
    orderKey(s, k);
    if (outC) *outC = c;
    return k;
  }
  void renameRegs(State& s, const std::map<int, int>& m) {
    bool idn = true; for (auto& x : m) if (x.first != x.second) idn = false;
    if (idn) return;
    std::function<void(AV&)> ra = [&](AV& a) {
      if (a.k == AV::Ptr) { auto it = m.find(a.reg); if (it != m.end()) a.reg = it->second; else if (a.reg >= 100000) a.reg = 99999999; }
      else if (a.k == AV::Agg) { auto v = *a.agg; for (auto& x : v) ra(x); a = AV::mkAgg(v); }
    };
    std::map<int, RP> nm;
    for (auto& x : s.mem) {
      auto r = std::make_shared<Region>(*x.second);
      for (auto& c : r->cells) ra(c.second.v);
      for (auto& t : r->tracked) for (auto& c : t.cells) ra(c.second.v);
      auto it = m.find(x.first);
      nm[it == m.end() ? x.first : it->second] = r;
    }
    s.mem.swap(nm);
    for (auto& f : s.frames) { auto g = std::make_shared<Frame>(*f); for (auto& e : g->env) ra(e.second); f = g; }
  }
  struct Unifier {
    Analysis* A; State *H, *N; Poly HP, NP; 
    std::map<std::pair<Lin, Lin>, int> memo; std::set<int> keep; bool differs = false, structural = false;
    // scale: keep a common divisor of both values (offsets into arrays of multi-byte elements)
    Lin slot(const Lin& a, const Lin& b, bool scale = false) {
      Lin x = H->p.norm(a), y = N->p.norm(b);
      if (scale && !(x == y)) {
        Z g = zgcd(zgcd(x.gcdCoefs(), x.c), zgcd(y.gcdCoefs(), y.c)); if (g < 0) g = -g;
        if (g > 1) { for (Lin* l : {&x, &y}) { l->c /= g; for (auto& p : l->t) p.second /= g; } return slot(x, y) * g; }
      }
      if (x == y) { for (auto& p : x.t) keep.insert(p.first); return x; }
      if (!x.isConst() && y.isConst() && N->p.norm(x) == y) { for (auto& p : x.t) keep.insert(p.first); differs = true; return x; }
      if (x.isConst() && !y.isConst() && H->p.norm(y) == x) { for (auto& p : y.t) keep.insert(p.first); differs = true; return y; }
      auto it = memo.find({x, y}); int g;
      if (it != memo.end()) g = it->second;
      else { g = A->fresh(); memo[{x, y}] = g; HP.addEQ(Lin::var(g) - x); NP.addEQ(Lin::var(g) - y); }
      keep.insert(g); differs = true;
      return Lin::var(g);
    }
    AV av(const AV& a, const AV& b, unsigned w = 0) {
      if (a.k == AV::Top) return AV::top();
      if (a.k == AV::Int && b.k == AV::Int && w >= 8 && w <= 64) { // a constant is written the way that suits the other side (unsigned or signed)
        Lin x = H->p.norm(a.e), y = N->p.norm(b.e);
        if (x.isConst() && x.c < 0 && !y.isConst() && N->p.entailsGE(y)) return AV::mkInt(slot(x + Lin(pow2(w)), y));
        if (y.isConst() && y.c < 0 && !x.isConst() && H->p.entailsGE(x)) return AV::mkInt(slot(x, y + Lin(pow2(w))));
      }
      if (a.k == AV::Int && b.k == AV::Int) return AV::mkInt(slot(a.e, b.e));
      if (a.k == AV::Ptr && b.k == AV::Ptr && a.reg == b.reg) return AV::mkPtr(a.reg, slot(a.e, b.e, true));
      if (a.k == AV::Fn && b.k == AV::Fn && a.fn == b.fn) return a;
      if (a.k == AV::Agg && b.k == AV::Agg && a.agg->size() == b.agg->size()) {
        std::vector<AV> v; for (size_t i = 0; i < a.agg->size(); ++i) v.push_back(av((*a.agg)[i], (*b.agg)[i])); return AV::mkAgg(v);
      }
      structural = true; return AV::top();
    }
    void cells(const std::map<Z, Cell>& a, const std::map<Z, Cell>& b, std::map<Z, Cell>& r) {
      for (auto& c : a) {
        auto it = b.find(c.first);
        if (it == b.end() || it->second.size != c.second.size) { structural = true; continue; }
        AV v = av(c.second.v, it->second.v, (unsigned)c.second.size * 8);
        if (v.k != AV::Top) r[c.first] = Cell{c.second.size, v};
      }
    }
    // builds joined skeleton in out
    void run(State& out) {
      HP = H->p; NP = N->p;
      out = State();
      for (size_t i = 0; i < H->frames.size(); ++i) {
        auto f = std::make_shared<Frame>(*H->frames[i]); f->env.clear();
        for (auto& e : H->frames[i]->env) {
          auto it = N->frames[i]->env.find(e.first);
          if (it == N->frames[i]->env.end()) { structural = true; continue; }
          AV v = av(e.second, it->second, e.first->getType()->isIntegerTy() ? e.first->getType()->getIntegerBitWidth() : 0); if (v.k != AV::Top) f->env[e.first] = v;
        }
        for (int id : N->frames[i]->allocas) if (std::find(f->allocas.begin(), f->allocas.end(), id) == f->allocas.end()) f->allocas.push_back(id);
        out.frames.push_back(f);
      }
      for (auto& m : H->mem) {
        auto it = N->mem.find(m.first);
        if (it == N->mem.end()) {
          if (m.second->kind == RK::Global) { out.mem[m.first] = m.second; continue; } // lazily materialised
          structural = true; continue;
        }
        if (m.second == it->second && m.second->cells.empty() && m.second->tracked.empty() && m.second->ghosts.empty() && m.second->recent.empty() && m.second->size.isConst() && !m.second->addrv) { out.mem[m.first] = m.second; continue; }
        const Region &a = *m.second, &b = *it->second;
        auto r = std::make_shared<Region>(); r->kind = a.kind; r->site = a.site; r->tag = a.tag; r->ghostInit = a.ghostInit; r->arrayNew = a.arrayNew; r->cstr = a.cstr;
        r->size = slot(a.size, b.size, true);
        if (a.addrv && b.addrv) { Lin l = slot(Lin::var(a.addrv), Lin::var(b.addrv)); if (l.t.size() == 1 && l.c == 0 && l.t[0].second == 1) r->addrv = l.t[0].first; }
        else if (a.addrv) structural = true;
        r->anyByte = a.anyByte || b.anyByte; if (b.anyByte && !a.anyByte) structural = true;
        if (!r->anyByte) { r->sets = a.sets; for (auto& g : b.sets) if (r->sets[g.first].merge(g.second)) structural = true; }
        if (a.hasExcl && b.hasExcl) { r->hasExcl = true; r->excl = slot(a.excl, b.excl); } else if (a.hasExcl) { structural = true; r->anyByte = true; }
        cells(a.cells, b.cells, r->cells);
        for (auto& x : a.bg) { bool same = false; for (auto& y : b.bg) if (x.off == y.off && x.len == y.len && x.byte == y.byte) same = true; if (same) r->bg.push_back(x); else structural = true; }
        if (a.bg.size() && a.bg.size() == b.bg.size() && r->bg.size() != a.bg.size()) r->bg.clear();
        for (size_t i = 0; i < a.recent.size(); ++i) {
          if (i >= b.recent.size() || a.recent[i].size != b.recent[i].size) { structural = true; break; }
          Tracked t; t.off = slot(a.recent[i].off, b.recent[i].off, true); t.size = a.recent[i].size; AV v = av(a.recent[i].cells.begin()->second.v, b.recent[i].cells.begin()->second.v);
          if (v.k == AV::Top) { structural = true; break; } t.cells[0] = Cell{t.size, v}; r->recent.push_back(t);
        }
        for (size_t i = 0; i < a.tracked.size() && i < b.tracked.size(); ++i) {
          Tracked t; t.off = slot(a.tracked[i].off, b.tracked[i].off, true); t.size = a.tracked[i].size;
          cells(a.tracked[i].cells, b.tracked[i].cells, t.cells); r->tracked.push_back(t);
        }
        for (size_t i = 0; i < a.ghosts.size() && i < b.ghosts.size(); ++i) {
          Ghost g; g.off = slot(a.ghosts[i].off, b.ghosts[i].off, true); g.val = av(a.ghosts[i].val, b.ghosts[i].val); r->ghosts.push_back(g);
        }
        out.mem[m.first] = r;
      }
      for (auto& m : N->mem) if (!H->mem.count(m.first) && m.second->kind == RK::Global) out.mem[m.first] = m.second;
    }
  };
  void mapOnto(State& H, State& N) { // rename heap blocks of N to the names used in H
    Canon ch = canonOrder(H), cn = canonOrder(N);
    std::map<int, int> m;
    for (size_t i = 0; i < cn.order.size() && i < ch.order.size(); ++i) m[cn.order[i]] = ch.order[i];
    for (size_t i = ch.order.size(); i < cn.order.size(); ++i) m[cn.order[i]] = nextReg++;
    renameRegs(N, m);
  }
  // constants the current function compares with
  std::map<const Function*, std::set<Z>> thr;
  const std::set<Z>& thresholds(const State& s) {
    const Function* F = s.frames.empty() ? nullptr : s.frames.back()->fn;
    auto it = thr.find(F); if (it != thr.end()) return it->second;
    auto& t = thr[F]; t = {-1, 0, 1, 127, 255, pow2(31) - 1, pow2(32) - 1, pow2(62), pow2(63) - 2, pow2(63) - 1};
    if (F) for (auto& I : instructions(*F)) if (isa<ICmpInst>(I)) for (auto& o : I.operands()) if (auto* c = dyn_cast<ConstantInt>(o)) if (c->getBitWidth() <= 64) { Z v = (Z)c->getSExtValue(); t.insert(v); t.insert(v - 1); t.insert(v + 1); }
    return t;
  }
  // H := H join N. returns true if changed (N not included in H)
  bool joinInto(State& H, State N, bool widen, bool allowInclusion) {
    if (N.p.isBot()) return false;
    if (H.p.isBot()) { H = N; return true; }
    mapOnto(H, N);
    Unifier u{this, &H, &N}; State out; u.run(out);
    u.HP.project(u.keep); u.NP.project(u.keep);
    if (allowInclusion && !u.structural) {
      bool inc = true;
      for (auto& e : u.HP.equalities()) if (!u.NP.entailsEQ(e)) { inc = false; break; }
      if (inc) for (auto& e : u.HP.ineq) if (!u.NP.entailsGE(e)) { inc = false; break; }
      if (inc) return false;
    }
    std::vector<int> live(u.keep.begin(), u.keep.end());
    ++nJoin; if (widen) ++nWiden;
    // the octagonal template is only useful among variables that actually vary
    std::vector<Lin> facts;
    if (widen) {
      auto fp = [&](const AV& a) { if (a.k == AV::Ptr && !a.e.isConst()) if (auto* r = out.creg(a.reg)) { facts.push_back(a.e); facts.push_back(r->size - a.e); for (auto& T : r->tracked) for (int d : {1, 0}) { facts.push_back(T.off - a.e - Lin(d)); facts.push_back(a.e - T.off - Lin(d)); } for (auto& T : r->ghosts) for (int d : {1, 0}) { facts.push_back(T.off - a.e - Lin(d)); facts.push_back(a.e - T.off - Lin(d)); } } };
      for (auto& f : out.frames) for (auto& e : f->env) fp(e.second);
      for (auto& m : out.mem) for (auto& c : m.second->cells) fp(c.second.v);
      for (auto& m : out.mem) if (!m.second->size.isConst()) for (auto& f : {m.second->size - Lin(1), m.second->size, Lin(pow2(63) - 1) - m.second->size}) facts.push_back(f);
    }
    std::vector<Lin> hints; // distances between values the current function works with
    if (!out.frames.empty()) {
      std::vector<const AV*> vs; for (auto& e : out.frames.back()->env) if ((e.second.k == AV::Ptr && out.creg(e.second.reg)) || e.second.k == AV::Int) vs.push_back(&e.second);
      if (vs.size() <= 10) for (size_t i = 0; i < vs.size(); ++i) for (size_t j = i + 1; j < vs.size(); ++j) if (vs[i]->k == vs[j]->k && (vs[i]->k == AV::Int || vs[i]->reg == vs[j]->reg)) {
        Lin d = vs[i]->e - vs[j]->e; d.c = 0; Z g = d.gcdCoefs(); if (g > 1) for (auto& q : d.t) q.second /= g;
        if (d.t.size() >= 3 && d.t.size() <= 6) hints.push_back(d);
      }
    }
    out.p = polyJoin(u.HP, u.NP, live, widen, hints, true, widen ? &thresholds(out) : nullptr, &facts);
    if (getenv("VFDBG")) std::cerr << "JOIN" << (widen ? "W" : "") << "\n H " << u.HP.str() << "\n N " << u.NP.str() << "\n R " << out.p.str() << "\n " << (getenv("VFDBG")[0] == '2' ? dumpState(out) : std::string()) << "\n";
    H = out;
    return true;
  }
  // included: N subset of H (same key)
  bool included(State H, State N) {
    if (N.p.isBot()) return true;
    mapOnto(H, N);
    Unifier u{this, &H, &N}; State out; u.run(out);
    if (u.structural) return false;
    u.HP.project(u.keep); u.NP.project(u.keep);
    for (auto& e : u.HP.equalities()) if (!u.NP.entailsEQ(e)) return false;
    for (auto& e : u.HP.ineq) if (!u.NP.entailsGE(e)) return false;
    return true;
  }
  // how much precision a join of the two states would give up (0: one contains the other)
  int joinCost(State H, State N) {
    mapOnto(H, N);
    Unifier u{this, &H, &N}; State out; u.run(out);
    u.HP.project(u.keep); u.NP.project(u.keep);
    int a = 0, b = 0; int st = u.structural ? 4 : 0;
    std::set<int> imp; // facts about the watched positions weigh more
    for (auto& m : out.mem) { for (auto& g : m.second->ghosts) for (auto& q : g.off.t) imp.insert(q.first); for (auto& g : m.second->tracked) for (auto& q : g.off.t) imp.insert(q.first); }
    auto wt = [&](const Lin& e) { for (auto& q : e.t) if (imp.count(q.first)) return 4; return 1; };
    for (auto& e : u.HP.equalities()) if (!u.NP.entailsEQ(e)) a += 2 * wt(e);
    for (auto& e : u.HP.ineq) if (!u.NP.entailsGE(e)) a += wt(e);
    if (!a && !st) return 0;
    for (auto& e : u.NP.equalities()) if (!u.HP.entailsEQ(e)) b += 2 * wt(e);
    for (auto& e : u.NP.ineq) if (!u.HP.entailsGE(e)) b += wt(e);
    if (!b && !st) return 0;
    return st + a + b;
  }
  void reduceGroup(std::vector<State>& L, int K) {
    while ((int)L.size() > std::max(14, 2 * K)) { // neighbours come from neighbouring paths
      std::vector<State> M;
      for (size_t i = 0; i < L.size(); i += 2) { if (i + 1 < L.size()) joinInto(L[i], L[i + 1], false, true); M.push_back(L[i]); }
      L.swap(M);
    }
    std::vector<std::vector<int>> c(L.size(), std::vector<int>(L.size(), 0));
    for (size_t i = 0; i < L.size(); ++i) for (size_t j = i + 1; j < L.size(); ++j) c[i][j] = joinCost(L[i], L[j]);
    while (true) {
      size_t bi = 0, bj = 0; int best = 1 << 30;
      for (size_t i = 0; i < L.size(); ++i) for (size_t j = i + 1; j < L.size(); ++j) if (c[i][j] < best) { best = c[i][j]; bi = i; bj = j; }
      if (best == 1 << 30 || (best > 0 && (int)L.size() <= K)) break;
      joinInto(L[bi], L[bj], false, true); L.erase(L.begin() + bj);
      c.erase(c.begin() + bj); for (auto& r : c) r.erase(r.begin() + bj);
      for (size_t j = 0; j < L.size(); ++j) if (j != bi) { int x = joinCost(L[std::min(bi, j)], L[std::max(bi, j)]); c[std::min(bi, j)][std::max(bi, j)] = x; }
    }
  }
  void gc(State& s) { // drop constraints on variables nobody mentions
    std::set<int> all; s.p.allVars(all);
    if (all.size() < 24) return;
    std::set<int> keep;
    auto add = [&](const Lin& l) { Lin n = s.p.norm(l); for (auto& p : n.t) keep.insert(p.first); for (auto& p : l.t) keep.insert(p.first); };
    std::function<void(const AV&)> av = [&](const AV& a) { if (a.k == AV::Int || a.k == AV::Ptr) add(a.e); else if (a.k == AV::Agg) for (auto& x : *a.agg) av(x); };
    for (auto& f : s.frames) for (auto& e : f->env) av(e.second);
    for (auto& m : s.mem) { auto& r = *m.second; add(r.size); if (r.addrv) keep.insert(r.addrv); for (auto& c : r.cells) av(c.second.v); for (auto& t : r.tracked) { add(t.off); for (auto& c : t.cells) av(c.second.v); } for (auto& g : r.ghosts) { add(g.off); av(g.val); } if (r.hasExcl) add(r.excl); for (auto& t : r.recent) { add(t.off); for (auto& c : t.cells) av(c.second.v); } }
    s.p.project(keep);
    s.p.reduce();
  }
  void mergeList(std::vector<State>& v, int K, const Instruction* at, bool loop = false) {
    if (v.size() <= 1) return;
    std::vector<std::pair<std::string, std::vector<State>>> groups; std::map<std::string, size_t> ix;
    for (auto& s : v) {
      if (s.p.isBot()) continue;
      std::string k = keyOf(s, at, nullptr, loop);
      auto it = ix.find(k);
      if (it == ix.end()) { ix[k] = groups.size(); groups.push_back({k, {s}}); }
      else groups[it->second].second.push_back(s);
    }
    v.clear();
    for (auto& g : groups) {
      auto& L = g.second;
      if ((int)L.size() > K && K == 1) {
        State acc = L[0];
        for (size_t i = 1; i < L.size(); ++i) joinInto(acc, L[i], false, true);
        v.push_back(acc);
      } else if ((int)L.size() > K) {
        reduceGroup(L, K); for (auto& s : L) v.push_back(s);
      } else if (L.size() > 1) {
        // drop states subsumed by another one
        std::vector<State> keep;
        for (size_t i = 0; i < L.size(); ++i) {
          bool sub = false;
          for (auto& k : keep) if (included(k, L[i])) { sub = true; break; }
          if (!sub) keep.push_back(L[i]);
        }
        for (auto& s : keep) v.push_back(s);
      } else v.push_back(L[0]);
    }
    maxSeen = std::max<long>(maxSeen, v.size());
    if ((int)v.size() > opt.maxStates) {
      // coarse merge: forget distinguishing cells by pairwise structural join
      while ((int)v.size() > opt.maxStates / 2) {
        State a = v.back(); v.pop_back();
        bool done = false;
        for (auto& b : v) if (canonOrder(a).order.size() == canonOrder(b).order.size()) { joinInto(b, a, false, false); done = true; break; }
        if (!done) { joinInto(v[0], a, false, false); }
      }
    }
  }

  // ---------- function info ----------
  struct FnInfo {
    std::unique_ptr<DominatorTree> dt; std::unique_ptr<LoopInfo> li;
    std::vector<const BasicBlock*> rpo; std::map<const BasicBlock*, int> num;
    std::map<const BasicBlock*, std::set<const Value*>> liveIn;
    std::map<const Instruction*, std::set<const Value*>> liveAfter;
  };
  std::map<const Function*, std::unique_ptr<FnInfo>> infos;
  static bool isTrackedVal(const Value* v) { return isa<Instruction>(v) || isa<Argument>(v); }
  FnInfo& info(const Function* F) {
    auto& p = infos[F]; if (p) return *p;
    p = std::make_unique<FnInfo>(); FnInfo& f = *p;
    f.dt = std::make_unique<DominatorTree>(*const_cast<Function*>(F)); f.li = std::make_unique<LoopInfo>(*f.dt);
    std::set<const BasicBlock*> seen; std::vector<const BasicBlock*> post;
    // RPO with explicit stack
    std::vector<std::pair<const BasicBlock*, int>> st; st.push_back({&F->getEntryBlock(), 0}); seen.insert(&F->getEntryBlock());
    while (!st.empty()) {
      auto& [b, i] = st.back(); const Instruction* T = b->getTerminator();
      if (i < (int)T->getNumSuccessors()) { const BasicBlock* n = T->getSuccessor(i++); if (seen.insert(n).second) st.push_back({n, 0}); }
      else { post.push_back(b); st.pop_back(); }
    }
    f.rpo.assign(post.rbegin(), post.rend());
    for (size_t i = 0; i < f.rpo.size(); ++i) f.num[f.rpo[i]] = i;
    // liveness
    bool ch = true;
    while (ch) {
      ch = false;
      for (auto b : post) {
        std::set<const Value*> live;
        for (auto s : successors(b)) {
          for (auto v : f.liveIn[s]) live.insert(v);
          for (auto& ph : s->phis()) { live.erase(&ph); }
        }
        for (auto s : successors(b)) for (auto& ph : s->phis()) { const Value* v = ph.getIncomingValueForBlock(b); if (isTrackedVal(v)) live.insert(v); }
        for (auto it = b->rbegin(); it != b->rend(); ++it) {
          live.erase(&*it);
          if (isa<PHINode>(*it)) continue;
          for (auto& op : it->operands()) if (isTrackedVal(op)) live.insert(op);
        }
        for (auto& ph : b->phis()) live.erase(&ph);
        if (live != f.liveIn[b]) { f.liveIn[b] = live; ch = true; }
      }
    }
    for (auto b : f.rpo) {
      std::set<const Value*> live;
      for (auto s : successors(b)) { for (auto v : f.liveIn[s]) live.insert(v); for (auto& ph : s->phis()) live.erase(&ph); }
      for (auto s : successors(b)) for (auto& ph : s->phis()) { const Value* v = ph.getIncomingValueForBlock(b); if (isTrackedVal(v)) live.insert(v); }
      for (auto it = b->rbegin(); it != b->rend(); ++it) {
        if (isa<CallBase>(*it)) { auto l = live; l.erase(&*it); f.liveAfter[&*it] = l; }
        live.erase(&*it);
        for (auto& op : it->operands()) if (isTrackedVal(op)) live.insert(op);
      }
    }
    return f;
  }

  // ---------- activation ----------
  struct Out { std::vector<std::pair<State, AV>> ret; std::vector<State> unw; };
  struct Act {
    const Function* F; FnInfo* fi; Out out;
    std::map<const BasicBlock*, std::vector<State>> inc;
    struct LoopCtx { const Loop* L; bool final; std::vector<State> back; };
    std::vector<LoopCtx> loops;
  };
  std::vector<std::string> callDepthNames;

  void deposit(Act& A, const BasicBlock* from, const BasicBlock* to, State s) {
    if (s.p.isBot()) return;
    // phis
    Frame& f = s.top();
    std::vector<std::pair<const Value*, AV>> nv;
    for (auto& ph : to->phis()) nv.push_back({&ph, val(s, ph.getIncomingValueForBlock(from))});
    auto& live = A.fi->liveIn[to];
    Frame& f2 = s.top(); (void)f;
    for (auto it = f2.env.begin(); it != f2.env.end();) { if (!live.count(it->first)) it = f2.env.erase(it); else ++it; }
    for (auto& x : nv) if (x.second.k != AV::Top) f2.env[x.first] = x.second; else {
        if (x.first->getType()->isIntegerTy()) f2.env[x.first] = freshOf(s, x.first->getType()); }
    for (int i = (int)A.loops.size() - 1; i >= 0; --i) {
      auto& lc = A.loops[i];
      if (lc.L->getHeader() == to) { lc.back.push_back(s); return; }
      if (!lc.L->contains(to)) { if (!lc.final) return; continue; }
      break;
    }
    A.inc[to].push_back(s);
  }
  bool exitsDropped(Act& A) { for (auto& l : A.loops) if (!l.final) return true; return false; }

  void runRegion(Act& A, const Loop* L) { // all blocks of L (or function), RPO order
    for (auto b : A.fi->rpo) {
      if (L && !L->contains(b)) continue;
      const Loop* inner = A.fi->li->getLoopFor(b);
      // find child of L containing b
      if (inner != L) {
        const Loop* c = inner; while (c && c->getParentLoop() != L) c = c->getParentLoop();
        if (!c) continue;
        if (c->getHeader() == b) runLoop(A, c);
        continue;
      }
      if (L && b == L->getHeader()) continue; // handled by runLoop
      auto it = A.inc.find(b); if (it == A.inc.end()) continue;
      std::vector<State> v; v.swap(it->second); A.inc.erase(it);
      mergeList(v, opt.K, &b->front());
      for (auto& s : v) runBlock(A, b, s);
    }
  }
  void forgetReads(std::vector<State>& v) { for (auto& s : v) for (auto& m : s.mem) if (!m.second->recent.empty()) s.reg(m.first)->recent.clear(); }
  void runLoop(Act& A, const Loop* L) {
    const BasicBlock* h = L->getHeader();
    auto it = A.inc.find(h); if (it == A.inc.end()) return;
    std::vector<State> entry; entry.swap(it->second); A.inc.erase(it);
    const int peelK = opt.small ? opt.K : 1;
    forgetReads(entry); mergeList(entry, peelK, &h->front(), true);
    struct P { std::string key; State s; int joins = 0; };
    std::vector<P> H;
    for (auto& s : entry) { P p; p.key = keyOf(s, &h->front(), nullptr, true); p.s = s; H.push_back(p); }
    auto pass = [&](std::vector<State>& heads, bool final) {
      A.loops.push_back({L, final, {}});
      if (!final) ++mute;
      for (auto& s : heads) runBlock(A, h, s);
      runRegion(A, L);
      if (!final) --mute;
      std::vector<State> back; back.swap(A.loops.back().back); A.loops.pop_back();
      return back;
    };
    int iter = 0;
    for (int pl = 0; pl < opt.peel; ++pl) { // first iteration(s) on their own
      std::vector<State> heads; for (auto& p : H) heads.push_back(p.s);
      entry = pass(heads, true); forgetReads(entry);
      mergeList(entry, peelK, &h->front(), true);
      H.clear();
      for (auto& s : entry) { P p; p.key = keyOf(s, &h->front(), nullptr, true); p.s = s; H.push_back(p); }
      if (H.empty()) return;
    }
    while (true) {
      ++iter;
      std::vector<State> heads; for (auto& p : H) heads.push_back(p.s);
      auto back = pass(heads, false); forgetReads(back);
      bool changed = false;
      mergeList(back, 1, &h->front(), true);
      for (auto& b : back) {
        if (b.p.isBot()) continue;
        std::string k = keyOf(b, &h->front(), nullptr, true);
        P* m = nullptr; for (auto& p : H) if (p.key == k) { m = &p; break; }
        if (!m && iter > 8) { bool in = false; for (auto& p : H) if (included(p.s, b)) { in = true; break; } if (in) continue; }
        if (!m) {
          if ((int)H.size() >= opt.maxStates) { m = &H[0]; if (joinInto(m->s, b, true, false)) { changed = true; m->joins++; m->key = keyOf(m->s, &h->front(), nullptr, true); } continue; }
          P p; p.key = k; p.s = b; H.push_back(p); changed = true; continue;
        }
        bool w = m->joins >= opt.joinIters;
        if (m->joins > 40) { m->s.p = Poly(); m->joins++; continue; }
        if (joinInto(m->s, b, w, m->joins > 0)) { m->joins++; changed = true; std::string nk = keyOf(m->s, &h->front(), nullptr, true); m->key = nk; }
      }
      // partitions whose keys became equal are merged
      for (size_t i = 0; i < H.size(); ++i) for (size_t j = i + 1; j < H.size();) if (H[i].key == H[j].key) { joinInto(H[i].s, H[j].s, true, false); H[i].joins = std::max(H[i].joins, H[j].joins) + 1; H[i].key = keyOf(H[i].s, &h->front(), nullptr, true); H.erase(H.begin() + j); changed = true; } else ++j;
      if (opt.trace) { std::cerr << "loop " << locOf(&h->front()) << " in " << fname(A.F) << " iter " << iter << " parts " << H.size() << "\n"; if (opt.dump) for (auto& p : H) std::cerr << dumpState(p.s) << "\n"; }
      if (!changed) break;
      if (iter > 60) { std::cerr << "fixpoint not reached in " << fname(A.F) << "\n"; exit(3); }
    }
    // one descending step
    std::vector<State> heads;
    {
      std::vector<State> hs; for (auto& p : H) hs.push_back(p.s);
      auto back = pass(hs, false); forgetReads(back);
      std::vector<State> all = entry; for (auto& b : back) all.push_back(b);
      mergeList(all, 1, &h->front(), true);
      for (auto& s : all) {
        std::string k = keyOf(s, &h->front(), nullptr, true); bool used = false;
        for (auto& p : H) if (p.key == k) { if (included(p.s, s)) heads.push_back(s); else heads.push_back(p.s); used = true; break; }
        if (!used) heads.push_back(s);
      }
    }
    auto back = pass(heads, true);
  }

  void runBlock(Act& A, const BasicBlock* b, State s0) {
    ++nBlocks;
    struct Item { State s; BasicBlock::const_iterator it; };
    std::vector<Item> work; 
    gc(s0);
    BasicBlock::const_iterator first = b->begin(); while (isa<PHINode>(*first)) ++first;
    work.push_back({std::move(s0), first});
    while (!work.empty()) {
      Item it = std::move(work.back()); work.pop_back();
      while (true) {
        if (++steps > opt.maxSteps) { std::cerr << "step budget exhausted\n"; exit(3); }
        const Instruction& I = *it.it;
        if (I.isTerminator() && !isa<InvokeInst>(I)) { terminator(A, b, I, it.s); break; }
        std::vector<State> outs;
        if (auto* inv = dyn_cast<InvokeInst>(&I)) {
          Out o; doCall(*inv, it.s, o);
          for (auto& r : o.ret) { if (!inv->getType()->isVoidTy()) set(r.first, inv, r.second); deposit(A, b, inv->getNormalDest(), r.first); }
          for (auto& u : o.unw) deposit(A, b, inv->getUnwindDest(), u);
          break;
        }
        if (auto* c = dyn_cast<CallInst>(&I)) {
          Out o; doCall(*c, it.s, o);
          for (auto& r : o.ret) { if (!c->getType()->isVoidTy()) set(r.first, c, r.second); outs.push_back(r.first); }
          if (!o.unw.empty() && !exitsDropped(A)) for (auto& u : o.unw) A.out.unw.push_back(u);
        } else step(I, it.s, outs);
        if (outs.empty()) break;
        auto nx = std::next(it.it);
        for (size_t i = 1; i < outs.size(); ++i) if (!outs[i].p.isBot()) work.push_back({outs[i], nx});
        it.s = std::move(outs[0]); it.it = nx;
        if (it.s.p.isBot()) break;
      }
    }
  }
  // truth value split of an i1 expression
  void splitBool(const State& s, const AV& c, std::vector<State>& t, std::vector<State>& f) {
    if (c.k == AV::Int) {
      Lin e = s.p.norm(c.e);
      if (e.isConst()) { if ((e.c & 1)) t.push_back(s); else f.push_back(s); return; }
      State a = s; a.p.addEQ(e - Lin(1)); if (!a.p.isBot()) t.push_back(a);
      State b = s; b.p.addEQ(e); if (!b.p.isBot()) f.push_back(b);
      return;
    }
    t.push_back(s); f.push_back(s);
  }
  void terminator(Act& A, const BasicBlock* b, const Instruction& I, State& s) {
    if (auto* br = dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) { deposit(A, b, br->getSuccessor(0), s); return; }
      std::vector<State> t, f; splitBool(s, val(s, br->getCondition()), t, f);
      for (auto& x : t) deposit(A, b, br->getSuccessor(0), x);
      for (auto& x : f) deposit(A, b, br->getSuccessor(1), x);
      return;
    }
    if (auto* sw = dyn_cast<SwitchInst>(&I)) {
      unsigned w = width(sw->getCondition()->getType());
      AV c = val(s, sw->getCondition());
      Lin e0 = asInt(s, c, w);
      std::vector<std::pair<State, Lin>> cs; canon(s, e0, w, true, cs);
      for (auto& q : cs) {
        std::vector<Z> vals;
        for (auto& k : sw->cases()) {
          Z v = (Z)k.getCaseValue()->getSExtValue(); vals.push_back(v);
          State t = q.first; t.p.addEQ(q.second - Lin(v)); if (!t.p.isBot()) deposit(A, b, k.getCaseSuccessor(), t);
        }
        std::sort(vals.begin(), vals.end());
        Z lo = -pow2(w - 1);
        for (size_t i = 0; i <= vals.size(); ++i) {
          Z hi = i < vals.size() ? vals[i] - 1 : pow2(w - 1) - 1;
          if (lo <= hi) { State t = q.first; t.p.addGE(q.second - Lin(lo)); t.p.addGE(Lin(hi) - q.second); if (!t.p.isBot()) deposit(A, b, sw->getDefaultDest(), t); }
          if (i < vals.size()) lo = vals[i] + 1;
        }
      }
      return;
    }
    if (auto* r = dyn_cast<ReturnInst>(&I)) {
      if (exitsDropped(A)) return;
      AV v; if (r->getReturnValue()) v = val(s, r->getReturnValue());
      A.out.ret.push_back({s, v}); return;
    }
    if (isa<ResumeInst>(I)) { if (!exitsDropped(A)) A.out.unw.push_back(s); return; }
    if (isa<UnreachableInst>(I)) { return; }
    unmodelled.insert(std::string("terminator ") + I.getOpcodeName());
  }
  // comparison a (pred) b on integers of width w; outputs states with truth value
  void cmpInt(const State& s, CmpInst::Predicate p, const Lin& a, const Lin& b, unsigned w, std::vector<std::pair<State, int>>& out) {
    bool sgn = CmpInst::isSigned(p);
    std::vector<std::pair<State, std::pair<Lin, Lin>>> prs;
    if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) {
      // identical expressions modulo 2^w
      Lin d = s.p.norm(a - b);
      if (d.isConst()) { bool eq = (d.c % pow2(w)) == 0; out.push_back({s, (eq == (p == CmpInst::ICMP_EQ)) ? 1 : 0}); return; }
      // pick a signedness in which both are already canonical
      auto inR = [&](const Lin& e, bool sg) { Z lo = sg ? -pow2(w - 1) : 0, hi = sg ? pow2(w - 1) - 1 : pow2(w) - 1; return s.p.entailsGE(e - Lin(lo)) && s.p.entailsGE(Lin(hi) - e); };
      auto okConst = [&](const Lin& e, bool sg) { Lin n = s.p.norm(e); return n.isConst() || inR(e, sg); };
      if (okConst(a, false) && okConst(b, false)) sgn = false;
      else if (okConst(a, true) && okConst(b, true)) sgn = true;
      else {
        // difference strictly inside (-2^w, 2^w) already decides congruence
        Z mn, mx; if (s.p.minOf(d, mn) && s.p.maxOf(d, mx) && mn > -pow2(w) && mx < pow2(w)) { prs.push_back({s, {a, b}}); }
      }
    }
    if (prs.empty()) {
      std::vector<std::pair<State, Lin>> ca; canon(s, a, w, sgn, ca);
      for (auto& x : ca) { std::vector<std::pair<State, Lin>> cb; canon(x.first, b, w, sgn, cb); for (auto& y : cb) prs.push_back({y.first, {x.second, y.second}}); }
    }
    for (auto& q : prs) {
      Lin x = q.second.first, y = q.second.second; const State& st = q.first;
      auto add = [&](const Lin& ge, int truth) { State t = st; t.p.addGE(ge); if (!t.p.isBot()) out.push_back({t, truth}); };
      switch (p) {
        case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: {
          int te = p == CmpInst::ICMP_EQ;
          { State t = st; t.p.addEQ(x - y); if (!t.p.isBot()) out.push_back({t, te}); }
          add(x - y - Lin(1), !te); add(y - x - Lin(1), !te); break;
        }
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: add(y - x - Lin(1), 1); add(x - y, 0); break;
        case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: add(y - x, 1); add(x - y - Lin(1), 0); break;
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: add(x - y - Lin(1), 1); add(y - x, 0); break;
        case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: add(x - y, 1); add(y - x - Lin(1), 0); break;
        default: out.push_back({st, 1}); out.push_back({st, 0});
      }
    }
  }
  void doICmp(const Instruction* I, CmpInst::Predicate p, State& s, const AV& a, const AV& b, Type* t, std::vector<State>& outs) {
    auto put = [&](State st, int v) { set(st, I, AV::mkInt(Lin(v))); outs.push_back(st); };
    if (t->isPointerTy()) {
      if (a.k == AV::Fn || b.k == AV::Fn) {
        if (a.k == AV::Fn && b.k == AV::Fn) { bool eq = a.fn == b.fn; put(s, p == CmpInst::ICMP_EQ ? eq : p == CmpInst::ICMP_NE ? !eq : 0); return; }
        const AV& o = a.k == AV::Fn ? b : a;
        if (o.k == AV::Ptr) { put(s, p == CmpInst::ICMP_NE); return; }
        put(s, 1); put(s, 0); return;
      }
      if (a.k != AV::Ptr || b.k != AV::Ptr) { put(s, 1); put(s, 0); return; }
      if (a.reg == b.reg) {
        std::vector<std::pair<State, int>> o;
        CmpInst::Predicate sp = CmpInst::isEquality(p) ? p : CmpInst::getSignedPredicate(p);
        Lin x = a.e, y = b.e;
        // offsets are mathematical: compare directly
        State st = s; Lin d = st.p.norm(x - y);
        auto add = [&](const Lin& ge, int truth) { State t2 = s; t2.p.addGE(ge); if (!t2.p.isBot()) put(t2, truth); };
        switch (sp) {
          case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: { int te = sp == CmpInst::ICMP_EQ; State t2 = s; t2.p.addEQ(d); if (!t2.p.isBot()) put(t2, te); add(d - Lin(1), !te); add(-d - Lin(1), !te); break; }
          case CmpInst::ICMP_SLT: add(-d - Lin(1), 1); add(d, 0); break;
          case CmpInst::ICMP_SLE: add(-d, 1); add(d - Lin(1), 0); break;
          case CmpInst::ICMP_SGT: add(d - Lin(1), 1); add(-d, 0); break;
          case CmpInst::ICMP_SGE: add(d, 1); add(-d - Lin(1), 0); break;
          default: put(s, 1); put(s, 0);
        }
        return;
      }
      // different objects
      if (p == CmpInst::ICMP_EQ) { put(s, 0); return; }
      if (p == CmpInst::ICMP_NE) { put(s, 1); return; }
      if (a.reg == 0 || b.reg == 0) { // null compares below everything
        bool aNull = a.reg == 0;
        bool lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE;
        put(s, (lt == aNull) ? 1 : 0); return;
      }
      if (s.creg(a.reg) && s.creg(b.reg)) { // distinct live blocks do not overlap: order them by address
        Lin A = addrOf(s, a.reg), B = addrOf(s, b.reg); Lin sa = s.creg(a.reg)->size, sb = s.creg(b.reg)->size;
        bool lt = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE;
        bool strict = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SGT;
        for (int o = 0; o < 2; ++o) {
          State st = s; if (o == 0) st.p.addGE(B - A - sa); else st.p.addGE(A - B - sb);
          if (st.p.isBot()) continue;
          Lin d = lt ? (B + b.e) - (A + a.e) : (A + a.e) - (B + b.e); // true iff d > 0 (strict) or d >= 0
          State t1 = st; t1.p.addGE(strict ? d - Lin(1) : d); if (!t1.p.isBot()) put(t1, 1);
          State t0 = st; t0.p.addGE(strict ? -d : -d - Lin(1)); if (!t0.p.isBot()) put(t0, 0);
        }
        return;
      }
      put(s, 1); put(s, 0); return;
    }
    if (!t->isIntegerTy()) { put(s, 1); put(s, 0); return; }
    unsigned w = t->getIntegerBitWidth();
    Lin x = asInt(s, a, w), y = asInt(s, b, w);
    std::vector<std::pair<State, int>> o; cmpInt(s, p, x, y, w, o);
    for (auto& q : o) put(q.first, q.second);
  }
  void binop(const BinaryOperator& B, State& s, std::vector<State>& outs) {
    Type* t = B.getType();
    if (!t->isIntegerTy() || t->getIntegerBitWidth() > 64) { set(s, &B, freshOf(s, t)); outs.push_back(s); return; }
    unsigned w = t->getIntegerBitWidth();
    AV a = val(s, B.getOperand(0)), b = val(s, B.getOperand(1));
    auto put = [&](State& st, const AV& v) { set(st, &B, v); outs.push_back(st); };
    bool nsw = false; if (auto* ob = dyn_cast<OverflowingBinaryOperator>(&B)) nsw = ob->hasNoSignedWrap();
    auto op = B.getOpcode();
    // pointer arithmetic through integers
    if (a.k == AV::Ptr && b.k == AV::Ptr && op == Instruction::Sub && a.reg == b.reg) { put(s, AV::mkInt(a.e - b.e)); return; }
    if (a.k == AV::Ptr && op == Instruction::Sub && b.k == AV::Int) { put(s, AV::mkPtr(a.reg, a.e - b.e)); return; }
    if (a.k == AV::Ptr && op == Instruction::Add && b.k == AV::Int) { put(s, AV::mkPtr(a.reg, a.e + b.e)); return; }
    if (b.k == AV::Ptr && op == Instruction::Add && a.k == AV::Int) { put(s, AV::mkPtr(b.reg, a.e + b.e)); return; }
    Lin x = asInt(s, a, w), y = asInt(s, b, w);
    try {
    switch (op) {
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        if (op == Instruction::Mul) {
          Lin nx = s.p.norm(x), ny = s.p.norm(y);
          Z k; 
          if (ny.isConst()) { } else if (nx.isConst()) std::swap(nx, ny);
          else if (s.p.minOf(ny, k) && s.p.entailsGE(Lin(k) - ny)) ny = Lin(k);
          else if (s.p.minOf(nx, k) && s.p.entailsGE(Lin(k) - nx)) { nx = ny; ny = Lin(k); }
          if (!ny.isConst()) { // non-linear: interval of the product when both are small and non-negative
            Z a0, a1, b0, b1; 
            if (s.p.minOf(nx, a0) && s.p.maxOf(nx, a1) && s.p.minOf(ny, b0) && s.p.maxOf(ny, b1) && a0 >= 0 && b0 >= 0 && a1 < pow2(w) && b1 < pow2(w)) {
              unsigned __int128 top = (unsigned __int128)a1 * (unsigned __int128)b1;
              Z lim = nsw ? pow2(w - 1) - 1 : pow2(w) - 1;
              bool fits = b1 == 0 || a1 <= lim / (b1 ? b1 : 1);
              if (nsw) obligation("overflow", "", s, &B, fits, "signed multiplication may overflow");
              if (fits) { int v = fresh(); s.p.addGE(Lin::var(v) - Lin(a0 * b0)); s.p.addGE(Lin((Z)top) - Lin::var(v)); if (b0 >= 1) s.p.addGE(Lin::var(v) - nx); if (a0 >= 1) s.p.addGE(Lin::var(v) - ny); put(s, AV::mkInt(Lin::var(v))); return; }
            } else if (nsw) obligation("overflow", "", s, &B, false, "signed multiplication may overflow");
            AV v = freshInt(s, w, nsw); put(s, v); return;
          }
          x = nx; y = ny;
        }
        auto comb = [&](const Lin& p, const Lin& q) { return op == Instruction::Add ? p + q : op == Instruction::Sub ? p - q : p * s.p.norm(q).c; };
        if (nsw) {
          std::vector<std::pair<State, Lin>> ca; canon(s, x, w, true, ca);
          for (auto& q : ca) { std::vector<std::pair<State, Lin>> cb; canon(q.first, y, w, true, cb);
            for (auto& r : cb) {
              Lin e = comb(q.second, r.second); State st = r.first;
              Z lo = -pow2(w - 1), hi = pow2(w - 1) - 1;
              bool ok = st.p.entailsGE(e - Lin(lo)) && st.p.entailsGE(Lin(hi) - e);
              std::string msg; if (!ok && !mute) msg = std::string("signed ") + B.getOpcodeName() + " may overflow: " + st.p.norm(e).str();
              obligation("overflow", "", st, &B, ok, msg);
              st.p.addGE(e - Lin(lo)); st.p.addGE(Lin(hi) - e);
              if (!st.p.isBot()) put(st, AV::mkInt(e));
            } }
          return;
        }
        put(s, AV::mkInt(comb(x, y))); return;
      }
      case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::LShr: case Instruction::AShr: {
        bool sg = op == Instruction::SDiv || op == Instruction::SRem || op == Instruction::AShr;
        bool shift = op == Instruction::LShr || op == Instruction::AShr;
        bool exact = false; if (auto* pe = dyn_cast<PossiblyExactOperator>(&B)) exact = pe->isExact();
        std::vector<std::pair<State, Lin>> ca; canon(s, x, w, sg, ca);
        for (auto& q : ca) { std::vector<std::pair<State, Lin>> cb; canon(q.first, y, w, shift ? false : sg, cb);
          for (auto& r : cb) {
            State st = r.first; Lin X = q.second, Y = st.p.norm(r.second);
            if (shift) {
              bool ok = st.p.entailsGE(Lin((Z)w - 1) - Y); obligation("shift", "", st, &B, ok, "shift amount may reach the bit width"); st.p.addGE(Lin((Z)w - 1) - Y); if (st.p.isBot()) continue;
            } else {
              bool nz = st.p.entailsGE(Y - Lin(1)) || st.p.entailsGE(-Y - Lin(1));
              obligation("divzero", "", st, &B, nz, "divisor may be zero");
              if (sg) {
                bool ok = st.p.entailsGE(X + Lin(pow2(w - 1) - 1)) || st.p.entailsGE(Y) || st.p.entailsGE(-Y - Lin(2));
                obligation("overflow", "", st, &B, ok, "signed division may overflow");
              }
            }
            if (!Y.isConst() || (!shift && Y.c == 0)) {
              if (!sg && !shift && op == Instruction::URem) { int v = fresh(); st.p.addGE(Lin::var(v)); st.p.addGE(X - Lin::var(v)); st.p.addGE(Y - Lin(1) - Lin::var(v)); put(st, AV::mkInt(Lin::var(v))); continue; }
              if (!sg && (op == Instruction::UDiv || op == Instruction::LShr)) { int v = fresh(); st.p.addGE(Lin::var(v)); st.p.addGE(X - Lin::var(v)); put(st, AV::mkInt(Lin::var(v))); continue; }
              AV v = freshInt(st, w, sg); put(st, v); continue;
            }
            Z c = shift ? pow2((unsigned)Y.c) : Y.c;
            X = st.p.norm(X);
            if (c == 1) { put(st, (op == Instruction::URem || op == Instruction::SRem) ? AV::mkInt(Lin(0)) : AV::mkInt(X)); continue; }
            Z g = X.gcdCoefs();
            if ((X.isConst() || (g % c == 0)) && X.c % c == 0 && c > 0) {
              Lin e = X; e.c /= c; for (auto& pr : e.t) pr.second /= c;
              put(st, (op == Instruction::URem || op == Instruction::SRem) ? AV::mkInt(Lin(0)) : AV::mkInt(e)); continue;
            }
            if (exact && c > 0) { int v = fresh(); st.p.addEQ(Lin::var(v) * c - X); put(st, AV::mkInt(Lin::var(v))); continue; }
            // quotient rounding: floor for unsigned/ashr, toward zero for sdiv
            std::vector<std::pair<State, int>> sp;
            if ((op == Instruction::SDiv || op == Instruction::SRem) ) {
              if (c < 0) { AV v = freshInt(st, w, true); put(st, v); continue; }
              State pz = st; pz.p.addGE(X); if (!pz.p.isBot()) sp.push_back({pz, 1});
              State ng = st; ng.p.addGE(-X - Lin(1)); if (!ng.p.isBot()) sp.push_back({ng, -1});
            } else sp.push_back({st, 1});
            for (auto& z : sp) {
              int v = fresh(); Lin V = Lin::var(v); Lin rem = X - V * c;
              if (z.second > 0) { z.first.p.addGE(rem); z.first.p.addGE(Lin(c - 1) - rem); }
              else { z.first.p.addGE(-rem); z.first.p.addGE(rem + Lin(c - 1)); }
              put(z.first, AV::mkInt((op == Instruction::URem || op == Instruction::SRem) ? rem : V));
            }
          } }
        return;
      }
      case Instruction::Shl: {
        std::vector<std::pair<State, Lin>> cb; canon(s, y, w, false, cb);
        for (auto& r : cb) {
          State st = r.first; Lin Y = st.p.norm(r.second);
          bool ok = st.p.entailsGE(Lin((Z)w - 1) - Y); obligation("shift", "", st, &B, ok, "shift amount may reach the bit width"); st.p.addGE(Lin((Z)w - 1) - Y); if (st.p.isBot()) continue;
          if (Y.isConst()) put(st, AV::mkInt(st.p.norm(x) * pow2((unsigned)Y.c)));
          else { AV v = freshInt(st, w); put(st, v); }
        }
        return;
      }
      case Instruction::And: case Instruction::Or: case Instruction::Xor: {
        Lin nx = s.p.norm(x), ny = s.p.norm(y);
        if (nx.isConst() && ny.isConst()) {
          uint64_t p = (uint64_t)nx.c, q = (uint64_t)ny.c; uint64_t r = op == Instruction::And ? p & q : op == Instruction::Or ? p | q : p ^ q;
          if (w < 64) r &= ((uint64_t)1 << w) - 1;
          if (w > 1 && w <= 64 && (r >> (w - 1)) & 1) { put(s, AV::mkInt(Lin((Z)(int64_t)(w < 64 ? r | ~(((uint64_t)1 << w) - 1) : r)))); return; }
          put(s, AV::mkInt(Lin((Z)r))); return;
        }
        if (nx.isConst()) std::swap(nx, ny);
        if (w == 1) {
          if (op == Instruction::And) { if (ny.isConst()) { put(s, AV::mkInt(ny.c ? nx : Lin(0))); return; } int v = fresh(); Lin V = Lin::var(v); s.p.addGE(V); s.p.addGE(nx - V); s.p.addGE(ny - V); s.p.addGE(V - nx - ny + Lin(1)); put(s, AV::mkInt(V)); return; }
          if (op == Instruction::Or) { if (ny.isConst()) { put(s, AV::mkInt(ny.c ? Lin(1) : nx)); return; } int v = fresh(); Lin V = Lin::var(v); s.p.addGE(Lin(1) - V); s.p.addGE(V - nx); s.p.addGE(V - ny); s.p.addGE(nx + ny - V); put(s, AV::mkInt(V)); return; }
          if (ny.isConst()) { put(s, AV::mkInt(ny.c ? Lin(1) - nx : nx)); return; }
          AV v = freshInt(s, 1); put(s, v); return;
        }
        if (ny.isConst()) {
          Z m = ny.c; if (m < 0) m += pow2(w);
          if (m == 0) { put(s, op == Instruction::And ? AV::mkInt(Lin(0)) : AV::mkInt(nx)); return; }
          if (op == Instruction::And && m == pow2(w) - 1) { put(s, AV::mkInt(nx)); return; }
          if (op == Instruction::Xor && m == pow2(w) - 1) { put(s, AV::mkInt(Lin(-1) - nx)); return; }
          if (op == Instruction::And) {
            std::vector<std::pair<State, Lin>> ca; canon(s, nx, w, false, ca);
            for (auto& q : ca) {
              State st = q.first; Lin X = q.second;
              if (((m + 1) & m) == 0) { // low mask: remainder
                int v = fresh(); Lin rem = X - Lin::var(v) * (m + 1); st.p.addGE(rem); st.p.addGE(Lin(m) - rem); put(st, AV::mkInt(rem));
              } else {
                Z inv = pow2(w) - m; // high mask: multiple of 2^k
                if ((inv & (inv - 1)) == 0) { int v = fresh(); Lin V = Lin::var(v) * inv; Lin rem = X - V; st.p.addGE(rem); st.p.addGE(Lin(inv - 1) - rem); put(st, AV::mkInt(V)); }
                else { int v = fresh(); st.p.addGE(Lin::var(v)); st.p.addGE(Lin(m) - Lin::var(v)); st.p.addGE(X - Lin::var(v)); put(st, AV::mkInt(Lin::var(v))); }
              }
            }
            return;
          }
          if (op == Instruction::Or) { // disjoint bits become addition when the low part is provably clear
            Z lowbit = m & -m; Z top2 = pow2(w);
            (void)top2;
            Z g = nx.gcdCoefs(); 
            if (g && (g & (g - 1)) == 0 && m < g && nx.c % g == 0) { put(s, AV::mkInt(nx + Lin(m))); return; }
            (void)lowbit;
          }
        }
        // generic: operands provably non-negative
        {
          Z a1, b1; Lin X = nx, Y = ny;
          if (s.p.entailsGE(X) && s.p.entailsGE(Y) && s.p.maxOf(X, a1) && s.p.maxOf(Y, b1) && a1 < pow2(w) && b1 < pow2(w)) {
            int v = fresh(); Lin V = Lin::var(v); s.p.addGE(V);
            if (op == Instruction::And) { s.p.addGE(X - V); s.p.addGE(Y - V); }
            else {
              s.p.addGE(X + Y - V); Z mm = 1; while (mm <= std::max(a1, b1)) mm *= 2; s.p.addGE(Lin(mm - 1) - V);
              if (op == Instruction::Or) { s.p.addGE(V - X); s.p.addGE(V - Y); }
            }
            put(s, AV::mkInt(V)); return;
          }
        }
        AV v = freshInt(s, w); put(s, v); return;
      }
      default: break;
    }
    } catch (NumOverflow&) { AV v = freshInt(s, w); set(s, &B, v); outs.push_back(s); return; }
    AV v = freshInt(s, w); put(s, v);
  }
  void step(const Instruction& I, State& s, std::vector<State>& outs) {
    if (auto* B = dyn_cast<BinaryOperator>(&I)) { binop(*B, s, outs); return; }
    switch (I.getOpcode()) {
      case Instruction::Alloca: {
        auto& A = cast<AllocaInst>(I);
        auto key = std::make_pair(s.ctop().ctx, (const Value*)&I); auto it = allocaIds.find(key); int id;
        if (it == allocaIds.end()) { id = nextStatic++; allocaIds[key] = id; } else id = it->second;
        auto r = std::make_shared<Region>(); r->kind = RK::Alloca; r->site = &I;
        AV n = val(s, A.getArraySize()); Z es = (Z)(uint64_t)DL.getTypeAllocSize(A.getAllocatedType()).getFixedValue();
        r->size = (n.k == AV::Int ? n.e : Lin(1)) * es;
        s.mem[id] = r; Frame& f = s.top();
        if (std::find(f.allocas.begin(), f.allocas.end(), id) == f.allocas.end()) f.allocas.push_back(id);
        set(s, &I, AV::mkPtr(id, Lin(0))); outs.push_back(s); return;
      }
      case Instruction::Load: {
        std::vector<std::pair<State, AV>> o; load(s, val(s, I.getOperand(0)), I.getType(), &I, o);
        for (auto& x : o) { set(x.first, &I, x.second); outs.push_back(x.first); }
        return;
      }
      case Instruction::Store: { store(s, val(s, I.getOperand(1)), val(s, I.getOperand(0)), I.getOperand(0)->getType(), &I, outs); return; }
      case Instruction::GetElementPtr: {
        auto& G = cast<GetElementPtrInst>(I);
        AV b = val(s, G.getPointerOperand());
        if (b.k != AV::Ptr) { set(s, &I, AV::top()); outs.push_back(s); return; }
        Lin off = b.e; bool bad = false;
        try {
        for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
          const Value* ix = gti.getOperand();
          if (StructType* st = gti.getStructTypeOrNull()) { off = off + Lin((Z)(uint64_t)DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()).getFixedValue()); continue; }
          Z sc = (Z)(uint64_t)gti.getSequentialElementStride(DL).getFixedValue();
          AV iv = val(s, ix); unsigned w = width(ix->getType());
          Lin ie;
          if (w < 64) { std::vector<std::pair<State, Lin>> c; ie = asInt(s, iv, w); canon(s, ie, w, true, c); if (c.size() != 1) { bad = true; break; } s = c[0].first; ie = c[0].second; }
          else ie = asInt(s, iv, w);
          ie = s.p.norm(ie);
          // bring the index into a sensible (signed) range if it is provably a wrapped negative
          Z mn; if (s.p.minOf(ie, mn) && mn >= pow2(63)) ie = ie - Lin(pow2(64));
          off = off + ie * sc;
        }
        } catch (NumOverflow&) { bad = true; }
        if (bad) set(s, &I, AV::top());
        else {
          if (G.isInBounds() && wants("gep") && !opt.kinds.empty() && b.reg != 0) {
            const Region* r = s.creg(b.reg);
            if (r) { bool ok = s.p.entailsGE(off) && s.p.entailsGE(r->size - off);
              obligation("gep", "", s, &I, ok, "pointer arithmetic to offset " + s.p.norm(off).str() + " of a block of " + s.p.norm(r->size).str() + " byte(s) may leave the block"); }
          }
          set(s, &I, AV::mkPtr(b.reg, s.p.norm(off)));
        }
        outs.push_back(s); return;
      }
      case Instruction::ICmp: { auto& C = cast<ICmpInst>(I); doICmp(&I, C.getPredicate(), s, val(s, I.getOperand(0)), val(s, I.getOperand(1)), I.getOperand(0)->getType(), outs); return; }
      case Instruction::FCmp: { State t = s; set(t, &I, AV::mkInt(Lin(1))); outs.push_back(t); set(s, &I, AV::mkInt(Lin(0))); outs.push_back(s); return; }
      case Instruction::Trunc: {
        AV a = val(s, I.getOperand(0)); unsigned w = width(I.getType());
        if (w == 1) {
          Lin e = asInt(s, a, width(I.getOperand(0)->getType())); Lin n = s.p.norm(e);
          if (n.isConst()) { set(s, &I, AV::mkInt(Lin(n.c & 1))); outs.push_back(s); return; }
          if (s.p.entailsGE(n) && s.p.entailsGE(Lin(1) - n)) { set(s, &I, AV::mkInt(n)); outs.push_back(s); return; }
          if (isa<LoadInst>(I.getOperand(0)) || isa<PHINode>(I.getOperand(0)) || isa<CallBase>(I.getOperand(0))) { // a bool object holds 0 or 1
            s.p.addGE(n); s.p.addGE(Lin(1) - n); if (s.p.isBot()) return; set(s, &I, AV::mkInt(s.p.norm(n))); outs.push_back(s); return; }
          set(s, &I, freshInt(s, 1)); outs.push_back(s); return;
        }
        { unsigned ws = width(I.getOperand(0)->getType()); // a number squeezed into a small type that may not hold it
          if ((w == 16 && ws >= 32 && ws <= 64) || (w == 8 && ws == 64)) {
            Lin n = s.p.norm(asInt(s, a, ws));
            if (!(s.p.entailsGE(n + Lin(w == 16 ? 32768 : 128)) && s.p.entailsGE(Lin(w == 16 ? 65535 : 255) - n)) && locOf(&I).compare(0, opt.prefix.size(), opt.prefix) == 0) narrowed.insert(locOf(&I));
          } }
        if (width(I.getOperand(0)->getType()) > 64) { set(s, &I, freshOf(s, I.getType())); outs.push_back(s); return; }
        set(s, &I, AV::mkInt(asInt(s, a, width(I.getOperand(0)->getType())))); outs.push_back(s); return;
      }
      case Instruction::ZExt: case Instruction::SExt: {
        AV a = val(s, I.getOperand(0)); unsigned w = width(I.getOperand(0)->getType());
        if (width(I.getType()) > 64) { set(s, &I, AV::top()); outs.push_back(s); return; }
        std::vector<std::pair<State, Lin>> c; canon(s, asInt(s, a, w), w, I.getOpcode() == Instruction::SExt, c);
        for (auto& q : c) { set(q.first, &I, AV::mkInt(q.second)); outs.push_back(q.first); }
        return;
      }
      case Instruction::PtrToInt: { set(s, &I, val(s, I.getOperand(0))); outs.push_back(s); return; }
      case Instruction::IntToPtr: { AV a = val(s, I.getOperand(0)); set(s, &I, adapt(s, a, I.getType())); outs.push_back(s); return; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: { AV a = val(s, I.getOperand(0)); set(s, &I, a); outs.push_back(s); return; }
      case Instruction::FPToUI: case Instruction::FPToSI: { set(s, &I, freshInt(s, width(I.getType()), I.getOpcode() == Instruction::FPToSI)); outs.push_back(s); return; }
      case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FNeg:
        set(s, &I, freshOf(s, I.getType())); outs.push_back(s); return;
      case Instruction::Select: {
        std::vector<State> t, f; AV c = val(s, I.getOperand(0));
        splitBool(s, c, t, f);
        for (auto& x : t) { AV v = val(x, I.getOperand(1)); set(x, &I, v); outs.push_back(x); }
        for (auto& x : f) { AV v = val(x, I.getOperand(2)); set(x, &I, v); outs.push_back(x); }
        return;
      }
      case Instruction::ExtractValue: {
        auto& E = cast<ExtractValueInst>(I); AV a = val(s, E.getAggregateOperand());
        for (unsigned i : E.indices()) { if (a.k == AV::Agg && i < a.agg->size()) { AV x = (*a.agg)[i]; a = x; } else { a = AV::top(); break; } }
        if (a.k == AV::Top) a = freshOf(s, I.getType());
        set(s, &I, a); outs.push_back(s); return;
      }
      case Instruction::InsertValue: {
        auto& E = cast<InsertValueInst>(I); AV a = val(s, E.getAggregateOperand());
        if (E.getNumIndices() == 1 && I.getType()->isStructTy()) {
          std::vector<AV> v; if (a.k == AV::Agg) v = *a.agg; v.resize(I.getType()->getStructNumElements());
          v[E.getIndices()[0]] = val(s, E.getInsertedValueOperand()); set(s, &I, AV::mkAgg(v));
        } else set(s, &I, AV::top());
        outs.push_back(s); return;
      }
      case Instruction::LandingPad: { set(s, &I, AV::mkAgg({AV::top(), AV::top()})); outs.push_back(s); return; }
      case Instruction::AtomicRMW: { auto& R = cast<AtomicRMWInst>(I); AV p = val(s, R.getPointerOperand()); bool okA = checkAccess(s, p, Lin(typeSize(I.getType())), &I, "atomic access"); if (s.p.isBot()) return; if (okA) guardCheck(s, p, &I, true); havocRange(s, p, Lin(typeSize(I.getType()))); set(s, &I, freshOf(s, I.getType())); outs.push_back(s); return; }
      case Instruction::AtomicCmpXchg: { AV p = val(s, I.getOperand(0)); havocRange(s, p, Lin(8)); set(s, &I, AV::top()); outs.push_back(s); return; }
      case Instruction::Fence: outs.push_back(s); return;
      default: break;
    }
    if (!I.getType()->isVoidTy()) set(s, &I, freshOf(s, I.getType()));
    if (!isa<UnaryOperator>(I)) unmodelled.insert(std::string("instruction ") + I.getOpcodeName());
    outs.push_back(s);
  }

  // ---------- calls ----------
  #include "calls.inc"
  #include "ditypes.inc"

  void analyzeFn(const Function* F, const CallBase* call, const State& s0, const std::vector<AV>& args, Out& out) {
    ++nCalls; fnSeen.insert(F);
    State s = s0;
    uint64_t pctx = s.frames.empty() ? 1 : s.frames.back()->ctx;
    auto f = std::make_shared<Frame>(); f->fn = F; f->call = call; f->ctx = hmix(hmix(pctx, (uint64_t)(uintptr_t)call), (uint64_t)(uintptr_t)F);
    s.frames.push_back(f);
    unsigned i = 0;
    for (auto& a : F->args()) {
      AV v = i < args.size() ? args[i] : AV::top();
      if (a.hasByValAttr() && v.k == AV::Ptr) {
        auto key = std::make_pair(f->ctx, (const Value*)&a); auto it = allocaIds.find(key); int id;
        if (it == allocaIds.end()) { id = nextStatic++; allocaIds[key] = id; } else id = it->second;
        auto r = std::make_shared<Region>(); r->kind = RK::Alloca; r->site = &a; Z sz = (Z)(uint64_t)DL.getTypeAllocSize(a.getParamByValType()).getFixedValue(); r->size = Lin(sz);
        Lin o = s.p.norm(v.e); const Region* src = s.creg(v.reg);
        if (src && o.isConst()) { for (auto& c : src->cells) if (c.first >= o.c && c.first + c.second.size <= o.c + sz) r->cells[c.first - o.c] = c.second; }
        s.mem[id] = r; s.top().allocas.push_back(id); v = AV::mkPtr(id, Lin(0));
      }
      if (v.k == AV::Top && a.getType()->isIntegerTy()) v = freshOf(s, a.getType());
      s.top().env[&a] = v; ++i;
    }
    Act A; A.F = F; A.fi = &info(F);
    A.inc[&F->getEntryBlock()].push_back(s);
    runRegion(A, nullptr);
    auto pop = [&](State& st) {
      for (int id : st.ctop().allocas) { if (autoGhost) ghostRelease(st, id, call ? (const Instruction*)call : &F->back().back(), "goes out of scope"); st.mem.erase(id); }
      st.frames.pop_back();
    };
    for (auto& r : A.out.ret) { r.second = normAV(r.first, r.second); pop(r.first); out.ret.push_back(r); }
    for (auto& u : A.out.unw) { pop(u); out.unw.push_back(u); }
  }
};
#include "main.inc"
