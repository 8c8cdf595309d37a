  // (included inside struct Analysis)
  std::string cstrOf(State& s, const AV& a) {
    if (a.k != AV::Ptr) return "";
    auto it = idGlobals.find(a.reg); if (it == idGlobals.end() || !it->second->hasInitializer()) return "";
    if (auto* cd = dyn_cast<ConstantDataSequential>(it->second->getInitializer())) if (cd->isCString() || cd->isString()) { auto r = cd->getRawDataValues(); std::string t = r.str(); size_t z = t.find('\0'); if (z != std::string::npos) t.resize(z); Lin o = s.p.norm(a.e); if (o.isConst() && o.c >= 0 && (size_t)o.c <= t.size()) return t.substr((size_t)o.c); }
    return "";
  }
  void pruneForCall(State& s, const CallBase& C) {
    auto& live = info(C.getFunction()).liveAfter[&C];
    Frame& f = s.top();
    for (auto it = f.env.begin(); it != f.env.end();) { if (!live.count(it->first)) it = f.env.erase(it); else ++it; }
  }
  void retv(Out& o, const State& s, const AV& v) { o.ret.push_back({s, v}); }

  // ghost (element lifetime) support
  void ghostSplit(const State& s0, const AV& p, const std::function<void(State&, int)>& f) { // index of matching ghost or -1
    State s = s0;
    if (p.k != AV::Ptr || !s.creg(p.reg)) { f(s, -1); return; }
    Region* r = s.reg(p.reg);
    if (!r->ghostInit && autoGhost) {
      r->ghostInit = true;
      int K = fresh(); Ghost g; g.off = p.e + Lin::var(K) * (Z)autoGhost; g.val = AV::mkInt(Lin(0));
      Lin sz = r->size; r->ghosts.push_back(g);
      s.p.addGE(g.off); s.p.addGE(sz - g.off - Lin(autoGhost));
      if (s.p.isBot()) { // no room for an element at all
        s = s0; s.reg(p.reg)->ghostInit = true; f(s, -1); return;
      }
    }
    std::vector<State> rest{s};
    size_t n = s.creg(p.reg)->ghosts.size();
    for (size_t i = 0; i < n; ++i) {
      std::vector<State> nr;
      for (auto& q : rest) {
        Lin d = p.e - q.creg(p.reg)->ghosts[i].off;
        State e = q; e.p.addEQ(d); if (!e.p.isBot()) f(e, (int)i);
        State a = q; a.p.addGE(d - Lin(1)); if (!a.p.isBot()) nr.push_back(a);
        State b = q; b.p.addGE(-d - Lin(1)); if (!b.p.isBot()) nr.push_back(b);
      }
      rest.swap(nr);
    }
    for (auto& q : rest) f(q, -1);
  }
  void ghostRelease(State& s, int reg, const Instruction* I, const char* what) {
    const Region* r = s.creg(reg); if (!r) return;
    for (auto& g : r->ghosts) {
      bool dead = g.val.k == AV::Int && s.p.entailsEQ(g.val.e);
      obligation("lifetime", "release", s, I, dead, std::string("storage ") + what + " while an element in it may still be alive");
    }
  }
  void doFree(const State& s0, const AV& p, bool arr, const CallBase& C, Out& o) {
    State s = s0;
    if (p.k != AV::Ptr) { obligation("free", "", s, &C, false, "release of a pointer the analysis cannot resolve"); retv(o, s, AV::top()); return; }
    if (p.reg == 0) { retv(o, s, AV::top()); return; }
    const Region* r = s.creg(p.reg);
    if (!r) { obligation("free", "", s, &C, false, "storage released twice"); return; }
    bool ok = (r->kind == RK::Heap || r->kind == RK::Exc) && s.p.entailsEQ(p.e);
    obligation("free", "", s, &C, ok, r->kind == RK::Heap ? "released pointer is not the start of its block" : "released pointer does not own heap storage");
    if (r->kind == RK::Heap) obligation("free", "", s, &C, r->arrayNew == arr, "new/delete form mismatch");
    ghostRelease(s, p.reg, &C, "is released");
    guardCheck(s, p, &C, true); r = s.creg(p.reg);
    if (r->kind == RK::Heap || r->kind == RK::Exc) s.mem.erase(p.reg);
    retv(o, s, AV::top());
  }
  void doNew(const State& s0, const AV& n, bool arr, bool nothrow_, const CallBase& C, Out& o) {
    State s = s0; std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, n, 64), 64, false, cs);
    for (auto& q : cs) {
      if (opt.allocFail) { if (nothrow_) retv(o, q.first, AV::mkPtr(0, Lin(0))); else o.unw.push_back(q.first); }
      State t = q.first; t.p.addGE(Lin(pow2(63) - 1) - q.second); if (t.p.isBot()) { if (!opt.allocFail) o.unw.push_back(q.first); continue; }
      int id = newHeap(t, q.second, RK::Heap, &C); t.reg(id)->arrayNew = arr;
      retv(o, t, AV::mkPtr(id, Lin(0)));
    }
  }
  bool intrinsic(const CallBase& C, const Function* F, State& s, const std::vector<AV>& a, Out& o) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: {
        std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[2], 64), 64, false, cs);
        for (auto& q : cs) { std::vector<State> outs; memTransfer(q.first, a[0], a[1], q.second, &C, outs); for (auto& x : outs) retv(o, x, AV::top()); }
        return true;
      }
      case Intrinsic::memset: { doMemset(C, s, a[0], a[1], a[2], o); return true; }
      case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow:
      case Intrinsic::smul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
        auto id = F->getIntrinsicID(); unsigned w = width(C.getArgOperand(0)->getType());
        bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        std::vector<std::pair<State, Lin>> ca; canon(s, asInt(s, a[0], w), w, sg, ca);
        for (auto& q : ca) { std::vector<std::pair<State, Lin>> cb; canon(q.first, asInt(q.first, a[1], w), w, sg, cb);
          for (auto& r : cb) {
            State st = r.first; Lin x = st.p.norm(q.second), y = st.p.norm(r.second); Lin e; bool lin = true;
            try {
              if (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) e = x + y;
              else if (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) e = x - y;
              else if (y.isConst()) e = x * y.c; else if (x.isConst()) e = y * x.c; else lin = false;
            } catch (NumOverflow&) { lin = false; }
            Z lo = sg ? -pow2(w - 1) : 0, hi = sg ? pow2(w - 1) - 1 : pow2(w) - 1;
            if (!lin) {
              State t = st; AV v = freshInt(t, w, sg); retv(o, t, AV::mkAgg({v, AV::mkInt(Lin(0))}));
              AV v2 = freshInt(st, w, sg); retv(o, st, AV::mkAgg({v2, AV::mkInt(Lin(1))})); continue;
            }
            { State t = st; t.p.addGE(e - Lin(lo)); t.p.addGE(Lin(hi) - e); if (!t.p.isBot()) retv(o, t, AV::mkAgg({AV::mkInt(e), AV::mkInt(Lin(0))})); }
            { State t = st; t.p.addGE(e - Lin(hi + 1)); if (!t.p.isBot()) { retv(o, t, AV::mkAgg({AV::mkInt(e), AV::mkInt(Lin(1))})); } }
            { State t = st; t.p.addGE(Lin(lo - 1) - e); if (!t.p.isBot()) { retv(o, t, AV::mkAgg({AV::mkInt(e), AV::mkInt(Lin(1))})); } }
          } }
        return true;
      }
      case Intrinsic::expect: retv(o, s, a[0]); return true;
      case Intrinsic::abs: {
        unsigned w = width(C.getType()); std::vector<std::pair<State, Lin>> ca; canon(s, asInt(s, a[0], w), w, true, ca);
        for (auto& q : ca) {
          Lin c1; AV pf = a[1]; bool poison = pf.k == AV::Int && pf.e.isConst() && pf.e.c != 0;
          if (poison) obligation("overflow", "", q.first, &C, q.first.p.entailsGE(q.second + Lin(pow2(w - 1) - 1)), "absolute value may overflow");
          State t = q.first; t.p.addGE(q.second); if (!t.p.isBot()) retv(o, t, AV::mkInt(q.second));
          State u = q.first; u.p.addGE(-q.second - Lin(1)); if (!u.p.isBot()) retv(o, u, AV::mkInt(-q.second));
        }
        return true;
      }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        auto id = F->getIntrinsicID(); unsigned w = width(C.getType()); bool mn = id == Intrinsic::umin || id == Intrinsic::smin;
        std::vector<std::pair<State, int>> r; Lin x = asInt(s, a[0], w), y = asInt(s, a[1], w);
        cmpInt(s, (id == Intrinsic::umin || id == Intrinsic::umax) ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, x, y, w, r);
        for (auto& q : r) retv(o, q.first, AV::mkInt((q.second == 1) == mn ? x : y));
        return true;
      }
      case Intrinsic::eh_typeid_for: retv(o, s, AV::top()); return true;
      case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: obligation("trap", "", s, &C, false, "trap reachable"); return true;
      case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::donothing: retv(o, s, AV::top()); return true;
      case Intrinsic::is_constant: retv(o, s, AV::mkInt(Lin(0))); return true;
      case Intrinsic::objectsize: retv(o, s, AV::mkInt(Lin(-1))); return true;
      default: break;
    }
    if (F->isIntrinsic()) {
      AV v = C.getType()->isVoidTy() ? AV::top() : freshOf(s, C.getType());
      if (!C.getType()->isFloatingPointTy()) unmodelled.insert(F->getName().str());
      retv(o, s, v); return true;
    }
    return false;
  }
  void doMemset(const CallBase& C, const State& s0, const AV& p, const AV& byte, const AV& len, Out& o) {
    State s = s0; std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, len, 64), 64, false, cs);
    for (auto& q : cs) {
      State t = q.first; Lin n = t.p.norm(q.second);
      { State z = t; z.p.addEQ(n); if (!z.p.isBot()) { retv(o, z, AV::top()); t.p.addGE(n - Lin(1)); if (t.p.isBot()) continue; } }
      bool ok = checkAccess(t, p, n, &C, "block write"); if (t.p.isBot()) continue;
      if (ok) {
        guardCheck(t, p, &C, true);
        t.p.addGE(p.e); t.p.addGE(t.creg(p.reg)->size - p.e - n);
        BS vs = valueSet(t, byte, 1);
        havocRange(t, p, n, &vs);
        Lin off = t.p.norm(p.e); Lin b = byte.k == AV::Int ? t.p.norm(byte.e) : Lin(-99999);
        if (off.isConst() && n.isConst() && b.isConst() && b.c != -99999) t.reg(p.reg)->bg.push_back(Bg{off.c, n.c, (int)(b.c & 255)});
        else if (byte.k == AV::Int) { // tracked bytes inside the range
          for (auto& T : t.reg(p.reg)->tracked) if (T.size == 1 && t.p.entailsGE(T.off - p.e) && t.p.entailsGE(p.e + n - T.off - Lin(1))) T.cells[0] = Cell{1, byte};
        }
        if (b.isConst() && b.c == 0) { // tracked blocks fully inside become zero
          for (auto& T : t.reg(p.reg)->tracked) if (t.p.entailsGE(T.off - p.e) && t.p.entailsGE(p.e + n - T.off - Lin(T.size)) && T.size <= 8) T.cells[0] = Cell{T.size, AV::mkInt(Lin(0))};
        }
      }
      retv(o, t, AV::top());
    }
  }
  bool vfCall(const std::string& n, const CallBase& C, State& s, const std::vector<AV>& a, Out& o) {
    if (n.compare(0, 3, "vf_") != 0) return false;
    if (n == "vf_nd_f64" || n == "vf_nd_f32") { int v = fresh(); tokens.insert(v); retv(o, s, AV::mkInt(Lin::var(v))); return true; }
    if (n == "vf_pick" || n == "vf_pick32") { // an arbitrary number; in bounded mode every one of 0..bound-1 in turn
      if (opt.small) {
        Lin b = s.p.norm(asInt(s, a[0], 64)); int m = b.isConst() ? (int)(long)b.c : 1;
        auto pk = std::make_pair((const Instruction*)&C, s.ctop().ctx); auto it = pickSites.find(pk); size_t i;
        if (it != pickSites.end()) i = it->second; else { i = pickMax.size(); pickSites[pk] = i; pickMax.push_back(m); if (picks.size() <= i) picks.push_back(0); }
        retv(o, s, AV::mkInt(Lin(picks[i]))); return true;
      }
      AV v = freshInt(s, width(C.getType()), false); tokens.insert(v.e.t[0].first); retv(o, s, v); return true;
    }
    if (n.compare(0, 6, "vf_nd_") == 0) { bool sg = n[6] == 'i'; AV v = freshInt(s, width(C.getType()), sg); tokens.insert(v.e.t[0].first); retv(o, s, v); return true; }
    if (n == "vf_assume") { std::vector<State> t, f; splitBool(s, a[0], t, f); for (auto& x : t) retv(o, x, AV::top()); return true; }
    if (n == "vf_check") {
      std::vector<State> t, f; splitBool(s, a[0], t, f); std::string tag = cstrOf(s, a[1]);
      if (!t.empty()) obligation("check", tag, t[0], &C, true, "");
      for (auto& x : f) obligation("check", tag, x, &C, false, "not established: " + tag);
      for (auto& x : t) retv(o, x, AV::top());
      return true;
    }
    if (n == "vf_fail") { std::string tag = cstrOf(s, a[0]); obligation("check", tag, s, &C, false, "reached: " + tag); return true; }
    if (n == "vf_reach") { if (!mute) reachTags.insert(cstrOf(s, a[0])); retv(o, s, AV::top()); return true; }
    if (n == "vf_new") { State t = s; std::vector<std::pair<State, Lin>> cs; canon(t, asInt(t, a[0], 64), 64, false, cs); for (auto& q : cs) { int id = newHeap(q.first, q.second, RK::Heap, &C); retv(o, q.first, AV::mkPtr(id, Lin(0))); } return true; }
    if (n == "vf_alloc" || n == "vf_alloc_cstr") {
      std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[0], 64), 64, false, cs);
      for (auto& q : cs) { State t = q.first; t.p.addGE(Lin(pow2(62)) - q.second); if (t.p.isBot()) continue; bool z = n == "vf_alloc_cstr"; int id = newHeap(t, z ? q.second + Lin(1) : q.second, RK::Sym, &C); t.reg(id)->cstr = z; retv(o, t, AV::mkPtr(id, Lin(0))); }
      return true;
    }
    if (n == "vf_track") {
      Lin sz = s.p.norm(asInt(s, a[1], 64)); if (!(a[0].k == AV::Ptr && sz.isConst() && s.creg(a[0].reg))) { retv(o, s, AV::top()); return true; }
      int rg = a[0].reg; std::vector<State> rest{s};
      auto put = [&](State& q, const Cell* c) { Tracked t; t.off = a[0].e; t.size = sz.c; if (c) t.cells[0] = *c; q.reg(rg)->tracked.push_back(t); retv(o, q, AV::top()); };
      for (auto& c : s.creg(rg)->cells) { // a value already known there stays known
        if (c.second.size != sz.c) continue;
        std::vector<State> nr;
        for (auto& q : rest) {
          { State t = q; t.p.addEQ(a[0].e - Lin(c.first)); if (!t.p.isBot()) put(t, &c.second); }
          for (int d : {-1, 1}) { State t = q; t.p.addGE((a[0].e - Lin(c.first)) * d - Lin(1)); if (!t.p.isBot()) nr.push_back(t); }
        }
        rest.swap(nr); if (rest.size() > 16) break;
      }
      for (auto& q : rest) put(q, nullptr);
      return true; }
    if (n == "vf_autotrack") { if (!autoReg) autoReg = nextStatic++; auto r = std::make_shared<Region>(); r->kind = RK::Global; r->size = Lin(8); r->cells[0] = Cell{8, AV::mkInt(s.p.norm(asInt(s, a[0], 64)))}; s.mem[autoReg] = r; retv(o, s, AV::top()); return true; }
    if (n == "vf_autotrack_add") { if (!autoReg) autoReg = nextStatic++; if (!s.creg(autoReg)) { auto r = std::make_shared<Region>(); r->kind = RK::Global; r->size = Lin(64); s.mem[autoReg] = r; } Region* r = s.reg(autoReg); r->cells[8 * (Z)(long)r->cells.size()] = Cell{8, AV::mkInt(s.p.norm(asInt(s, a[0], 64)))}; retv(o, s, AV::top()); return true; }
    if (n == "vf_exclude") { if (a[0].k == AV::Ptr && s.creg(a[0].reg)) { std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[1], 8), 8, false, cs); for (auto& q : cs) { Region* r = q.first.reg(a[0].reg); r->hasExcl = true; r->excl = q.second; retv(o, q.first, AV::top()); } } return true; }
    if (n == "vf_ghost_on") { Lin k = s.p.norm(asInt(s, a[0], 64)); autoGhost = (int)k.c; retv(o, s, AV::top()); return true; }
    if (n == "vf_gget") { ghostSplit(s, a[0], [&](State& t, int i) { retv(o, t, i < 0 ? AV::mkInt(Lin(-1)) : t.creg(a[0].reg)->ghosts[i].val); }); return true; }
    if (n == "vf_gset") { ghostSplit(s, a[0], [&](State& t, int i) { if (i >= 0) t.reg(a[0].reg)->ghosts[i].val = a[1]; retv(o, t, AV::top()); }); return true; }
    if (n == "vf_throw") { o.unw.push_back(s); return true; }
    if (n == "vf_havoc") { std::vector<std::pair<State, Lin>> cs; havocRange(s, a[0], asInt(s, a[1], 64)); retv(o, s, AV::top()); return true; }
    if (n == "vf_dump") { if (!mute || opt.trace) { std::cerr << "DUMP " << cstrOf(s, a[0]) << (mute ? " (mute)" : "") << "\n" << dumpState(s); for (size_t i = 1; i < a.size(); ++i) std::cerr << "  arg" << i << "=" << avStr(normAV(s, a[i])) << "\n"; } retv(o, s, AV::top()); return true; }
    if (n == "vf_tag") { Lin k = s.p.norm(asInt(s, a[1], 32)); if (a[0].k == AV::Ptr && s.creg(a[0].reg)) s.reg(a[0].reg)->tag = (int)k.c; retv(o, s, AV::top()); return true; }
    if (n == "vf_havoc_type") { std::string tn = cstrOf(s, a[1]); if (a[0].k == AV::Ptr && s.creg(a[0].reg)) { const DICompositeType* t = findType(tn); if (!t) { std::cerr << "type not found: " << tn << "\n"; exit(3); } Lin off = s.p.norm(a[0].e); if (off.isConst()) havocType(s, a[0].reg, off.c, t, 0, off.c); } retv(o, s, AV::top()); return true; }
    if (n == "vf_live_heap") { // number of live heap blocks is zero?
      bool any = false; for (auto& m : s.mem) if (m.second->kind == RK::Heap) any = true; retv(o, s, AV::mkInt(Lin(any ? 1 : 0))); return true; }
    std::cerr << "unknown intrinsic " << n << "\n"; exit(3);
  }
  bool builtin(const std::string& n, const CallBase& C, State& s, const std::vector<AV>& a, Out& o) {
    if (n == "_Znwm" || n == "_ZnwmSt11align_val_t") { doNew(s, a[0], false, false, C, o); return true; }
    if (n == "_Znam" || n == "_ZnamSt11align_val_t") { doNew(s, a[0], true, false, C, o); return true; }
    if (n == "_ZnwmRKSt9nothrow_t") { doNew(s, a[0], false, true, C, o); return true; }
    if (n == "_ZnamRKSt9nothrow_t") { doNew(s, a[0], true, true, C, o); return true; }
    if (n.compare(0, 6, "_ZdlPv") == 0) { doFree(s, a[0], false, C, o); return true; }
    if (n.compare(0, 6, "_ZdaPv") == 0) { doFree(s, a[0], true, C, o); return true; }
    if (n == "memcpy" || n == "memmove") { std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[2], 64), 64, false, cs); for (auto& q : cs) { std::vector<State> outs; memTransfer(q.first, a[0], a[1], q.second, &C, outs); for (auto& x : outs) retv(o, x, a[0]); } return true; }
    if (n == "memset") { doMemset(C, s, a[0], a[1], a[2], o); for (auto& r : o.ret) r.second = a[0]; return true; }
    if (n == "memcmp" || n == "bcmp") {
      std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[2], 64), 64, false, cs);
      for (auto& q : cs) {
        State t = q.first;
        { State z = t; z.p.addEQ(q.second); if (!z.p.isBot()) { retv(o, z, AV::mkInt(Lin(0))); t.p.addGE(q.second - Lin(1)); if (t.p.isBot()) continue; } }
        checkAccess(t, a[0], q.second, &C, "comparison read"); if (t.p.isBot()) continue; checkAccess(t, a[1], q.second, &C, "comparison read"); if (t.p.isBot()) continue;
        AV v = freshInt(t, 32, true); retv(o, t, v);
      }
      return true;
    }
    if (n == "memchr") {
      std::vector<std::pair<State, Lin>> cs; canon(s, asInt(s, a[2], 64), 64, false, cs);
      for (auto& q : cs) {
        State t = q.first;
        { State z = t; z.p.addEQ(q.second); if (!z.p.isBot()) { retv(o, z, AV::mkPtr(0, Lin(0))); t.p.addGE(q.second - Lin(1)); if (t.p.isBot()) continue; } }
        bool ok = checkAccess(t, a[0], q.second, &C, "search read"); if (t.p.isBot()) continue;
        retv(o, t, AV::mkPtr(0, Lin(0)));
        if (ok) { State f = t; int v = fresh(); f.p.addGE(Lin::var(v)); f.p.addGE(q.second - Lin(1) - Lin::var(v)); retv(o, f, AV::mkPtr(a[0].reg, a[0].e + Lin::var(v))); }
        else retv(o, t, AV::top());
      }
      return true;
    }
    if (n == "strlen") {
      if (a[0].k != AV::Ptr || !s.creg(a[0].reg)) { obligation("bounds", "", s, &C, false, "strlen of an unresolved pointer"); AV v = freshInt(s, 64); retv(o, s, v); return true; }
      const Region* r = s.creg(a[0].reg);
      std::string lit = cstrOf(s, a[0]);
      if (r->kind == RK::Global && (!lit.empty() || true)) { auto it = idGlobals.find(a[0].reg); if (it != idGlobals.end() && it->second->isConstant() && s.p.norm(a[0].e).isConst() && isa<ConstantData>(it->second->getInitializer())) { retv(o, s, AV::mkInt(Lin((Z)lit.size()))); return true; } }
      bool ok = r->cstr && s.p.entailsGE(a[0].e) && s.p.entailsGE(r->size - a[0].e - Lin(1));
      obligation("bounds", "", s, &C, ok, "strlen on a buffer that need not be NUL-terminated");
      int v = fresh(); s.p.addGE(Lin::var(v)); s.p.addGE(r->size - Lin(1) - a[0].e - Lin::var(v)); if (s.p.isBot()) return true;
      retv(o, s, AV::mkInt(Lin::var(v))); return true;
    }
    if (n == "__cxa_allocate_exception") { int id = newHeap(s, asInt(s, a[0], 64), RK::Exc, &C); retv(o, s, AV::mkPtr(id, Lin(0))); return true; }
    if (n == "__cxa_free_exception") { retv(o, s, AV::top()); return true; }
    if (n == "__cxa_throw" || n == "__cxa_rethrow" || n == "_Unwind_Resume") { o.unw.push_back(s); return true; }
    if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { retv(o, s, AV::top()); return true; }
    if (n == "__cxa_end_catch" || n == "__cxa_atexit" || n == "__cxa_guard_release" || n == "__cxa_guard_abort") { retv(o, s, C.getType()->isVoidTy() ? AV::top() : freshOf(s, C.getType())); return true; }
    if (n == "__cxa_guard_acquire") { int v = fresh(); s.p.addGE(Lin::var(v)); s.p.addGE(Lin(1) - Lin::var(v)); retv(o, s, AV::mkInt(Lin::var(v))); return true; }
    if (n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n == "__cxa_call_terminate") { obligation("terminate", "", s, &C, false, "an exception escapes a function that promises not to throw (std::terminate)"); return true; }
    if (n == "abort" || n == "__cxa_pure_virtual" || n == "exit" || n == "_exit") { obligation("terminate", "", s, &C, false, "process termination reachable (" + n + ")"); return true; }
    if (n == "__assert_fail" || n.find("__glibcxx_assert_fail") != std::string::npos) { obligation("assert", "", s, &C, false, "library assertion reachable"); return true; }
    if (n.compare(0, 11, "_ZSt16__thr") == 0 || n.compare(0, 6, "_ZSt__") == 0 || (n.compare(0, 4, "_ZSt") == 0 && n.find("__throw_") != std::string::npos)) { o.unw.push_back(s); return true; }
    { // constructors and destructors of the standard exception classes only read their arguments
      static const char* exc[] = {"12out_of_range", "11logic_error", "12length_error", "16invalid_argument", "13runtime_error", "11range_error", "12domain_error", "14overflow_error", "9exception", "9bad_alloc"};
      for (auto* e : exc) { std::string pre = std::string("_ZNSt") + e; if (n.compare(0, pre.size(), pre) == 0) { char k = n.size() > pre.size() ? n[pre.size()] : 0; if (k == 'C') { if (!C.doesNotThrow() && opt.allocFail) o.unw.push_back(s); retv(o, s, AV::top()); return true; } if (k == 'D') { retv(o, s, AV::top()); return true; } } }
    }
    return false;
  }
  void externCall(const CallBase& C, const Function* F, State& s, const std::vector<AV>& a, Out& o) {
    unmodelled.insert(F ? F->getName().str() : std::string("<indirect>"));
    bool ro = C.onlyReadsMemory() || C.doesNotAccessMemory();
    if (!ro) for (unsigned i = 0; i < a.size(); ++i) if (a[i].k == AV::Ptr && a[i].reg != 0 && s.creg(a[i].reg)) {
      if (i < C.arg_size() && (C.paramHasAttr(i, Attribute::ReadOnly) || C.paramHasAttr(i, Attribute::ReadNone))) continue;
      auto it = idGlobals.find(a[i].reg); if (it != idGlobals.end() && it->second->isConstant()) continue;
      havocRegion(s, a[i].reg);
    }
    if (!C.doesNotThrow()) o.unw.push_back(s);
    if (C.doesNotReturn()) return;
    AV v = C.getType()->isVoidTy() ? AV::top() : freshOf(s, C.getType());
    retv(o, s, v);
  }
  void doCall(const CallBase& C, State& s, Out& o) {
    std::vector<AV> args; for (auto& x : C.args()) args.push_back(val(s, x));
    const Function* F = C.getCalledFunction();
    if (!F) {
      const Value* cv = C.getCalledOperand()->stripPointerCasts();
      if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
      if (auto* f = dyn_cast<Function>(cv)) F = f;
      else { AV c = val(s, C.getCalledOperand()); if (c.k == AV::Fn) F = c.fn; }
    }
    if (isa<InlineAsm>(C.getCalledOperand())) { retv(o, s, C.getType()->isVoidTy() ? AV::top() : freshOf(s, C.getType())); return; }
    pruneForCall(s, C);
    if (!F) {
      bool pool = false; for (auto& x : args) if (x.k == AV::Ptr && s.creg(x.reg) && s.creg(x.reg)->tag == 1) pool = true;
      const Function* H = M.getFunction(pool ? "vfm_foreign_with_object" : "vfm_foreign_other");
      if (H && !H->isDeclaration()) {
        Out o1; analyzeFn(H, &C, s, {}, o1);
        for (auto& r : o1.ret) { State t = r.first; AV v = C.getType()->isVoidTy() ? AV::top() : freshOf(t, C.getType()); o.ret.push_back({t, v}); if (pool) o.unw.push_back(r.first); }
        for (auto& u : o1.unw) o.unw.push_back(u);
        finish(o, C); return;
      }
      externCall(C, nullptr, s, args, o); finish(o, C); return; }
    std::string n = F->getName().str();
    if (vfCall(n, C, s, args, o)) { finish(o, C); return; }
    if (F->isIntrinsic() && intrinsic(C, F, s, args, o)) { finish(o, C); return; }
    if (builtin(n, C, s, args, o)) { finish(o, C); return; }
    if (F->isDeclaration()) { externCall(C, F, s, args, o); finish(o, C); return; }
    int rec = 0; for (auto& f : s.frames) if (f->fn == F) ++rec;
    if (rec >= 3 || s.frames.size() > 120) { unmodelled.insert("recursion:" + n); externCall(C, F, s, args, o); finish(o, C); return; }
    analyzeFn(F, &C, s, args, o);
    finish(o, C);
  }
  void finish(Out& o, const CallBase& C) {
    if (o.ret.size() > 1) {
      std::vector<State> v; bool nonvoid = !C.getType()->isVoidTy();
      for (auto& r : o.ret) { if (nonvoid) set(r.first, &C, r.second); v.push_back(r.first); }
      mergeList(v, opt.K, &C);
      o.ret.clear();
      for (auto& s : v) { AV r; if (nonvoid) r = val(s, &C); o.ret.push_back({s, r}); }
    }
    if (o.unw.size() > 1) mergeList(o.unw, std::max(1, opt.K / 4), &C);
  }
