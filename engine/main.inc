// Equality of two values extended from the same narrow type is equality of the narrow values:
// rewriting it keeps the meaning and avoids a case split on the sign of every character.
static void narrowCompares(Function& F) {
  std::vector<Instruction*> cast;
  auto src = [](Value* v, bool& sx) -> Value* { if (auto* z = dyn_cast<ZExtInst>(v)) { sx = false; return z->getOperand(0); } if (auto* z = dyn_cast<SExtInst>(v)) { sx = true; return z->getOperand(0); } return nullptr; };
  for (auto& B : F) for (auto& I : B) {
    if (isa<ZExtInst>(I) || isa<SExtInst>(I)) cast.push_back(&I);
    if (auto* C = dyn_cast<ICmpInst>(&I)) {
      if (!C->isEquality()) continue;
      bool sa = false, sb = false; Value* a = src(C->getOperand(0), sa); Value* b = src(C->getOperand(1), sb);
      if (a && b && sa == sb && a->getType() == b->getType()) { C->setOperand(0, a); C->setOperand(1, b); continue; }
      for (int i = 0; i < 2; ++i) {
        Value* x = i ? b : a; bool sx = i ? sb : sa; auto* k = dyn_cast<ConstantInt>(C->getOperand(1 - i));
        if (!x || !k || !x->getType()->isIntegerTy() || x->getType()->isIntegerTy(1)) continue;
        unsigned w = x->getType()->getIntegerBitWidth(); if (k->getBitWidth() > 64) continue;
        if (sx ? k->getValue().isSignedIntN(w) : k->getValue().isIntN(w)) { C->setOperand(i, x); C->setOperand(1 - i, ConstantInt::get(x->getType(), k->getValue().trunc(w))); break; }
      }
    }
  }
  for (auto it = cast.rbegin(); it != cast.rend(); ++it) if ((*it)->use_empty()) (*it)->eraseFromParent();
}
static std::string jesc(const std::string& s) {
  std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += ' '; else r += (char)c; } return r;
}
int main(int argc, char** argv) {
  // identical runs: no address-space randomisation (the order of some containers follows addresses)
  if (!getenv("VFA_CHILD")) { setenv("VFA_CHILD", "1", 1); if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
  double budget = 1e9; Options opt; std::set<long> stable; std::string file, outf; std::vector<std::string> entries;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entries.push_back(next());
    else if (a == "--out") outf = next();
    else if (a == "--K") opt.K = atoi(next().c_str());
    else if (a == "--join-iters") opt.joinIters = atoi(next().c_str());
    else if (a == "--peel") opt.peel = atoi(next().c_str());
    else if (a == "--small") { opt.small = true; opt.K = 400; opt.peel = 400; opt.maxStates = 4096; }
    else if (a == "--budget") budget = atof(next().c_str());
    else if (a == "--order-all") opt.orderAll = true;
    else if (a == "--kinds") { std::stringstream ss(next()); std::string k; while (std::getline(ss, k, ',')) opt.kinds.insert(k); }
    else if (a == "--no-alloc-fail") opt.allocFail = false;
    else if (a == "--dump") opt.dump = true;
    else if (a == "--trace") opt.trace = true;
    else if (a == "--stable") { std::stringstream ss(next()); std::string k; while (std::getline(ss, k, ',')) if (!k.empty()) stable.insert(atol(k.c_str())); }
    else if (a == "--prefix") opt.prefix = next();
    else if (a == "--max-states") opt.maxStates = atoi(next().c_str());
    else file = a;
  }
  LLVMContext ctx; SMDiagnostic err;
  auto M = parseIRFile(file, err, ctx);
  if (!M) { err.print("vfa", errs()); return 3; }
  {
    // SSA construction only; no pass that may exploit undefined behaviour
    PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    FunctionPassManager FPM; FPM.addPass(PromotePass());
    for (auto& F : *M) if (!F.isDeclaration()) { FPM.run(F, FAM); narrowCompares(F); }
  }
  std::string js = "{\"entries\":["; bool firstE = true; int bad = 0; bool any = false;
  if (entries.empty()) for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("vfh_")) entries.push_back(F.getName().str());
  for (auto& e : entries) {
    Function* F = M->getFunction(e);
    if (!F || F->isDeclaration()) { std::cerr << "entry " << e << " not found\n"; return 3; }
    any = true;
    auto t0 = std::chrono::steady_clock::now(); std::set<std::string> reachAll;
    g_lp_count = g_pivot_count = 0;
    std::vector<int> picks; std::unique_ptr<Analysis> AP; size_t nret = 0, nunw = 0; long oc = 0, od = 0, runs = 0; bool partial = false;
    std::map<std::string, std::pair<long, long>> tags;
    while (true) { // once; in bounded mode once per combination of picked values
    AP = std::make_unique<Analysis>(*M, opt); Analysis& A = *AP; A.stableOffs = stable; A.picks = picks; State s; Analysis::Out out;
    std::vector<State> starts{s};
    if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
      std::vector<std::pair<uint64_t, const Function*>> ctors;
      for (auto& op : ca->operands()) if (auto* cs = dyn_cast<ConstantStruct>(op)) if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f});
      std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
      for (auto& c : ctors) { std::vector<State> nx; for (auto& st : starts) { Analysis::Out o; A.analyzeFn(c.second, nullptr, st, {}, o); for (auto& r : o.ret) nx.push_back(r.first); } starts.swap(nx); }
    }
    for (auto& st : starts) A.analyzeFn(F, nullptr, st, {}, out);
    for (auto& r : out.ret)
      for (auto& m : r.first.mem) if (m.second->kind == RK::Heap && A.wants("leak")) {
        Violation v; v.kind = "leak"; v.where = Analysis::locOf(dyn_cast_or_null<Instruction>(m.second->site)); v.func = e; v.msg = "heap block still allocated at the end of the harness"; A.viols.push_back(v); break; }
    nret += out.ret.size(); nunw += out.unw.size(); ++runs;
    for (auto& o : A.obls) { oc++; if (!o.second.second) od++; }
    for (auto& t : A.tagStats) { tags[t.first].first += t.second.first; tags[t.first].second += t.second.second; }
    if (!opt.small || !A.viols.empty()) break;
    if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) { partial = true; break; }
    // next combination
    picks = A.picks; picks.resize(A.pickMax.size()); int i = (int)picks.size() - 1;
    while (i >= 0 && picks[i] + 1 >= A.pickMax[i]) --i;
    if (i < 0) break;
    ++picks[i]; picks.resize(i + 1);
    reachAll.insert(A.reachTags.begin(), A.reachTags.end());
    }
    Analysis& A = *AP; reachAll.insert(A.reachTags.begin(), A.reachTags.end()); A.reachTags = decltype(A.reachTags)(reachAll.begin(), reachAll.end()); A.tagStats = decltype(A.tagStats)(tags.begin(), tags.end());
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (!firstE) js += ","; firstE = false;
    js += "\n{\"entry\":\"" + jesc(e) + "\",\"seconds\":" + std::to_string(dt) + ",\"obligations\":" + std::to_string(oc) + ",\"discharged\":" + std::to_string(od) +
          ",\"returns\":" + std::to_string(nret) + ",\"unwinds\":" + std::to_string(nunw) + std::string(partial ? ",\"partial\":true" : "") + ",\"runs\":" + std::to_string(runs) + ",\"picks\":[" + [&] { std::string r; for (size_t i = 0; i < A.picks.size() && i < A.pickMax.size(); ++i) r += (i ? "," : "") + std::to_string(A.picks[i]); return r; }() + "]" + ",\"functions\":" + std::to_string(A.fnSeen.size()) + ",\"calls\":" + std::to_string(A.nCalls) + ",\"blocks\":" + std::to_string(A.nBlocks) +
          ",\"joins\":" + std::to_string(A.nJoin) + ",\"widenings\":" + std::to_string(A.nWiden) + ",\"lp\":" + std::to_string(g_lp_count) + ",\"pivots\":" + std::to_string(g_pivot_count) + ",\"maxstates\":" + std::to_string(A.maxSeen) + ",\"tags\":{";
    bool f = true; for (auto& t : A.tagStats) { if (!f) js += ","; f = false; js += "\"" + jesc(t.first) + "\":[" + std::to_string(t.second.first) + "," + std::to_string(t.second.second) + "]"; }
    js += "},\"reach\":["; f = true; for (auto& t : A.reachTags) { if (!f) js += ","; f = false; js += "\"" + jesc(t) + "\""; }
    js += "],\"repo_functions\":["; f = true;
    for (auto* fn : A.fnSeen) { DISubprogram* sp = fn->getSubprogram(); if (!sp) continue; std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; if (p.compare(0, opt.prefix.size(), opt.prefix) != 0) continue; if (!f) js += ","; f = false; js += "\"" + jesc(Analysis::fname(fn)) + "\""; }
    js += "],\"unmodelled\":["; f = true; for (auto& t : A.unmodelled) { if (!f) js += ","; f = false; js += "\"" + jesc(t) + "\""; }
    js += "],\"narrowed\":["; f = true; for (auto& t : A.narrowed) { if (!f) js += ","; f = false; js += "\"" + jesc(t) + "\""; }
    js += "],\"constants\":["; f = true;
    { std::set<std::string> cs; // integer constants the analysed library functions compute or compare with
      for (auto* fn : A.fnSeen) { DISubprogram* sp = fn->getSubprogram(); if (!sp) continue; std::string p = sp->getFilename().str(); if (!p.empty() && p[0] != '/') p = sp->getDirectory().str() + "/" + p; if (p.compare(0, opt.prefix.size(), opt.prefix) != 0) continue;
        for (auto& B : *fn) for (auto& I : B) { if (isa<GetElementPtrInst>(I) || isa<AllocaInst>(I) || isa<IntrinsicInst>(I)) continue;
          if (auto* cb = dyn_cast<CallBase>(&I)) if (auto* cf = cb->getCalledFunction()) if (cf->getName().starts_with("__cxa") || cf->getName().starts_with("_Zn") || cf->getName().starts_with("_Zd")) continue;
          for (auto& op : I.operands()) if (auto* k = dyn_cast<ConstantInt>(op)) if (k->getBitWidth() > 1 && k->getBitWidth() <= 64) cs.insert(std::to_string(k->getSExtValue())); } }
      for (auto& t : cs) { if (!f) js += ","; f = false; js += t; } }
    js += "],\"access\":["; f = true;
    for (auto& x : A.accLog) { auto& c = x.second; if (!f) js += ","; f = false; js += "\n  {\"tag\":" + std::to_string(c.tag) + ",\"off\":" + zstr(c.off) + ",\"size\":" + zstr(c.size) + ",\"write\":" + (c.write ? "true" : "false") + ",\"atomic\":" + (c.atomic ? "true" : "false") + ",\"held\":" + std::to_string(c.held) + ",\"where\":\"" + jesc(c.where) + "\"}"; }
    js += "],\"violations\":["; f = true;
    for (auto& v : A.viols) {
      ++bad; if (!f) js += ","; f = false;
      js += "\n  {\"kind\":\"" + v.kind + "\",\"tag\":\"" + jesc(v.tag) + "\",\"where\":\"" + jesc(v.where) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"stack\":[";
      for (size_t i = 0; i < v.stack.size(); ++i) js += (i ? "," : "") + std::string("\"") + jesc(v.stack[i]) + "\"";
      js += "]";
      if (opt.dump) js += ",\"state\":\"" + jesc(v.state) + "\"";
      js += "}";
    }
    js += "]}";
  }
  js += "\n]}\n";
  if (outf.empty()) std::cout << js; else { std::ofstream o(outf); o << js; }
  if (!any) return 3;
  return bad ? 1 : 0;
}
