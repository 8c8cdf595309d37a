
  // (included inside struct Analysis)  debug-info directed "arbitrary object" states
  static std::string qual(const DIType* t) {
    std::string n = t->getName().str(); const DIScope* sc = t->getScope();
    while (sc && !isa<DIFile>(sc) && !isa<DICompileUnit>(sc)) { std::string m = sc->getName().str(); if (!m.empty()) n = m + "::" + n; sc = sc->getScope(); }
    return n;
  }
  std::map<std::string, const DICompositeType*> typeCache; bool typesLoaded = false;
  const DICompositeType* findType(const std::string& n) {
    if (!typesLoaded) {
      typesLoaded = true; DebugInfoFinder f; f.processModule(M);
      for (auto* t : f.types()) if (auto* c = dyn_cast<DICompositeType>(t)) if (!(c->getFlags() & DINode::FlagFwdDecl)) typeCache[qual(c)] = c;
    }
    auto it = typeCache.find(n); return it == typeCache.end() ? nullptr : it->second;
  }
  static const DIType* strip(const DIType* t) {
    while (t) {
      auto* d = dyn_cast<DIDerivedType>(t); if (!d) return t;
      switch (d->getTag()) { case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_member: case dwarf::DW_TAG_inheritance: case dwarf::DW_TAG_restrict_type: t = d->getBaseType(); continue; default: return t; }
    }
    return t;
  }
  static Z tsizeBytes(const DIType* t) { t = strip(t); return t ? (Z)(t->getSizeInBits() / 8) : 0; }
  std::set<long> stableOffs; // object offsets never written after construction
  void havocType(State& s, int reg, Z off, const DIType* t0, int depth, Z objBase) {
    const DIType* t = strip(t0); if (!t || depth > 8) return;
    if (stableOffs.count((long)(off - objBase)) && depth == 1) return;
    if (auto* b = dyn_cast<DIBasicType>(t)) {
      Z sz = (Z)(b->getSizeInBits() / 8); 
      AV v; if (b->getEncoding() == dwarf::DW_ATE_boolean) { int x = fresh(); s.p.addGE(Lin::var(x)); s.p.addGE(Lin(1) - Lin::var(x)); v = AV::mkInt(Lin::var(x)); }
      else if (b->getEncoding() == dwarf::DW_ATE_float) v = AV::mkInt(Lin::var(fresh()));
      else v = freshInt(s, (unsigned)sz * 8, b->getEncoding() == dwarf::DW_ATE_signed);
      killOverlap(s, reg, Lin(off), Lin(sz)); s.reg(reg)->cells[off] = Cell{sz, v}; return;
    }
    if (auto* c = dyn_cast<DICompositeType>(t)) {
      std::string n = c->getName().str(); Z sz = (Z)(c->getSizeInBits() / 8);
      if (c->getTag() == dwarf::DW_TAG_enumeration_type) { killOverlap(s, reg, Lin(off), Lin(sz)); s.reg(reg)->cells[off] = Cell{sz, freshInt(s, (unsigned)sz * 8)}; return; }
      if (n == "mutex" || n == "recursive_mutex" || n == "timed_mutex" || n == "condition_variable" || n == "condition_variable_any") return;
      if (n.compare(0, 7, "vector<") == 0 && sz == 24) {
        Z es = 0; for (auto* tp : c->getTemplateParams()) if (auto* tt = dyn_cast<DITemplateTypeParameter>(tp)) { es = tsizeBytes(tt->getType()); break; }
        if (es > 0) {
          int nn = fresh(), cc = fresh(); s.p.addGE(Lin::var(nn)); s.p.addGE(Lin::var(cc) - Lin::var(nn)); s.p.addGE(Lin(pow2(40)) - Lin::var(cc));
          int id = newHeap(s, Lin::var(cc) * es, RK::Heap, nullptr); s.reg(id)->tag = 2;
          killOverlap(s, reg, Lin(off), Lin(24)); Region* r = s.reg(reg);
          r->cells[off] = Cell{8, AV::mkPtr(id, Lin(0))}; r->cells[off + 8] = Cell{8, AV::mkPtr(id, Lin::var(nn) * es)}; r->cells[off + 16] = Cell{8, AV::mkPtr(id, Lin::var(cc) * es)};
          return;
        }
      }
      if (c->getTag() == dwarf::DW_TAG_union_type || c->getTag() == dwarf::DW_TAG_array_type) { killOverlap(s, reg, Lin(off), Lin(sz)); return; }
      for (auto* e : c->getElements()) if (auto* m = dyn_cast<DIDerivedType>(e)) {
        if (m->getTag() == dwarf::DW_TAG_member && !(m->getFlags() & DINode::FlagStaticMember)) havocType(s, reg, off + (Z)(m->getOffsetInBits() / 8), m->getBaseType(), depth + 1, objBase);
        else if (m->getTag() == dwarf::DW_TAG_inheritance) { if (depth > 0) havocType(s, reg, off + (Z)(m->getOffsetInBits() / 8), m->getBaseType(), depth + 1, objBase); }
      }
      return;
    }
    Z sz = tsizeBytes(t); if (sz > 0) killOverlap(s, reg, Lin(off), Lin(sz));
  }
