// Abstract interpreter over LLVM IR.  See DESIGN.md for the abstract domain.
#pragma once
#include "num.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include <functional>
#include <unordered_map>
#include <unordered_set>

using namespace llvm;

struct AV {
  enum K : uint8_t { Top, Int, Ptr, Fn, Agg } k = Top;
  int reg = 0;
  Lin e;
  const Function* fn = nullptr;
  std::shared_ptr<std::vector<AV>> agg;
  static AV top() { return AV(); }
  static AV mkInt(const Lin& l) { AV a; a.k = Int; a.e = l; return a; }
  static AV mkPtr(int r, const Lin& o) { AV a; a.k = Ptr; a.reg = r; a.e = o; return a; }
  static AV mkFn(const Function* f) { AV a; a.k = Fn; a.fn = f; return a; }
  static AV mkAgg(std::vector<AV> v) { AV a; a.k = Agg; a.agg = std::make_shared<std::vector<AV>>(std::move(v)); return a; }
};

struct Cell { Z size = 0; AV v; };
struct Tracked { Lin off; Z size = 0; std::map<Z, Cell> cells; };
struct Ghost { Lin off; AV val; };
struct Bg { Z off = 0, len = 0; int byte = 0; };

// set of byte values
struct BS {
  uint64_t w[4] = {0, 0, 0, 0};
  static BS all() { BS b; for (auto& x : b.w) x = ~0ull; return b; }
  void add(unsigned v) { w[v >> 6] |= 1ull << (v & 63); }
  bool has(unsigned v) const { return w[v >> 6] >> (v & 63) & 1; }
  bool full() const { return (w[0] & w[1] & w[2] & w[3]) == ~0ull; }
  bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); }
  bool merge(const BS& o) { bool ch = false; for (int i = 0; i < 4; ++i) { uint64_t n = w[i] | o.w[i]; ch |= n != w[i]; w[i] = n; } return ch; }
};
enum class RK : uint8_t { Null, Global, Alloca, Heap, Sym, Exc };
struct Region {
  RK kind = RK::Heap;
  Lin size;
  const Value* site = nullptr;
  int tag = 0;          // harness tag (guards, origin)
  int addrv = 0;        // symbolic address variable
  bool ghostInit = false;
  bool arrayNew = false;
  int cstr = 0;         // 1: NUL-terminated text buffer (size includes NUL)
  // byte values that may have been written since the block was created, per 8-byte granule
  // (one granule for blocks of symbolic size); anyByte: unknown contents
  bool anyByte = false;
  bool hasExcl = false; Lin excl; // no byte of the (never written) block equals excl
  std::map<Z, BS> sets;
  std::vector<Tracked> recent; // values most recently read at symbolic offsets (forgotten at writes and loop heads)
  std::map<Z, Cell> cells;
  std::vector<Bg> bg;
  std::vector<Tracked> tracked;
  std::vector<Ghost> ghosts;
};
using RP = std::shared_ptr<Region>;

struct Frame {
  const Function* fn = nullptr;
  const Instruction* call = nullptr;
  uint64_t ctx = 0;
  std::map<const Value*, AV> env;
  std::vector<int> allocas;
};

struct State {
  Poly p;
  std::map<int, RP> mem;
  std::vector<std::shared_ptr<Frame>> frames;
  Frame& top() {
    auto& f = frames.back();
    if (f.use_count() > 1) f = std::make_shared<Frame>(*f);
    return *f;
  }
  const Frame& ctop() const { return *frames.back(); }
  Region* reg(int id) { // writable
    auto it = mem.find(id); if (it == mem.end()) return nullptr;
    if (it->second.use_count() > 1) it->second = std::make_shared<Region>(*it->second);
    return it->second.get();
  }
  const Region* creg(int id) const { auto it = mem.find(id); return it == mem.end() ? nullptr : it->second.get(); }
};
