// Symbolic executor for LLVM bitcode: data structures.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GlobalVariable.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <functional>
#include <set>

struct Val { // e == nullptr: concrete, value in c (at most 64 bits)
  uint64_t c; E e;
  Val(uint64_t c = 0, E e = nullptr) : c(c), e(e) {}
};

struct SB { E e; uint32_t idx; };
enum OKind : uint8_t { OK_GLOBAL, OK_STACK, OK_MALLOC, OK_NEW, OK_NEWARR, OK_EXC };
struct Obj {
  uint64_t base = 0, size = 0; OKind kind = OK_GLOBAL; bool ro = false, freed = false; const char *freedBy = nullptr;
  std::vector<uint8_t> c;   // concrete bytes
  std::vector<uint8_t> st;  // 0 concrete, 1 symbolic, 2 uninitialised
  std::vector<SB> s;        // symbolic bytes (allocated on demand)
  std::string name;
};
struct Chunk { std::shared_ptr<Obj> o[128]; };
struct Region { std::vector<std::shared_ptr<Chunk>> ch; uint64_t n = 0; };
static const uint64_t STACK0 = 1u << 20, HEAP0 = 1u << 24;
struct Mem {
  Region r[3];
  Region &reg(uint64_t &id) { if (id >= HEAP0) { id -= HEAP0; return r[2]; } if (id >= STACK0) { id -= STACK0; return r[1]; } return r[0]; }
  Obj *get(uint64_t id) { Region &R = reg(id); if (id >= R.n) return nullptr; return R.ch[id / 128]->o[id % 128].get(); }
  Obj *wr(uint64_t id) {
    Region &R = reg(id);
    auto &c = R.ch[id / 128]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    auto &o = c->o[id % 128]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
    return o.get();
  }
  void set(uint64_t id, std::shared_ptr<Obj> o) {
    Region &R = reg(id);
    if (R.n <= id) R.n = id + 1;
    while (R.ch.size() <= id / 128) R.ch.push_back(std::make_shared<Chunk>());
    auto &c = R.ch[id / 128]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
    c->o[id % 128] = o;
  }
};

struct Op { int slot; Val v; }; // slot < 0: constant v
struct Move { int dst; Op src; };
struct Edge { int target; std::vector<Move> moves; };
struct Fn;
struct State;
typedef void (*Builtin)(State &s, struct Inst &I, std::vector<Val> &args);
struct Inst {
  unsigned opc = 0; int dst = -1; unsigned w = 0; unsigned w2 = 0; int pred = 0;
  std::vector<Op> ops; std::vector<int> wid; // operand widths
  uint64_t imm = 0; std::vector<uint64_t> scale;
  std::vector<Edge> edges; std::vector<uint64_t> cases;
  llvm::Instruction *I = nullptr; llvm::Type *ty = nullptr;
  llvm::Function *callee = nullptr; int intr = 0; std::vector<std::pair<int, uint64_t>> byval;
};
struct Fn {
  llvm::Function *F; std::vector<Inst> code; int nslots = 0; std::vector<int> argSlots; std::string name; bool repo = false; std::string file;
};
struct Frame { Fn *f; int pc; std::vector<Val> regs; uint64_t stackBase; int retDst; Inst *call; };

struct Caught { uint64_t obj; };
struct Exc { uint64_t obj = 0; uint64_t tinfo = 0; bool active = false; };
struct Input { std::string name; unsigned w; E e; };
struct UF { std::string tag; std::vector<E> in; std::vector<E> out; };

struct State {
  std::vector<Frame> fr; Mem mem; std::vector<E> cons; std::shared_ptr<Model> model; uint64_t epoch = 0;
  std::map<std::string, int> cnt; std::vector<Input> inputs; std::vector<std::pair<std::string, int>> choices;
  std::vector<std::shared_ptr<UF>> ufs;
  std::vector<std::pair<std::string, E>> obs; std::vector<std::string> reached;
  std::unordered_map<E, bool> known; std::unordered_map<E, uint64_t> eqs;
  std::map<uint64_t, std::pair<uint64_t, uint64_t>> excInfo; // exception object -> tinfo, dtor
  std::vector<uint64_t> caught; Exc cur;
  int pending = -1; int expectExit = -2; uint64_t instrs = 0; uint64_t depthForks = 0; bool dead = false; E patient = nullptr;
  std::map<uint64_t, uint64_t> notes;
};
