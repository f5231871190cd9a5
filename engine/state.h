#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <map>
#include <memory>

namespace eng {

struct Val {
    uint32_t w = 0;        // bit width; 0 = void/aggregate
    uint64_t c = 0;        // concrete value when e == nullptr (w <= 64)
    E e = nullptr;         // symbolic (or wide constant) value
    const std::vector<Val> *agg = nullptr;
    bool conc() const { return !e && !agg; }
};
inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
inline Val cv(unsigned w, uint64_t v) { Val r; r.w = w; r.c = maskw(v, w); return r; }

enum class Kind : uint8_t { Global, Stack, Heap, Extern };

struct MemObj {
    uint64_t addr = 0, size = 0;
    Kind kind = Kind::Heap;
    bool alive = true, ro = false;
    const char *name = "";
    std::vector<uint8_t> data;
    std::vector<E> sym; // empty, or size entries (nullptr = concrete)
    bool anySym() const { return !sym.empty(); }
};
using Obj = std::shared_ptr<MemObj>;

struct FuncInfo {
    const llvm::Function *f;
    llvm::DenseMap<const llvm::Value *, unsigned> idx;
    unsigned n = 0;
};

struct Frame {
    FuncInfo *fi = nullptr;
    const llvm::BasicBlock *bb = nullptr;
    llvm::BasicBlock::const_iterator pc;
    std::vector<Val> regs;
    const llvm::CallBase *caller = nullptr; // call instruction in the frame below
    std::vector<uint64_t> allocas;
    std::vector<Val> varargs;
    // in-flight exception for a landing pad entered in this frame
    uint64_t excAddr = 0, excType = 0;
    bool ctor = false; // bottom frame: global constructor / entry
};

struct Caught { uint64_t addr, type; bool rethrown; };

struct State {
    std::vector<Frame> st;
    std::map<uint64_t, Obj> mem; // keyed by base address
    std::vector<E> pc;
    std::unordered_map<E, APInt> known;
    Asg asg;
    std::vector<Caught> caught;
    std::map<std::string, unsigned> symCount;
    std::vector<unsigned> symOrder; // var ids created on this path
    std::vector<std::string> trace; // branch notes from the harness
    uint64_t heapNext = 0x500000000000ull, stackNext = 0x700000000000ull;
    uint64_t steps = 0;
    unsigned forks = 0;
    std::string region; // memory violations from here on are this listed finding
};
} // namespace eng
