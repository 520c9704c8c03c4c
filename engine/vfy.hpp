// vfy: verification-condition generator and prover for contract harnesses, over
// the LLVM IR that clang emits for the real headers.  See DESIGN.md.
#pragma once
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>

#include <z3++.h>

#include <chrono>
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace vfy {
using u8 = uint8_t;
using u32 = uint32_t;
using u64 = uint64_t;
using u128 = unsigned __int128;

extern z3::context *Z;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }

// A value: concrete (<=128 bits), symbolic (Bool for w==1, BV otherwise) or aggregate.
struct V {
    unsigned w = 0;          // bit width; 0 = void or aggregate
    bool sym = false;
    u128 c = 0;
    z3::expr e;
    std::shared_ptr<std::vector<V>> agg;
    V() : e(*Z) {}
    static V con(unsigned w, u128 c) { V v; v.w = w; v.c = c & maskw(w); return v; }
    static V mk(unsigned w, z3::expr const &e);
    static V aggregate(std::vector<V> xs) { V v; v.agg = std::make_shared<std::vector<V>>(std::move(xs)); return v; }
    bool isAgg() const { return (bool) agg; }
    z3::expr ex() const;      // as expression (Bool for w==1)
    z3::expr bv() const;      // as bit-vector even for w==1
    u64 u() const { return (u64) c; }
};

// ---------------------------------------------------------------- memory
struct SymCell { V v; unsigned n; };   // n bytes, v.w == 8*n

struct Obj;
struct Log {                            // one update of a logged (symbolically sized) object
    enum Kind { Store, Copy, Set, Base } kind = Base;
    z3::expr off, len, val;             // Store: bytes of val at off; Set: val byte
    unsigned n = 0;
    std::shared_ptr<Log const> src;     // Copy source log
    z3::expr soff;
    std::shared_ptr<Log const> prev;
    z3::expr arr;                       // Base: array
    Log() : off(*Z), len(*Z), val(*Z), soff(*Z), arr(*Z) {}
};

struct Obj {
    u32 id = 0;
    u64 base = 0;
    bool alive = true, writable = true;
    enum Kind { Global, Stack, Heap, Exc, Func } kind = Heap;
    int allocTag = 0;                   // 1 malloc, 2 new, 3 new[]
    std::string name;
    bool logged = false;
    V size;                             // 64 bit
    // concrete layout
    std::vector<u8> bytes;
    std::vector<u8> st;                 // 0 uninit, 1 concrete, 2 symbolic
    std::map<u32, SymCell> syms;
    // logged layout
    std::shared_ptr<Log const> log;
};

struct Frame {
    llvm::Function *fn = nullptr;
    llvm::BasicBlock *bb = nullptr, *prev = nullptr;
    llvm::BasicBlock::iterator pc;
    std::vector<V> regs;
    std::vector<u32> allocas;
    std::vector<std::pair<llvm::Instruction const *, u32>> allocaOf;
    llvm::CallBase *call = nullptr;     // call in the parent frame (null: special)
    enum Special { None, EndCatch, Top, Resume } special = None;
    u64 excToFree = 0;
    bool hooked = false;                // the interference hook of the current instruction has run
    std::map<llvm::BasicBlock *, unsigned> visits; // loop header visits
    std::set<llvm::BasicBlock *> cut;   // headers cut by an inductive invariant
    u64 uid = 0;
};

struct Exc { u64 ptr = 0; u64 tinfo = 0; u64 dtor = 0; int handlers = 0; };

struct TapeEntry { std::string name; unsigned w; V v; };

struct CmpCall {                        // a memcmp call replaced by its contract
    std::shared_ptr<Log const> a, b;
    z3::expr ao, bo, len, r, d;
    unsigned es = 1;
    CmpCall() : ao(*Z), bo(*Z), len(*Z), r(*Z), d(*Z) {}
};

struct State {
    std::vector<Frame> fr;
    std::map<u32, std::shared_ptr<Obj>> mem;
    std::vector<z3::expr> pc;
    std::vector<Exc> excs;              // live exception objects
    std::vector<u64> caught;            // stack of caught exceptions
    int uncaught = 0;
    V uncaughtBase;
    u64 inflight = 0;                   // while unwinding
    std::vector<TapeEntry> tape;
    std::vector<CmpCall> cmpCalls;
    std::vector<V> indexTerms, valueTerms;
    std::vector<std::array<z3::expr, 3>> prods;                // p stands for x*y: {p, x, y}
    std::vector<std::pair<z3::expr, z3::expr>> divHints;
    std::vector<std::array<z3::expr, 4>> divs;                 // x = q*y + r: {q, r, x, y}
    std::vector<z3::expr> facts;
    struct Range { z3::expr e; bool sg; __int128 lo, hi; };
    std::vector<Range> ranges;          // lo <= e <= hi
    std::vector<llvm::Function *> preds, funcs;
    std::map<std::string, int> flags;
    std::map<u64, u64> guards;
    llvm::Function *hookBefore = nullptr, *hookAfter = nullptr; // run around atomic accesses to shared objects
    int inHook = 0;
    std::set<u32> sharedObjs;
    std::set<std::pair<u32, u64>> atomicWords, lockedWords;
    u64 steps = 0;
    unsigned forks = 0;
    std::shared_ptr<z3::model> model;   // satisfies pc, if set
    unsigned abstracted = 0;            // number of loop cuts on this path
    std::vector<std::pair<u64, u64>> atexits;
    struct Snap { std::vector<std::pair<u64, llvm::Instruction const *>> at; std::map<u32, std::shared_ptr<Obj>> mem; };
    std::vector<Snap> snaps;            // states at calls of vf_cycle
    V retval;
};

struct Obl {
    std::string name, kind, loc, func;
    u64 checks = 0, trivially = 0, proved = 0, refuted = 0, unknown = 0;
    bool abstracted = false;
    std::vector<std::string> tapes;     // counterexample tapes (JSON arrays)
    std::vector<std::string> trace;
};
} // namespace vfy
