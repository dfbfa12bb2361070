// Symbolic executor for LLVM IR: state, memory and program representation.
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <memory>
#include <set>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>

struct Cell { Expr* e; u32 idx; };

struct Obj {
    u32 ref = 1; u32 size = 0; bool freed = false; bool ro = false; uint8_t kind = 0; // 0 global 1 heap 2 stack 3 function 4 heap array(new[])
    u32 nsym = 0;
    uint8_t* b = nullptr; Cell* s = nullptr;
    const char* name = nullptr;
    ~Obj() { free(b); free(s); }
};
enum { CHUNK = 64 };
struct Chunk { Obj* o[CHUNK]; Chunk() { memset(o, 0, sizeof o); }
    Chunk(const Chunk& c) { memcpy(o, c.o, sizeof o); for (Obj* x : o) if (x) x->ref++; }
    ~Chunk() { for (Obj* x : o) if (x && --x->ref == 0) delete x; } };

struct FnInfo; struct BB;
struct Inst {
    unsigned opc; // llvm opcode or pseudo
    uint16_t w, wa; uint8_t sub; bool seen; bool isAgg;
    int dst; unsigned nops; int* ops;
    i64 coff; struct GepIdx { int op; u64 scale; unsigned w; }* gidx; unsigned ngidx; // GEP
    BB** succ; unsigned nsucc;
    FnInfo* callee; int bi; // builtin id
    const llvm::Instruction* I; llvm::Type* ty;
    BB* bb;
};
struct Phi { int dst; std::vector<std::pair<BB*, int>> in; };
struct BB { std::vector<Phi> phis; std::vector<Inst> ins; const llvm::BasicBlock* B; FnInfo* fn; u32 id; };
struct FnInfo {
    llvm::Function* F; bool prepared = false; std::string name, dem; int bi = -1; // builtin handler
    std::vector<std::unique_ptr<BB>> bbs; int nregs = 0; std::vector<V> consts; std::vector<bool> byval; std::vector<u32> byvalSize; u64 addr = 0; u64 calls = 0;
};
struct Frame {
    FnInfo* fn; BB* bb; u32 ip; std::vector<V> regs; std::vector<u32> allocas;
};
typedef std::shared_ptr<Frame> FrameP;
struct Exc { u64 obj; u64 tinfo; u64 adjusted; int handlers; };
struct Thread { std::vector<FrameP> st; int status = 0; /*0 run 1 blocked-mutex 2 blocked-cond 3 blocked-join 4 done*/ u64 waitOn = 0; u64 waitMx = 0; u32 id = 0; int retKind = 0; };
struct Note { std::string name; Expr* e; };
struct State {
    std::vector<std::shared_ptr<Chunk>> mem; u32 nObjs = 0;
    std::vector<Thread> th; int cur = 0;
    std::vector<Expr*> pc; ModelP model;
    std::unordered_map<Expr*, u64> conc;
    std::vector<std::pair<std::string, Expr*>> inputs;
    std::vector<Note> notes;
    std::vector<Exc> excs; std::vector<u64> caught;
    std::map<u64, int> mutexes; // addr -> owner thread + 1
    u64 steps = 0; u64 depth = 0; u32 preempt = 0;
    std::map<std::string, int> nameCount;
    std::vector<std::string> covers;
    Expr* pend = nullptr; std::vector<int> pendR; bool pendCur = false;
};
struct PathEnd { int kind; std::string id, msg; }; // 0 ok 1 assume-false 2 violation 3 unsupported/inconclusive
struct Retry {};
