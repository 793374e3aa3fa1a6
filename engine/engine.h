// vpsym: symbolic executor for LLVM IR (clang-18) with z3 as decision procedure.
#pragma once
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3++.h>
#include "poly.h"
#include <memory>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <functional>
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <fstream>
#include <sstream>

typedef uint64_t u64; typedef uint32_t u32; typedef unsigned __int128 u128; typedef uint8_t u8;

extern z3::context C;

struct Sym { z3::expr e; std::vector<int> vars; bool isReal, isBool, isBV, isFP; Sym(const z3::expr& x) : e(x), isReal(false), isBool(false), isBV(false), isFP(false) {} };
Sym* mk(const z3::expr& e);

struct Val;
struct Agg { std::vector<Val> v; };
struct Val {
    enum K : u8 { UND, INT, FLT, SYM, AGG } k = UND;
    u8 fw = 64;        // float width (32/64)
    uint16_t w = 64;   // int width in bits
    union { u64 i; double d; Sym* s; Agg* a; };
    u64 hi = 0;        // upper 64 bits for i128
    Val() : i(0) {}
    static Val I(u64 x, unsigned w) { Val v; v.k = INT; v.w = w; v.i = w >= 64 ? x : (x & ((1ull << w) - 1)); return v; }
    static Val I128(u128 x) { Val v; v.k = INT; v.w = 128; v.i = (u64)x; v.hi = (u64)(x >> 64); return v; }
    static Val F(double x, u8 fw) { Val v; v.k = FLT; v.fw = fw; v.d = fw == 32 ? (double)(float)x : x; return v; }
    static Val P(u64 x) { return I(x, 64); }
    static Val S(const z3::expr& e, unsigned w) { Val v; v.k = SYM; v.w = w; v.s = mk(e); return v; }
    static Val A(std::vector<Val> x) { Val v; v.k = AGG; v.a = new Agg{std::move(x)}; return v; }
    bool sym() const { return k == SYM; }
    u128 u() const { return ((u128)hi << 64) | i; }
};

struct Cell { Val v; u8 size; };
struct Obj {
    u32 size = 0; bool live = true, ro = false; u8 kind = 0; // 0 heap 1 stack 2 global 3 func 4 new[] ...
    std::vector<u8> b;
    std::map<u32, Cell> cells;
    const llvm::Function* fn = nullptr;
    const char* name = "";
};
typedef std::shared_ptr<Obj> ObjP;

struct ObjTable {
    static const int CH = 256;
    typedef std::vector<ObjP> Chunk;
    std::vector<std::shared_ptr<Chunk>> ch;
    Obj* get(u32 id) const { u32 c = id / CH; if (c >= ch.size() || !ch[c]) return nullptr; return (*ch[c])[id % CH].get(); }
    Chunk& wchunk(u32 id) {
        u32 c = id / CH; if (c >= ch.size()) ch.resize(c + 1);
        if (!ch[c]) { ch[c] = std::make_shared<Chunk>(CH); }
        else if (ch[c].use_count() > 1) ch[c] = std::make_shared<Chunk>(*ch[c]);
        return *ch[c];
    }
    Obj* getw(u32 id) {
        auto& c = wchunk(id); ObjP& p = c[id % CH]; if (!p) return nullptr;
        if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
        return p.get();
    }
    void set(u32 id, ObjP o) { wchunk(id)[id % CH] = o; }
};

struct DInst {
    const llvm::Instruction* I; unsigned op; int dst; std::vector<int> ops; // operand refs (>=0 slot, <0: const ~idx)
    u64 gepConst = 0; std::vector<std::pair<int, int64_t>> gepVar;
    llvm::Type* ty; int aux = 0; int ext = -1; const llvm::Function* callee = nullptr; int succ[2] = {-1, -1};
};
struct FnInfo {
    const llvm::Function* F; std::vector<DInst> code; std::vector<int> bbStart; std::map<const llvm::BasicBlock*, int> bbId;
    int nslots = 0; std::vector<Val> consts; std::string dem; bool repo = false;
};
struct Frame {
    FnInfo* fi; int pc = 0; int bb = 0, prevbb = -1; std::vector<Val> r; std::vector<u32> allocas; std::vector<Val> varargs; u32 va_obj = 0;
};
struct Exc { u64 ptr = 0, ti = 0; };
struct Thr { enum St : u8 { RUN, LOCK, JOIN, CV, DONE } st = RUN; std::vector<Frame> fr; Exc cur; std::vector<Exc> caught; u64 on = 0, cv = 0; bool go = false; int phase = 0; int slot = 0; std::vector<int> vc; };
struct Acc { u8 t; bool w, at; u8 mask; int clk; };
typedef std::unordered_map<u32, std::vector<Acc>> Shadow;

struct Asg;
struct State {
    std::vector<std::pair<std::shared_ptr<Asg>, size_t>> pool; int poolFails = 0;
    std::vector<Frame> fr;
    ObjTable mem;
    std::vector<Sym*> pc;
    std::unordered_set<unsigned> known;            // ids of asserted conditions
    std::unordered_map<unsigned, u64> eqv;         // expr id -> concrete value
    std::map<std::string, int> names;
    std::vector<std::pair<std::string, Val>> inputs;
    Exc cur; std::vector<Exc> caught;
    u64 ninst = 0; int forks = 0; int depth = 0;
    std::map<u64, int> misc;                       // engine-modelled small state
    std::map<std::string, Val> named;
    std::unordered_set<unsigned> atoms;            // function atoms whose defining constraints are part of pc
    bool divcheck = false; bool itemode = false;
    std::vector<std::string> trace;
    std::vector<Thr> thr; int ct = 0; int preempt = 2; std::map<u64, int> mtx; std::map<u64, std::vector<int>> syncVC; std::map<std::pair<int, u64>, u64> tls; bool norace = false, atomicAcc = false; std::map<u32, std::shared_ptr<Shadow>> shadow;
};
