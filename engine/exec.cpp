// Executor: LLVM IR interpretation over symbolic states.
#include "core.h"
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/AtomicOrdering.h>
using namespace llvm;
typedef z3::expr E;

struct PathEnd { std::string kind, msg; };
[[noreturn]] static void endPath(const std::string& k, const std::string& m) { throw PathEnd{k, m}; }

static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout* DL;
static u32 nextObj = 16;
static std::unordered_map<const GlobalValue*, u64> gaddr;
static std::vector<std::unique_ptr<State>> work;
static std::unordered_map<const Function*, FnInfo*> fninfo;
static std::map<std::string, long> endings; static std::map<std::string, long> endMsgs;
static std::set<std::string> fnExecuted;

struct LabelRec { long proved = 0, viol = 0, unk = 0; bool witness = false; double t = 0; long trivial = 0; };
static std::map<std::string, LabelRec> labels;
struct Viol { std::string label, detail; std::vector<std::pair<std::string, std::string>> inputs; bool hasModel; bool solverSat; };
static std::vector<Viol> viols; static std::map<std::string, int> violCount;

static inline u64 A(u32 id, u32 off = 0) { return ((u64)id << 24) | off; }
static std::string jstr(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }

// ------------------------------------------------------------------ helpers on values
static bool isR() { return O.mode == 'R'; }
static E bvE(const Val& v, unsigned w) {
    if (v.k == Val::SYM) {
        E e = v.s->e;
        if (e.is_bool()) return z3::ite(e, C.bv_val(1, w), C.bv_val(0, w));
        if (e.is_fpa()) return E(C, Z3_mk_fpa_to_ieee_bv(C, e));
        if (e.is_real()) endPath("unsupported", "integer operation on real-valued bits");
        return e;
    }
    if (v.k == Val::FLT) { if (v.fw == 32) { float f = v.d; u32 b; memcpy(&b, &f, 4); return C.bv_val((uint64_t)b, 32); } u64 b; memcpy(&b, &v.d, 8); return C.bv_val((uint64_t)b, 64); }
    if (w > 64) { E hi = C.bv_val((uint64_t)v.hi, w - 64), lo = C.bv_val((uint64_t)v.i, 64); return z3::concat(hi, lo); }
    return C.bv_val((uint64_t)v.i, w);
}
static E boolE(const Val& v) {
    if (v.k == Val::SYM) { if (v.s->isBool) return v.s->e; return v.s->e == C.bv_val(1, v.s->e.get_sort().bv_size()); }
    return C.bool_val((v.i & 1) != 0);
}
static z3::sort fpS(int w) { return w == 32 ? C.fpa_sort(8, 24) : C.fpa_sort(11, 53); }
static E fpE(const Val& v, int w) {
    if (v.k == Val::SYM) { if (v.s->isFP) return v.s->e; if (v.s->isBV) return E(C, Z3_mk_fpa_to_fp_bv(C, v.s->e, fpS(w))); endPath("unsupported", "fp from non-fp"); }
    if (v.k == Val::INT) { double d; u64 b = v.i; memcpy(&d, &b, 8); if (w == 32) { u32 c = v.i; float f; memcpy(&f, &c, 4); return C.fpa_val(f); } return C.fpa_val(d); }
    if (w == 32) return C.fpa_val((float)v.d);
    return C.fpa_val(v.d);
}
static double fltOf(const Val& v) { if (v.k == Val::FLT) return v.d; if (v.k == Val::INT) { double d; memcpy(&d, &v.i, 8); if (v.w == 32) { float f; u32 b = v.i; memcpy(&f, &b, 4); d = f; } return d; } return 0; }
static E rE(const Val& v) {
    if (v.k == Val::SYM) { if (v.s->isReal) return v.s->e; endPath("unsupported", "real from non-real " + v.s->e.to_string().substr(0, 80)); }
    double d = fltOf(v);
    if (!std::isfinite(d)) endPath("nonfinite", "non-finite constant in real arithmetic");
    return snap(d);
}
static Val mkBV(E e, unsigned w) {
    e = e.simplify();
    if (e.is_bool()) { if (e.is_true()) return Val::I(1, 1); if (e.is_false()) return Val::I(0, 1); return Val::S(e, 1); }
    if (e.is_numeral()) { if (w <= 64) { uint64_t x; if (Z3_get_numeral_uint64(C, e, &x)) return Val::I(x, w); } }
    return Val::S(e, w);
}
static Val mkBool(E e) { if (isR() ) { e = normCond(e); } else e = e.simplify(); if (e.is_true()) return Val::I(1, 1); if (e.is_false()) return Val::I(0, 1); return Val::S(e, 1); }
static std::vector<std::shared_ptr<RF>> realVals; static std::unordered_set<RF*> realValSeen; // candidate square roots (see realSqrt)
static Val mkR(E e, u8 fw = 64) {
    auto rf = rfOf(e);
    if (rf) {
        if (rf->n.t.size() >= 2 && rf->n.t.size() <= 24 && realValSeen.insert(rf.get()).second) realVals.push_back(rf);
        if (rf->n.isConst() && rf->d.empty()) { mpq_class q = rf->n.cval(); double d = q.get_d(); if (mpq_class(d) == q || true) { E back = snap(d); if (z3::eq(back, ratE(q))) return Val::F(d, fw); } }
        if (rf->n.t.size() <= 60) e = rfE(*rf);
    }
    return Val::S(e, fw);
}
static Val mkF(E e, u8 fw) { e = e.simplify(); Val v = Val::S(e, fw); return v; }

// ------------------------------------------------------------------ path condition / decisions
static void addPC(State& S, const E& e0) {
    E e = normCond(e0); if (e.is_true()) return;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND) { for (unsigned i = 0; i < e.num_args(); i++) addPC(S, e.arg(i)); return; }
    Sym* s = mk(e); if (S.known.count(e.id())) return;
    S.known.insert(e.id()); S.pc.push_back(s);
    // BV equality with constants
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_EQ && e.arg(0).is_bv()) {
        E a = e.arg(0), b = e.arg(1); if (a.is_numeral()) std::swap(a, b);
        uint64_t x; if (b.is_numeral() && Z3_get_numeral_uint64(C, b, &x)) { mk(a); S.eqv[a.id()] = x; }
    }
}
static int knownCond(State& S, const E& e) {
    if (e.is_true()) return 1; if (e.is_false()) return 0;
    if (S.known.count(e.id())) return 1;
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_AND) { bool all = true; for (unsigned i = 0; i < e.num_args(); i++) { int k = knownCond(S, e.arg(i)); if (k == 0) return 0; if (k < 0) all = false; } if (all) return 1; }
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_OR) { bool all = true; for (unsigned i = 0; i < e.num_args(); i++) { int k = knownCond(S, e.arg(i)); if (k == 1) return 1; if (k < 0) all = false; } if (all) return 0; }
    E n = normCond(!e); if (n.is_true()) return 0; if (n.is_false()) return 1;
    if (S.known.count(n.id())) return 0;
    // p<0 known implies p<=0 ; -p<0 known implies not p<=0 handled by negation above. p<0 known implies p!=0
    if (e.is_app() && e.num_args() == 2 && e.arg(0).is_real()) {
        auto k = e.decl().decl_kind(); E l = e.arg(0), z = C.real_val(0);
        if (k == Z3_OP_LE) { E x = normCond(l < z); if (S.known.count(x.id())) return 1; E y = normCond(l == z); if (S.known.count(y.id())) return 1; }
        if (k == Z3_OP_EQ) { E x = normCond(l < z), y = normCond(z < l); if (S.known.count(x.id()) || S.known.count(y.id())) return 0; }
        if (k == Z3_OP_LT) { E y = normCond(l == z); if (S.known.count(y.id())) return 0; }
    }
    return -1;
}
static std::map<unsigned, std::pair<std::string, std::vector<E>>> atomDef; // atom expr id -> (fn,args)
static double exprD(E v) {
    if (v.is_numeral()) { mpq_class q(Z3_get_numeral_string(C, v)); q.canonicalize(); return q.get_d(); }
    if (v.is_algebraic()) { std::string s = Z3_get_numeral_decimal_string(C, v, 20); return strtod(s.c_str(), nullptr); }
    return 0;
}
#include "num.inc"
static void checkBudget() { if (elapsed() > O.budget) endPath("budget", "time budget exhausted"); }
static bool decide(State& S, const E& e0) {
    E e = normCond(e0);
    int kn = knownCond(S, e); if (kn >= 0) return kn == 1;
    checkBudget();
    E ne = normCond(!e);
    kn = condBySign(S, e); if (kn >= 0) { ST.trivial++; addPC(S, kn ? e : ne); return kn == 1; }
    int rt = 2, rf = 2; bool num = isR() && pureReal(mk(e));
    decltype(S.pool) pt, pf;
    if (num) { refreshPool(S); int i = compileN(e); for (auto& p : S.pool) { double q = p.first->ne.ev(i).first; if (q == 1) { rt = 1; pt.push_back(p); } else if (q == 0) { rf = 1; pf.push_back(p); } } } else { pt = pf = S.pool; }
    if (rt == 2) { auto c = check(S.pc, {e}, O.branchMs); rt = c.r; }
    if (rt == -1) { addPC(S, ne); return false; }
    if (rf == 2) { auto c = check(S.pc, {ne}, O.branchMs); rf = c.r; }
    if (rf == -1) { addPC(S, e); return true; }
    // fork
    auto o = std::make_unique<State>(S); o->forks++; S.forks++; ST.forks++;
    addPC(*o, ne); if (num) o->pool = pf; work.push_back(std::move(o));
    addPC(S, e); if (num) S.pool = pt; return true;
}
static int proveQuick(State& S, const E& e) { // 1 valid, 0 not known
    E n = normCond(e); int kn = knownCond(S, n); if (kn == 1) return 1; if (kn == 0) return 0;
    return check(S.pc, {!n}, O.branchMs).r == -1 ? 1 : 0;
}
static u64 modelU64(const z3::model& m, const E& e) { E v = m.eval(e, true); uint64_t x = 0; Z3_get_numeral_uint64(C, v, &x); return x; }
// selects whose condition involves real arithmetic are decided by forking, so that integers depending on them become concrete
static bool findRealIte(const E& e, std::unordered_set<unsigned>& seen, E& out) {
    if (!seen.insert(e.id()).second || !e.is_app()) return false;
    if (e.decl().decl_kind() == Z3_OP_ITE) { Sym* c = mk(e.arg(0)); bool real = false; for (int v : c->vars) if (varExpr[v].is_real()) real = true; if (real) { out = e; return true; } }
    for (unsigned i = 0; i < e.num_args(); i++) if (findRealIte(e.arg(i), seen, out)) return true;
    return false;
}
static E resolveIte(State& S, E e) {
    if (!isR()) return e; { bool real = false; for (int v : mk(e)->vars) if (varExpr[v].is_real()) real = true; if (!real) return e; }
    for (int n = 0; n < 64; n++) { E t = e; std::unordered_set<unsigned> seen; if (!findRealIte(e, seen, t)) return e; E r = decide(S, t.arg(0)) ? t.arg(1) : t.arg(2); z3::expr_vector a(C), b(C); a.push_back(t); b.push_back(r); e = e.substitute(a, b).simplify(); mk(e); }
    return e;
}
static u64 numU64(const E& v) { uint64_t x = 0; Z3_get_numeral_uint64(C, v, &x); return x; }
static u64 concretize(State& S, const Val& v, unsigned limit = 4096) {
    if (v.k == Val::INT) return v.i; if (v.k == Val::UND) return 0;
    if (v.k == Val::FLT) { u64 b; memcpy(&b, &v.d, 8); return b; }
    if (v.k != Val::SYM) endPath("unsupported", "concretize aggregate");
    if (v.s->isBool) return decide(S, v.s->e) ? 1 : 0;
    if (!v.s->isBV) endPath("unsupported", "concretize non-bv");
    auto it = S.eqv.find(v.s->e.id()); if (it != S.eqv.end()) return it->second;
    checkBudget();
    { E e = resolveIte(S, v.s->e); if (e.is_numeral()) { u64 x = numU64(e); S.eqv[v.s->e.id()] = x; return x; } if (e.id() != v.s->e.id()) { u64 x = concretize(S, Val::S(e, v.w), limit); S.eqv[v.s->e.id()] = x; return x; } }
    auto cr = check(slice(S.pc, {v.s}), {}, O.assertMs, true);
    if (!cr.m) endPath("unknown", "no model for concretization");
    u64 x = modelU64(*cr.m, v.s->e);
    E c = v.s->e == C.bv_val((uint64_t)x, v.s->e.get_sort().bv_size());
    if (!decide(S, c)) endPath("unknown", "concretize");
    S.eqv[v.s->e.id()] = x;
    return x;
}

// ------------------------------------------------------------------ violations
static void recordViolation(State& S, const std::string& label, const std::string& detail, std::shared_ptr<z3::model> m, bool solverSat) {
    if (violCount[label]++ >= O.maxViol) return;
    Viol v; v.label = label; v.detail = detail; v.hasModel = (bool)m; v.solverSat = solverSat;
    for (auto& [n, x] : S.inputs) {
        std::string s;
        if (x.k == Val::SYM) {
            if (!m) s = "?";
            else {
                E e = m->eval(x.s->e, true); char b[64];
                if (e.is_real()) { snprintf(b, 64, "%.17g", exprD(e)); s = b; }
                else if (e.is_bool()) s = e.is_true() ? "1" : "0";
                else if (e.is_bv()) { uint64_t u = 0; Z3_get_numeral_uint64(C, e, &u); snprintf(b, 64, "%lld", (long long)u); s = b; }
                else if (e.is_fpa()) { E bv = E(C, Z3_mk_fpa_to_ieee_bv(C, e)).simplify(); uint64_t u = 0; Z3_get_numeral_uint64(C, bv, &u); double d; if (x.w == 32) { u32 k = u; float f; memcpy(&f, &k, 4); d = f; } else memcpy(&d, &u, 8); snprintf(b, 64, "%.17g", d); s = b; }
            }
        } else if (x.k == Val::FLT) { char b[64]; snprintf(b, 64, "%.17g", x.d); s = b; } else { char b[64]; snprintf(b, 64, "%lld", (long long)x.i); s = b; }
        v.inputs.push_back({n, s});
    }
    viols.push_back(v);
    if (O.verbose) { std::cerr << "VIOL " << label << " " << detail << "\n"; for (auto& [n, s] : v.inputs) std::cerr << "   " << n << " = " << s << "\n"; }
}
// assert formula `good`; `robust` optional stronger violation condition for better models
static void doAssert(State& S, const std::string& label, const E& good0, const std::vector<E>& robust, const std::string& detail) {
    LabelRec& L = labels[label];
    double t = elapsed();
    if (!L.witness && isR()) { refreshPool(S); bool all = true; for (auto* p : S.pc) if (!pureReal(p)) for (int v : p->vars) if (varExpr[v].is_real()) all = false; if (!S.pool.empty() && all) L.witness = true; }
    if (!L.witness) { auto w = check(S.pc, {}, O.assertMs, true); if (w.r == 1) L.witness = true; }
    E good = normCond(good0);
    int kn = knownCond(S, good); if (kn < 0 && condBySign(S, good) == 1) kn = 1;
    if (kn == 1) { L.proved++; if (good.is_true()) { L.trivial++; ST.trivial++; } L.t += elapsed() - t; return; }
    if (violCount[label] >= O.maxViol) { L.viol++; addPC(S, good); return; }
    E bad = normCond(!good);
    CheckRes r; r.r = 0;
    auto tryModel = [&](std::vector<E> extra, int ms) { auto c = check(S.pc, extra, ms, true); return c; };
    if (bad.is_true()) r.r = 1; else r = check(S.pc, {bad}, O.assertMs, false, true);
    if (r.r == -1) { L.proved++; L.t += elapsed() - t; addPC(S, good); return; }
    if (r.r == 1) {
        std::shared_ptr<z3::model> m;
        for (auto& rb : robust) { auto c = tryModel({rb}, O.assertMs / 2); if (c.r == 1 && c.m) { m = c.m; break; } }
        if (!m) { auto c = tryModel(bad.is_true() ? std::vector<E>{} : std::vector<E>{bad}, O.assertMs); if (c.r == 1) m = c.m; else if (c.r == -1) { L.proved++; if (bad.is_true()) endPath("infeasible", ""); addPC(S, good); return; } }
        L.viol++; L.t += elapsed() - t;
        recordViolation(S, label, detail, m, true);
    } else {
        L.unk++; L.t += elapsed() - t;
        if (O.verbose) { std::cerr << "UNKNOWN " << label << "\n  bad: " << bad.to_string().substr(0, 1500) << "\n"; for (auto* s : S.pc) std::cerr << "   pc: " << s->e.to_string().substr(0, 400) << "\n"; }
        std::shared_ptr<z3::model> m; auto c = tryModel({}, O.assertMs / 2); if (c.r == 1) m = c.m;
        recordViolation(S, label, "undecided: " + detail, m, false);
    }
    if (good.is_false()) endPath("assert-failed", label);
    addPC(S, good);
}

// ------------------------------------------------------------------ memory
static u64 allocObj(State& S, u64 size, u8 kind, const char* name = "", int fill = 0xCD) {
    if (size >= (1u << 24)) endPath("unsupported", "allocation too large: " + std::to_string(size));
    u32 id = nextObj++; auto o = std::make_shared<Obj>(); o->size = size; o->kind = kind; o->b.assign(size, (u8)fill); o->name = name;
    S.mem.set(id, o); return A(id);
}
static std::string where(State& S) { std::string s; int n = 0; for (auto it = S.fr.rbegin(); it != S.fr.rend() && n < 8; ++it, ++n) s += " <- " + it->fi->dem.substr(0, 110); return s; }
static void memErr(State& S, const std::string& what, u64 addr) {
    LabelRec& L = labels["memory-safety"]; L.viol++;
    auto c = check(S.pc, {}, O.assertMs, true);
    if (c.r == -1) endPath("infeasible", "");
    recordViolation(S, "memory-safety", what + where(S), c.m, true);
    endPath("memory-error", what + where(S));
}
static void raceAccess(State& S, u64 addr, u64 n, bool w);
static Obj* objAt(State& S, u64 addr, u64 n, bool w, const char* op) {
    u32 id = addr >> 24; u32 off = addr & 0xffffff;
    Obj* o = w ? S.mem.getw(id) : S.mem.get(id);
    if (!o || !o->live) { char b[128]; snprintf(b, 128, "%s %s address 0x%llx size %llu", op, o ? "freed" : "invalid", (unsigned long long)addr, (unsigned long long)n); memErr(S, b, addr); }
    if ((u64)off + n > o->size) { char b[128]; snprintf(b, 128, "%s out of bounds: offset %u size %llu object size %u", op, off, (unsigned long long)n, o->size); memErr(S, b, addr); }
    if (S.thr.size() > 1) { raceAccess(S, addr, n, w); o = w ? S.mem.getw(id) : S.mem.get(id); }
    return o;
}
static std::map<u32, Cell>::iterator firstOverlap(Obj* o, u32 off) {
    auto it = o->cells.lower_bound(off);
    if (it != o->cells.begin()) { auto p = std::prev(it); if (p->first + p->second.size > off) return p; }
    return it;
}
static Val byteOf(const Cell& c, unsigned k) { // k-th byte (little endian) of a symbolic bv cell
    if (c.v.k != Val::SYM) { u64 x; if (c.v.k == Val::FLT) { if (c.v.fw == 32) { float f = c.v.d; u32 b; memcpy(&b, &f, 4); x = b; } else memcpy(&x, &c.v.d, 8); } else x = c.v.i; return Val::I((x >> (8 * k)) & 255, 8); }
    if (c.v.s->isReal) endPath("unsupported", "byte access to real-valued cell");
    E e = bvE(c.v, c.size * 8); unsigned w = e.get_sort().bv_size(); if (w < c.size * 8u) e = z3::zext(e, c.size * 8 - w);
    return mkBV(e.extract(8 * k + 7, 8 * k), 8);
}
static void clearRange(Obj* o, u32 off, u32 n) {
    if (o->cells.empty()) return;
    auto it = firstOverlap(o, off);
    while (it != o->cells.end() && it->first < off + n) {
        u32 co = it->first; Cell c = it->second; it = o->cells.erase(it);
        if (co < off || co + c.size > off + n) {
            for (u32 k = 0; k < c.size; k++) if (co + k < off || co + k >= off + n) {
                if (c.v.k == Val::SYM && c.v.s->isReal) { o->b[co + k] = 0xCD; continue; }
                Val b = byteOf(c, k); if (b.k == Val::SYM) o->cells[co + k] = Cell{b, 1}; else o->b[co + k] = b.i;
            }
            it = o->cells.lower_bound(off);
        }
    }
}
static Val loadRaw(State& S, Obj* o, u32 off, u32 n, Type* T) {
    bool fp = T->isDoubleTy() || T->isFloatTy() || T->isX86_FP80Ty();
    unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
    if (!o->cells.empty()) {
        auto it = firstOverlap(o, off);
        if (it != o->cells.end() && it->first < off + n) {
            Cell& c = it->second;
            if (it->first == off && c.size == n) {
                Val v = c.v;
                if (v.k == Val::SYM) {
                    if (fp) {
                        if (v.s->isReal || v.s->isFP) return v;
                        if (v.s->isBV) { if (isR()) endPath("unsupported", "bits reinterpreted as real"); return mkF(fpE(v, T->isFloatTy() ? 32 : 64), T->isFloatTy() ? 32 : 64); }
                    } else {
                        if (v.s->isReal) return v; // opaque bits
                        if (v.s->isFP) return v;   // lazily converted by bvE
                        if (v.s->isBV) { unsigned cw = v.s->e.get_sort().bv_size(); if (cw == w) return v; if (w == 1) return mkBV(v.s->e.extract(0, 0) == C.bv_val(1, 1), 1); if (cw > w) return mkBV(v.s->e.extract(w - 1, 0), w); return mkBV(z3::zext(v.s->e, w - cw), w); }
                    }
                } else if (v.k == Val::FLT && fp) return v;
                return v;
            }
            // assemble from bytes
            std::vector<Val> bs(n);
            for (u32 k = 0; k < n; k++) bs[k] = Val::I(o->b[off + k], 8);
            for (; it != o->cells.end() && it->first < off + n; ++it) for (u32 k = 0; k < it->second.size; k++) { u32 p = it->first + k; if (p >= off && p < off + n) bs[p - off] = byteOf(it->second, k); }
            E e = bvE(bs[n - 1], 8); for (int k = (int)n - 2; k >= 0; k--) e = z3::concat(e, bvE(bs[k], 8));
            Val v = mkBV(e, n * 8);
            if (fp) { if (v.k == Val::INT) { if (T->isFloatTy()) { u32 b = v.i; float f; memcpy(&f, &b, 4); return Val::F(f, 32); } double d; memcpy(&d, &v.i, 8); return Val::F(d, 64); } if (isR()) endPath("unsupported", "bits reinterpreted as real"); return mkF(fpE(v, T->isFloatTy() ? 32 : 64), T->isFloatTy() ? 32 : 64); }
            if (v.k == Val::INT) return Val::I(v.i, w);
            if (w == 1) return mkBV(v.s->e.extract(0, 0) == C.bv_val(1, 1), 1);
            if (w < n * 8) return mkBV(v.s->e.extract(w - 1, 0), w);
            return v;
        }
    }
    const u8* p = o->b.data() + off;
    if (fp) { if (T->isFloatTy()) { float f; memcpy(&f, p, 4); return Val::F(f, 32); } if (T->isDoubleTy()) { double d; memcpy(&d, p, 8); return Val::F(d, 64); } long double ld = 0; memcpy(&ld, p, 10); return Val::F((double)ld, 64); }
    if (w > 64) { u128 x = 0; memcpy(&x, p, std::min<u32>(n, 16)); return Val::I128(x); }
    u64 x = 0; memcpy(&x, p, n); return Val::I(x, w);
}
static u32 tsize(Type* T) { return DL->getTypeStoreSize(T); }
static u64 resolveAddr(State& S, const Val& a, u64 n, const char* op) {
    if (a.k == Val::INT) return a.i;
    if (a.k == Val::UND) return 0;
    if (a.k == Val::SYM && a.s->isBV) {
        auto it = S.eqv.find(a.s->e.id()); if (it != S.eqv.end()) return it->second;
        { E e = resolveIte(S, a.s->e); if (e.is_numeral()) { u64 x = numU64(e); S.eqv[a.s->e.id()] = x; return x; } if (e.id() != a.s->e.id()) return resolveAddr(S, Val::S(e, a.w), n, op); }
        auto cr = check(slice(S.pc, {a.s}), {}, O.assertMs, true); if (!cr.m) endPath("unknown", "address model");
        u64 x = modelU64(*cr.m, a.s->e); u32 id = x >> 24; Obj* o = S.mem.get(id);
        u64 base; u64 size;
        if (o && (x & 0xffffff) + n <= o->size) { base = A(id); size = o->size; }
        else {
            // model itself is out of bounds
            objAt(S, x, n, false, op); base = 0; size = 0;
        }
        E inb = z3::ule(C.bv_val((uint64_t)base, 64), a.s->e) && z3::ule(a.s->e, C.bv_val((uint64_t)(base + size - n), 64));
        if (!decide(S, inb)) endPath("unknown", "addr");
        u64 y = concretize(S, a);
        return y;
    }
    endPath("unsupported", "bad address value");
}
static Val loadT(State& S, u64 addr, Type* T) {
    if (auto* ST_ = dyn_cast<StructType>(T)) { auto* SL = DL->getStructLayout(ST_); std::vector<Val> v; for (unsigned i = 0; i < ST_->getNumElements(); i++) v.push_back(loadT(S, addr + SL->getElementOffset(i), ST_->getElementType(i))); return Val::A(v); }
    if (auto* AT = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(AT->getElementType()); std::vector<Val> v; for (u64 i = 0; i < AT->getNumElements(); i++) v.push_back(loadT(S, addr + es * i, AT->getElementType())); return Val::A(v); }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) { u64 es = DL->getTypeStoreSize(VT->getElementType()); std::vector<Val> v; for (u64 i = 0; i < VT->getNumElements(); i++) v.push_back(loadT(S, addr + es * i, VT->getElementType())); return Val::A(v); }
    u32 n = tsize(T); if (T->isX86_FP80Ty()) n = 16;
    Obj* o = objAt(S, addr, n, false, "load");
    return loadRaw(S, o, addr & 0xffffff, n, T);
}
static void storeT(State& S, u64 addr, const Val& v, Type* T) {
    if (auto* ST_ = dyn_cast<StructType>(T)) { if (v.k != Val::AGG) return; auto* SL = DL->getStructLayout(ST_); for (unsigned i = 0; i < ST_->getNumElements(); i++) storeT(S, addr + SL->getElementOffset(i), v.a->v[i], ST_->getElementType(i)); return; }
    if (auto* AT = dyn_cast<ArrayType>(T)) { if (v.k != Val::AGG) return; u64 es = DL->getTypeAllocSize(AT->getElementType()); for (u64 i = 0; i < AT->getNumElements(); i++) storeT(S, addr + es * i, v.a->v[i], AT->getElementType()); return; }
    if (auto* VT = dyn_cast<FixedVectorType>(T)) { if (v.k != Val::AGG) return; u64 es = DL->getTypeStoreSize(VT->getElementType()); for (u64 i = 0; i < VT->getNumElements(); i++) storeT(S, addr + es * i, v.a->v[i], VT->getElementType()); return; }
    u32 n = tsize(T); if (T->isX86_FP80Ty()) n = 16;
    Obj* o = objAt(S, addr, n, true, "store"); u32 off = addr & 0xffffff;
    if (o->ro) memErr(S, "store to constant memory", addr);
    clearRange(o, off, n);
    switch (v.k) {
    case Val::SYM: { Val x = v; if (v.s->isBool) x = Val::S(bvE(v, n * 8), n * 8); else if (v.s->isBV && v.s->e.get_sort().bv_size() < n * 8) x = Val::S(z3::zext(v.s->e, n * 8 - v.s->e.get_sort().bv_size()), n * 8); o->cells[off] = Cell{x, (u8)n}; break; }
    case Val::FLT: if (T->isX86_FP80Ty()) { long double ld = v.d; memset(o->b.data() + off, 0, 16); memcpy(o->b.data() + off, &ld, 10); } else if (n == 4) { float f = v.d; memcpy(o->b.data() + off, &f, 4); } else memcpy(o->b.data() + off, &v.d, 8); break;
    case Val::INT: if (n <= 8) memcpy(o->b.data() + off, &v.i, n); else { u128 x = v.u(); memcpy(o->b.data() + off, &x, std::min<u32>(n, 16)); } break;
    case Val::UND: memset(o->b.data() + off, 0xCD, n); break;
    default: endPath("unsupported", "store agg");
    }
}
static void copyMem(State& S, u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj* so = objAt(S, src, n, false, "memcpy-read"); u32 soff = src & 0xffffff;
    std::vector<u8> tmp(so->b.begin() + soff, so->b.begin() + soff + n); std::vector<std::pair<u32, Cell>> cs;
    if (!so->cells.empty()) for (auto it = firstOverlap(so, soff); it != so->cells.end() && it->first < soff + n; ++it) {
        u32 co = it->first; u32 ce = co + it->second.size;
        if (co >= soff && ce <= soff + n) cs.push_back({co - soff, it->second});
        else for (u32 k = 0; k < it->second.size; k++) if (co + k >= soff && co + k < soff + n) { Val b = byteOf(it->second, k); if (b.k == Val::SYM) cs.push_back({co + k - soff, Cell{b, 1}}); else tmp[co + k - soff] = b.i; }
    }
    Obj* d = objAt(S, dst, n, true, "memcpy-write"); u32 doff = dst & 0xffffff;
    if (d->ro) memErr(S, "write to constant memory", dst);
    clearRange(d, doff, n);
    memcpy(d->b.data() + doff, tmp.data(), n);
    for (auto& [o, c] : cs) d->cells[doff + o] = c;
}
static Val loadByte(State& S, u64 a) { Obj* o = objAt(S, a, 1, false, "load"); return loadRaw(S, o, a & 0xffffff, 1, Type::getInt8Ty(LC)); }
static u64 loadPtr(State& S, u64 a) { Val v = loadT(S, a, PointerType::get(LC, 0)); return concretize(S, v); }
static std::string cstr(State& S, u64 a) { std::string s; for (int i = 0; i < 4096; i++) { Val b = loadByte(S, a + i); u64 c = concretize(S, b); if (!c) break; s += (char)c; } return s; }

// ------------------------------------------------------------------ constants & globals
static u64 globalAddr(const GlobalValue* G);
static State* INIT = nullptr;
static Val constVal(const Constant* c) {
    Type* T = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { APInt a = ci->getValue().zextOrTrunc(128); Val v = Val::I128(((u128)a.getRawData()[1] << 64) | a.getRawData()[0]); v.w = ci->getBitWidth(); return v; } return Val::I(ci->getZExtValue(), ci->getBitWidth()); }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { APFloat f = cf->getValueAPF(); bool li; if (T->isFloatTy()) return Val::F(f.convertToFloat(), 32); f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val::F(f.convertToDouble(), 64); }
    if (isa<ConstantPointerNull>(c)) return Val::P(0);
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val::P(globalAddr(g));
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) {
        if (auto* st = dyn_cast<StructType>(T)) { std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); i++) v.push_back(constVal(isa<UndefValue>(c) ? (Constant*)UndefValue::get(st->getElementType(i)) : Constant::getNullValue(st->getElementType(i)))); return Val::A(v); }
        if (auto* at = dyn_cast<ArrayType>(T)) { std::vector<Val> v(at->getNumElements(), constVal(Constant::getNullValue(at->getElementType()))); return Val::A(v); }
        if (auto* vt = dyn_cast<FixedVectorType>(T)) { std::vector<Val> v(vt->getNumElements(), constVal(Constant::getNullValue(vt->getElementType()))); return Val::A(v); }
        if (T->isFloatingPointTy()) return Val::F(0, T->isFloatTy() ? 32 : 64);
        if (T->isIntegerTy()) { if (T->getIntegerBitWidth() > 64) { Val v = Val::I128(0); v.w = T->getIntegerBitWidth(); return v; } return Val::I(0, T->getIntegerBitWidth()); }
        return Val::P(0);
    }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) { std::vector<Val> v; for (unsigned i = 0; i < ca->getNumOperands(); i++) v.push_back(constVal(ca->getOperand(i))); return Val::A(v); }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { std::vector<Val> v; for (unsigned i = 0; i < cd->getNumElements(); i++) v.push_back(constVal(cd->getElementAsConstant(i))); return Val::A(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto* g = cast<GEPOperator>(ce); g->accumulateConstantOffset(*DL, off); return Val::P(constVal(ce->getOperand(0)).i + off.getSExtValue()); }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); return Val::I(v.i, T->isIntegerTy() ? T->getIntegerBitWidth() : 64); }
        case Instruction::Sub: return Val::I(constVal(ce->getOperand(0)).i - constVal(ce->getOperand(1)).i, T->getIntegerBitWidth());
        case Instruction::Add: return Val::I(constVal(ce->getOperand(0)).i + constVal(ce->getOperand(1)).i, T->getIntegerBitWidth());
        case Instruction::ICmp: { u64 a = constVal(ce->getOperand(0)).i, b = constVal(ce->getOperand(1)).i; switch (ce->getPredicate()) { case CmpInst::ICMP_EQ: return Val::I(a == b, 1); case CmpInst::ICMP_NE: return Val::I(a != b, 1); default: break; } break; }
        default: break;
        }
        std::string s; raw_string_ostream os(s); ce->print(os); endPath("unsupported", "constexpr " + s);
    }
    if (isa<BlockAddress>(c)) return Val::P(0);
    endPath("unsupported", "constant kind");
}
static void initMem(State& S, u64 addr, const Constant* c) {
    Type* T = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c)) { Obj* o = S.mem.getw(addr >> 24); memset(o->b.data() + (addr & 0xffffff), 0, DL->getTypeAllocSize(T)); return; }
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Obj* o = S.mem.getw(addr >> 24); StringRef r = cd->getRawDataValues(); memcpy(o->b.data() + (addr & 0xffffff), r.data(), r.size()); return; }
    if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
        if (auto* st = dyn_cast<StructType>(T)) { auto* SL = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(S, addr + SL->getElementOffset(i), ca->getOperand(i)); }
        else { Type* et = isa<ArrayType>(T) ? cast<ArrayType>(T)->getElementType() : cast<VectorType>(T)->getElementType(); u64 es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < ca->getNumOperands(); i++) initMem(S, addr + es * i, ca->getOperand(i)); }
        return;
    }
    storeT(S, addr, constVal(c), T);
}
static u64 globalAddr(const GlobalValue* G) {
    if (auto* ga = dyn_cast<GlobalAlias>(G)) { return constVal(ga->getAliasee()).i; }
    auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
    // allocated up front in initGlobals
    endPath("unsupported", "global without address " + G->getName().str());
}
static void initGlobals(State& S) {
    std::vector<const GlobalVariable*> gv;
    for (auto& F : M->functions()) { u64 a = allocObj(S, 0, 3); Obj* o = S.mem.getw(a >> 24); o->fn = &F; gaddr[&F] = a; }
    for (auto& G : M->globals()) {
        if (G.getName().starts_with("llvm.")) continue;
        Type* T = G.getValueType(); u64 sz = T->isSized() ? (u64)DL->getTypeAllocSize(T) : 0; if (G.isDeclaration()) sz = std::max<u64>(sz, 512);
        u64 a = allocObj(S, sz, 2, G.getName().data(), 0); gaddr[&G] = a; gv.push_back(&G);
    }
    for (auto* G : gv) if (G->hasInitializer()) { initMem(S, gaddr[G], G->getInitializer()); if (G->isConstant()) S.mem.getw(gaddr[G] >> 24)->ro = true; }
}

// ------------------------------------------------------------------ decode
typedef std::function<bool(State&, const DInst&, std::vector<Val>&, Val&)> Handler;
static std::unordered_map<std::string, int> extIdx; static std::vector<Handler> ext; static std::set<std::string> overrideDefined;
static int findExt(const std::string& n);
static FnInfo* decode(const Function* F) {
    auto it = fninfo.find(F); if (it != fninfo.end()) return it->second;
    auto* fi = new FnInfo; fninfo[F] = fi; fi->F = F; fi->dem = llvm::demangle(F->getName().str());
    std::unordered_map<const Value*, int> slot; int n = 0;
    for (auto& a : F->args()) slot[&a] = n++;
    for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) slot[&I] = n++;
    fi->nslots = n; std::unordered_map<const Value*, int> cm;
    auto ref = [&](const Value* v) -> int {
        auto s = slot.find(v); if (s != slot.end()) return s->second;
        auto c = cm.find(v); if (c != cm.end()) return c->second;
        if (auto* k = dyn_cast<Constant>(v)) { fi->consts.push_back(constVal(k)); int r = ~(int)(fi->consts.size() - 1); cm[v] = r; return r; }
        fi->consts.push_back(Val()); return ~(int)(fi->consts.size() - 1);
    };
    int b = 0; for (auto& bb : *F) fi->bbId[&bb] = b++;
    for (auto& bb : *F) {
        fi->bbStart.push_back(fi->code.size());
        for (auto& I : bb) {
            DInst d; d.I = &I; d.op = I.getOpcode(); d.ty = I.getType(); d.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                d.ops.push_back(ref(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    const Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) d.gepConst += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    else { int64_t es = DL->getTypeAllocSize(gi.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) d.gepConst += (u64)(ci->getSExtValue() * es); else d.gepVar.push_back({ref(idx), es}); }
                }
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                for (auto& a : cb->args()) { if (isa<MetadataAsValue>(a.get())) d.ops.push_back(~0x7fffff); else d.ops.push_back(ref(a.get())); }
                const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                d.callee = dyn_cast<Function>(cv);
                if (!d.callee) { if (isa<InlineAsm>(cv)) d.aux = -2; else { d.ops.push_back(ref(cb->getCalledOperand())); d.aux = -1; } }
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { d.succ[0] = fi->bbId[iv->getNormalDest()]; d.succ[1] = fi->bbId[iv->getUnwindDest()]; }
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) { d.ops.push_back(ref(br->getCondition())); d.succ[0] = fi->bbId[br->getSuccessor(0)]; d.succ[1] = fi->bbId[br->getSuccessor(1)]; } else d.succ[0] = fi->bbId[br->getSuccessor(0)];
            } else if (auto* phi = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < phi->getNumIncomingValues(); i++) { d.ops.push_back(fi->bbId[phi->getIncomingBlock(i)]); d.ops.push_back(ref(phi->getIncomingValue(i))); }
            } else if (isa<SwitchInst>(&I)) { d.ops.push_back(ref(cast<SwitchInst>(&I)->getCondition())); }
            else if (isa<LandingPadInst>(&I)) {}
            else for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(ref(o.get()));
            fi->code.push_back(d);
        }
    }
    return fi;
}

// ------------------------------------------------------------------ RTTI / exceptions
static std::string gvName(u64 a) { static std::unordered_map<u64, std::string> rev; if (rev.empty()) for (auto& [g, x] : gaddr) rev[x] = g->getName().str(); auto it = rev.find((a >> 24) << 24); return it == rev.end() ? "" : it->second; }
// find base `want` in type `ti`; returns offset or -1
static int64_t findBase(State& S, u64 ti, u64 want, int depth = 0) {
    if (ti == want) return 0; if (depth > 12 || !ti) return -1;
    u64 vp = loadPtr(S, ti); std::string n = gvName(vp);
    if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") return findBase(S, loadPtr(S, ti + 16), want, depth + 1);
    if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") {
        u32 cnt = concretize(S, loadT(S, ti + 20, Type::getInt32Ty(LC)));
        for (u32 i = 0; i < cnt; i++) { u64 b = loadPtr(S, ti + 24 + 16 * i); int64_t fl = (int64_t)concretize(S, loadT(S, ti + 32 + 16 * i, Type::getInt64Ty(LC))); int64_t r = findBase(S, b, want, depth + 1); if (r >= 0) { if (fl & 1) return r; return r + (fl >> 8); } }
    }
    return -1;
}
static int typeIdFor(u64 ti) { static std::map<u64, int> ids; auto it = ids.find(ti); if (it != ids.end()) return it->second; int n = ids.size() + 1; ids[ti] = n; return n; }
static void popFrame(State& S) { for (u32 id : S.fr.back().allocas) { S.mem.set(id, nullptr); } S.fr.pop_back(); }
static void unwind(State& S) {
    // current frame is the one executing the throw; look for invoke in this and callers
    while (true) {
        Frame& f = S.fr.back(); const DInst& d = f.fi->code[f.pc];
        if (d.op == Instruction::Invoke) {
            int ub = d.succ[1]; const auto& code = f.fi->code; int p = f.fi->bbStart[ub]; while (code[p].op == Instruction::PHI) p++;
            auto* lp = cast<LandingPadInst>(code[p].I); int sel = 0; bool enter = lp->isCleanup(); bool matched = false; u64 adj = S.cur.ptr;
            for (unsigned i = 0; i < lp->getNumClauses() && !matched; i++) {
                if (lp->isCatch(i)) {
                    u64 ti = constVal(lp->getClause(i)).i;
                    if (ti == 0) { sel = typeIdFor(0); matched = true; }
                    else { int64_t off = findBase(S, S.cur.ti, ti); if (off >= 0) { sel = typeIdFor(ti); matched = true; adj = S.cur.ptr + off; } }
                } else { // filter: treat as terminate
                    enter = true; sel = -1; break;
                }
            }
            if (matched || enter) {
                S.misc[S.cur.ptr] = (int)(adj - S.cur.ptr);
                f.prevbb = f.bb; f.bb = ub; 
                // phis
                int q = f.fi->bbStart[ub]; std::vector<std::pair<int, Val>> ph;
                for (; code[q].op == Instruction::PHI; q++) { for (size_t k = 0; k < code[q].ops.size(); k += 2) if (code[q].ops[k] == f.prevbb) { int r = code[q].ops[k + 1]; ph.push_back({code[q].dst, r >= 0 ? f.r[r] : f.fi->consts[~r]}); } }
                for (auto& [x, v] : ph) f.r[x] = v;
                f.r[code[p].dst] = Val::A({Val::P(S.cur.ptr), Val::I((u64)(int64_t)sel, 32)});
                f.pc = p + 1; return;
            }
        }
        popFrame(S);
        if (S.fr.empty()) {
            LabelRec& L = labels["uncaught-exception"]; L.viol++;
            auto c = check(S.pc, {}, O.assertMs, true); if (c.r == -1) endPath("infeasible", "");
            recordViolation(S, "uncaught-exception", "exception of type " + gvName(S.cur.ti), c.m, true);
            endPath("uncaught", gvName(S.cur.ti));
        }
    }
}

#include "ops.inc"
#include "ext.inc"
#include "main.inc"
