// Term layer: symbolic terms, canonicalisation, solver interface.
#include "core.h"
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <cerrno>
using namespace z3;
z3::context C;
Opts O;
Stats ST;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
double T0 = now();
double elapsed() { return now() - T0; }

static std::unordered_map<unsigned, Sym*> interned;
static std::unordered_map<unsigned, int> varIndex; std::vector<expr> varExpr;
static void collectVars(const expr& e, std::set<int>& out, std::unordered_set<unsigned>& seen) {
    if (!seen.insert(e.id()).second) return;
    auto it = interned.find(e.id());
    if (it != interned.end()) { out.insert(it->second->vars.begin(), it->second->vars.end()); return; }
    if (!e.is_app()) return;
    if (e.num_args() == 0) {
        if (e.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
            auto f = varIndex.find(e.id()); int id;
            if (f == varIndex.end()) { id = varExpr.size(); varIndex[e.id()] = id; varExpr.push_back(e); } else id = f->second;
            out.insert(id);
        }
        return;
    }
    for (unsigned i = 0; i < e.num_args(); i++) collectVars(e.arg(i), out, seen);
}
Sym* mk(const expr& e) {
    auto it = interned.find(e.id()); if (it != interned.end()) return it->second;
    Sym* s = new Sym(e);
    sort so = e.get_sort();
    s->isReal = so.is_real(); s->isBool = so.is_bool(); s->isBV = so.is_bv(); s->isFP = so.is_fpa();
    std::set<int> vs; std::unordered_set<unsigned> seen; collectVars(e, vs, seen);
    s->vars.assign(vs.begin(), vs.end());
    interned[e.id()] = s;
    return s;
}

// ---------------------------------------------------------------- rational constants
expr ratE(const mpq_class& q) { return C.real_val(q.get_str().c_str()); }
expr PIe() { static expr* p = new expr(C.real_const("PI")); return *p; }

static bool simpleRat(double d, mpq_class& out, long maxden, double relulp) {
    // continued fraction
    double x = std::fabs(d); long p0 = 0, q0 = 1, p1 = 1, q1 = 0; double y = x;
    for (int i = 0; i < 20; i++) {
        double f = std::floor(y); if (f > 1e9) return false;
        long a = (long)f; long p2 = a * p1 + p0, q2 = a * q1 + q0;
        if (q2 > maxden || q2 <= 0) return false;
        if (std::fabs((double)p2 / (double)q2 - x) <= relulp * 2.3e-16 * x) { out = mpq_class(p2, q2); out.canonicalize(); if (d < 0) out = -out; return true; }
        p0 = p1; q0 = q1; p1 = p2; q1 = q2; double fr = y - f; if (fr < 1e-15) return false; y = 1.0 / fr;
    }
    return false;
}
expr snap(double d) {
    static std::map<u64, expr*> memo; u64 bits; memcpy(&bits, &d, 8);
    auto it = memo.find(bits); if (it != memo.end()) return *it->second;
    auto ret = [&](expr e) { memo[bits] = new expr(e); return e; };
    if (d == 0) return ret(C.real_val(0));
    if (d == std::floor(d) && std::fabs(d) < 9e15) return ret(ratE(mpq_class((long)d)));
    mpq_class q;
    if (simpleRat(d, q, 64, 1)) return ret(ratE(q));
    for (int prec = 1; prec <= 12; prec++) {
        char buf[64]; snprintf(buf, sizeof buf, "%.*e", prec - 1, d);
        if (strtod(buf, nullptr) == d) {
            // buf = m.mmme[+-]xx
            std::string s(buf); size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1); std::string m = s.substr(0, e);
            bool neg = m[0] == '-'; if (neg) m = m.substr(1);
            size_t dot = m.find('.'); int fr = 0; if (dot != std::string::npos) { fr = m.size() - dot - 1; m.erase(dot, 1); }
            mpz_class mz(m), ten; ex -= fr; mpz_ui_pow_ui(ten.get_mpz_t(), 10, std::abs(ex));
            mpq_class r = ex >= 0 ? mpq_class(mz * ten) : mpq_class(mz, ten); r.canonicalize(); if (neg) r = -r;
            return ret(ratE(r));
        }
    }
    if (O.snapPi) for (int k : {1, -1, 2, -2}) {
        double r = d; for (int i = 0; i < std::abs(k); i++) r = k > 0 ? r / M_PI : r * M_PI;
        if (simpleRat(r, q, 720, 4)) {
            expr e = ratE(q); for (int i = 0; i < std::abs(k); i++) e = k > 0 ? e * PIe() : e / PIe();
            return ret(e);
        }
    }
    if (simpleRat(d, q, 20000, 2)) return ret(ratE(q));
    mpq_class ex(d); return ret(ratE(ex));
}

// ---------------------------------------------------------------- canonical rational functions
RFAlg ALG;
static std::unordered_map<unsigned, int> atomOf; std::vector<expr> atomExpr;
int atomId(const expr& e) { auto it = atomOf.find(e.id()); if (it != atomOf.end()) return it->second; int i = atomExpr.size(); atomOf[e.id()] = i; atomExpr.push_back(e); return i; }
void addSqRule(const expr& atom, const Poly& p) { ALG.rules.sq[atomId(atom)] = p; }

expr polyE(const Poly& p) {
    if (p.zero()) return C.real_val(0);
    expr_vector sum(C);
    for (auto& [m, c] : p.t) {
        expr_vector pr(C);
        if (c != 1 || m.empty()) pr.push_back(ratE(c));
        for (auto& [a, e] : m) for (int i = 0; i < e; i++) pr.push_back(atomExpr[a]);
        if (pr.size() == 1) sum.push_back(pr[0]);
        else { std::vector<Z3_ast> v; for (unsigned i = 0; i < pr.size(); i++) v.push_back(pr[i]); sum.push_back(expr(C, Z3_mk_mul(C, v.size(), v.data()))); }
    }
    if (sum.size() == 1) return sum[0];
    std::vector<Z3_ast> v; for (unsigned i = 0; i < sum.size(); i++) v.push_back(sum[i]);
    return expr(C, Z3_mk_add(C, v.size(), v.data()));
}
expr rfE(const RF& r) {
    expr n = polyE(r.n); if (r.d.empty()) return n;
    expr d = C.real_val(1); bool first = true;
    for (auto& [f, e] : r.d) for (int i = 0; i < e; i++) { if (first) { d = polyE(f); first = false; } else d = d * polyE(f); }
    return n / d;
}
static std::unordered_map<unsigned, std::shared_ptr<RF>> rfMemo; static std::unordered_set<unsigned> rfFail;
std::shared_ptr<RF> rfOf(const expr& e) {
    auto it = rfMemo.find(e.id()); if (it != rfMemo.end()) return it->second;
    if (rfFail.count(e.id())) return nullptr;
    auto put = [&](RF r) { auto p = std::make_shared<RF>(std::move(r)); mk(e); rfMemo[e.id()] = p; return p; };
    try {
        if (e.is_numeral()) { std::string s = Z3_get_numeral_string(C, e); mpq_class q(s); q.canonicalize(); RF r; r.n = Poly::c(q); return put(r); }
        if (e.is_app()) {
            auto k = e.decl().decl_kind(); unsigned n = e.num_args();
            auto sub = [&](unsigned i) { auto p = rfOf(e.arg(i)); if (!p) throw PolyLimit(); return p; };
            if (k == Z3_OP_ADD) { RF r = *sub(0); for (unsigned i = 1; i < n; i++) r = ALG.add(r, *sub(i)); return put(r); }
            if (k == Z3_OP_SUB) { RF r = *sub(0); for (unsigned i = 1; i < n; i++) r = ALG.add(r, *sub(i), -1); return put(r); }
            if (k == Z3_OP_UMINUS) { RF r = *sub(0); r.n = pscale(r.n, -1); return put(r); }
            if (k == Z3_OP_MUL) { RF r = *sub(0); for (unsigned i = 1; i < n; i++) r = ALG.mulRF(r, *sub(i)); return put(r); }
            if (k == Z3_OP_DIV) { RF r = ALG.divRF(*sub(0), *sub(1)); return put(r); }
            if (k == Z3_OP_TO_REAL && e.arg(0).is_numeral()) { mpq_class q(Z3_get_numeral_string(C, e.arg(0))); RF r; r.n = Poly::c(q); return put(r); }
        }
        RF r; r.n = Poly::a(atomId(e)); return put(r);
    } catch (PolyLimit&) { mk(e); rfFail.insert(e.id()); ST.polyfail++; return nullptr; }
}
expr canonR(const expr& e) {
    auto p = rfOf(e); if (!p) return e; 
    if (p->n.t.size() > 200) return e;
    return rfE(*p);
}
std::string rfKey(const RF& r) {
    std::string s; auto pp = [&](const Poly& p) { for (auto& [m, c] : p.t) { s += c.get_str(); for (auto& [a, e] : m) s += "*" + std::to_string(a) + "^" + std::to_string(e); s += "+"; } };
    pp(r.n); for (auto& [f, e] : r.d) { s += "/("; pp(f); s += ")^" + std::to_string(e); } return s;
}
// canonical condition: comparisons rewritten to   P ⋈ 0
static std::unordered_map<unsigned, expr*> condMemo;
expr normCond(const expr& e) {
    auto it = condMemo.find(e.id()); if (it != condMemo.end()) return *it->second;
    auto put = [&](expr r) { mk(e); condMemo[e.id()] = new expr(r); mk(r); condMemo[r.id()] = new expr(r); return r; };
    if (!e.is_app() || !e.is_bool()) return e;
    auto k = e.decl().decl_kind(); unsigned n = e.num_args();
    if (k == Z3_OP_NOT) {
        expr a = normCond(e.arg(0)); if (a.is_true()) return put(C.bool_val(false)); if (a.is_false()) return put(C.bool_val(true));
        if (a.is_app()) {
            auto ka = a.decl().decl_kind();
            if (ka == Z3_OP_NOT) return put(a.arg(0));
            if ((ka == Z3_OP_LT || ka == Z3_OP_LE || ka == Z3_OP_GT || ka == Z3_OP_GE) && a.arg(0).is_real()) {
                // canonical forms are P<0, P<=0 (see below): not(P<0) -> -P<=0
                expr l = a.arg(0), r = a.arg(1);
                if (ka == Z3_OP_LT) return put(normCond(r <= l));
                if (ka == Z3_OP_LE) return put(normCond(r < l));
                if (ka == Z3_OP_GT) return put(normCond(l <= r));
                return put(normCond(l < r));
            }
        }
        return put(!a);
    }
    if (k == Z3_OP_AND || k == Z3_OP_OR) {
        expr_vector v(C); bool isAnd = k == Z3_OP_AND;
        for (unsigned i = 0; i < n; i++) {
            expr a = normCond(e.arg(i));
            if (a.is_true()) { if (!isAnd) return put(a); continue; }
            if (a.is_false()) { if (isAnd) return put(a); continue; }
            v.push_back(a);
        }
        if (v.size() == 0) return put(C.bool_val(isAnd));
        if (v.size() == 1) return put(v[0]);
        return put(isAnd ? mk_and(v) : mk_or(v));
    }
    if (k == Z3_OP_IMPLIES) return put(normCond(!e.arg(0) || e.arg(1)));
    if (k == Z3_OP_ITE) return put(normCond((!e.arg(0) || e.arg(1)) && (e.arg(0) || e.arg(2))));
    if ((k == Z3_OP_EQ || k == Z3_OP_LT || k == Z3_OP_LE || k == Z3_OP_GT || k == Z3_OP_GE) && e.arg(0).is_real()) {
        expr l = e.arg(0), r = e.arg(1);
        if (k == Z3_OP_GT || k == Z3_OP_GE) std::swap(l, r);
        std::shared_ptr<RF> d = rfOf(l - r);
        if (!d) return put(e);
        try {
            Poly p = d->n;
            if (k == Z3_OP_EQ) {
                if (p.zero()) return put(C.bool_val(true));
                if (p.isConst()) return put(C.bool_val(false));
                p = pscale(p, 1 / p.t.begin()->second);
                // factor out monomial content
                return put(polyE(p) == C.real_val(0));
            }
            std::vector<Poly> odd;
            for (auto& [f, ex] : d->d) if (ex & 1) odd.push_back(f);
            bool strict = (k == Z3_OP_LT || k == Z3_OP_GT);
            if (p.isConst() && odd.empty()) return put(C.bool_val(strict ? p.cval() < 0 : p.cval() <= 0));
            for (auto& f : odd) p = ALG.mul(p, f);
            if (p.isConst()) return put(C.bool_val(strict ? p.cval() < 0 : p.cval() <= 0));
            mpq_class c = p.t.begin()->second; p = pscale(p, 1 / abs(c));
            expr pe = polyE(p);
            return put(strict ? pe < C.real_val(0) : pe <= C.real_val(0));
        } catch (PolyLimit&) { return put(e); }
    }
    if (k == Z3_OP_EQ && e.arg(0).is_bool()) return put(normCond(e.arg(0)) == normCond(e.arg(1)));
    expr s = e.simplify();
    return put(s);
}

// ---------------------------------------------------------------- solver
struct QKey { size_t h; };
static std::map<std::vector<unsigned>, int> qcache;
std::vector<Sym*> slice(const std::vector<Sym*>& pc, const std::vector<Sym*>& q) {
    std::vector<char> used(pc.size(), 0); std::unordered_set<int> vs; std::vector<Sym*> out;
    for (auto* s : q) vs.insert(s->vars.begin(), s->vars.end());
    bool ch = true;
    while (ch) { ch = false;
        for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
            bool hit = false; for (int v : pc[i]->vars) if (vs.count(v)) { hit = true; break; }
            if (hit) { used[i] = 1; ch = true; for (int v : pc[i]->vars) vs.insert(v); }
        } }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
    return out;
}
static int runExternal(const std::string& cmd, const std::string& file, int secs) {
    std::string full = "timeout " + std::to_string(secs + 1) + " " + cmd + " " + file + " 2>/dev/null";
    FILE* f = popen(full.c_str(), "r"); if (!f) return 0; std::string out; char buf[512];
    while (fgets(buf, sizeof buf, f)) { out += buf; if (out.size() > 4096) break; }
    pclose(f);
    if (out.find("(error") != std::string::npos) return 0;
    if (out.rfind("unsat", 0) == 0) return -1;
    if (out.rfind("sat", 0) == 0) return 1;
    return 0;
}
static int tmpn = 0;
int externalCheck(const std::vector<expr>& cs, int secs, const char* logic) {
    solver s(C); for (auto& e : cs) s.add(e);
    std::string txt = s.to_smt2();
    std::string fn = O.tmpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(tmpn++) + ".smt2";
    { std::ofstream f(fn); if (logic) f << "(set-logic " << logic << ")\n"; f << txt; }
    double t = now();
    std::vector<std::string> cmds;
    cmds.push_back("/usr/bin/z3 -T:" + std::to_string(secs));
    cmds.push_back("cvc5 --tlimit=" + std::to_string(secs * 1000));
    int r = 0;
    for (auto& c : cmds) { r = runExternal(c, fn, secs); ST.extq++; if (r) break; }
    ST.solver_s += now() - t;
    unlink(fn.c_str());
    return r;
}
// real-arithmetic queries run in a forked child that is killed at the deadline (nlsat / factorisation do not always honour timeouts)
static CheckRes forkCheck(const std::vector<expr>& all, const std::vector<int>& vars, int ms, bool nra) {
    CheckRes R; R.r = 0; int fd[2]; if (pipe(fd)) return R;
    pid_t pid = fork(); if (pid < 0) { close(fd[0]); close(fd[1]); return R; }
    if (pid == 0) {
        close(fd[0]); prctl(PR_SET_PDEATHSIG, SIGKILL); std::string out = "0\n";
        try {
            solver s = nra ? solver(C, "QF_NRA") : solver(C); for (auto& e : all) s.add(e); check_result cr = s.check();
            out = cr == sat ? "1\n" : cr == unsat ? "-1\n" : "0\n";
            if (cr == sat) { model m = s.get_model(); for (int v : vars) { expr x = m.eval(varExpr[v], true); std::string t; if (x.is_bool()) t = x.is_true() ? "1" : "0"; else if (x.is_numeral()) t = Z3_get_numeral_string(C, x); else { t = Z3_get_numeral_decimal_string(C, x, 24); if (!t.empty() && t.back() == '?') t.pop_back(); } out += std::to_string(v) + " " + t + "\n"; } }
        } catch (...) {}
        size_t o = 0; while (o < out.size()) { ssize_t k = write(fd[1], out.data() + o, out.size() - o); if (k <= 0) break; o += k; }
        _exit(0);
    }
    close(fd[1]); std::string buf; double dl = now() + ms / 1000.0 + 0.05; char b[4096]; bool eof = false;
    while (!eof) { double left = dl - now(); if (left <= 0) break; struct pollfd pf{fd[0], POLLIN, 0}; int pr = poll(&pf, 1, (int)(left * 1000) + 1); if (pr < 0 && errno == EINTR) continue; if (pr <= 0) break; ssize_t k = read(fd[0], b, sizeof b); if (k <= 0) eof = true; else buf.append(b, k); }
    if (!eof) kill(pid, SIGKILL); close(fd[0]); int st; waitpid(pid, &st, 0);
    if (!eof || buf.empty()) return R;
    std::istringstream is(buf); is >> R.r;
    if (R.r == 1) { R.m = std::make_shared<model>(C); int v; std::string t; while (is >> v >> t) { func_decl d = varExpr[v].decl(); expr val = varExpr[v].is_bool() ? C.bool_val(t == "1") : varExpr[v].is_bv() ? C.bv_val(t.c_str(), varExpr[v].get_sort().bv_size()) : C.real_val(t.c_str()); R.m->add_const_interp(d, val); } }
    return R;
}
CheckRes check(const std::vector<Sym*>& pcIn, const std::vector<expr>& extra, int ms, bool wantModel, bool useExternal) {
    CheckRes R; R.r = 0;
    std::vector<Sym*> q; std::vector<expr> nx;
    for (auto& e : extra) { expr n = normCond(e); if (n.is_false()) { R.r = -1; ST.trivial++; return R; } if (n.is_true()) continue; nx.push_back(n); q.push_back(mk(n)); }
    std::vector<Sym*> sl = wantModel ? pcIn : slice(pcIn, q);
    if (q.empty() && !wantModel) { R.r = 1; return R; }
    std::vector<unsigned> key; 
    if (!wantModel) {
        for (auto* s : sl) key.push_back(s->e.id()); for (auto* s : q) key.push_back(s->e.id());
        std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
        auto it = qcache.find(key); if (it != qcache.end() && it->second != 0) { R.r = it->second; ST.cached++; return R; }
    }
    bool anyReal = false, anyOther = false, hasPI = false; 
    static int piv = -1; if (piv < 0) { mk(PIe()); piv = mk(PIe())->vars[0]; }
    std::vector<expr> all;
    auto addAll = [&](Sym* s) { all.push_back(s->e); for (int v : s->vars) { if (v == piv) hasPI = true; if (varExpr[v].is_real()) anyReal = true; else if (!varExpr[v].is_bool()) anyOther = true; } };
    for (auto* s : sl) addAll(s); for (auto* s : q) addAll(s);
    if (hasPI) { all.push_back(PIe() > C.real_val("314159265/100000000")); all.push_back(PIe() < C.real_val("314159266/100000000")); }
    double t = now();
    ST.queries++;
    bool anyFP = false; for (auto* x : sl) for (int v : x->vars) if (varExpr[v].is_fpa()) anyFP = true; for (auto* x : q) for (int v : x->vars) if (varExpr[v].is_fpa()) anyFP = true;
    if (anyReal && !anyFP) {
        if (anyOther) { // independent real / integer parts are solved separately
            std::vector<Sym*> rs, os; bool mixed = false;
            auto split = [&](Sym* x) { bool r = false, o = false; for (int v : x->vars) (varExpr[v].is_real() ? r : o) = true; if (r && o) mixed = true; (r ? rs : os).push_back(x); };
            for (auto* x : sl) split(x); for (auto* x : q) split(x);
            if (!mixed && !os.empty() && !rs.empty()) {
                ST.queries--; CheckRes a = check(os, {}, ms, true, false); if (a.r == -1) { if (!wantModel) qcache[key] = -1; return a; }
                CheckRes b = check(rs, {}, ms, true, useExternal); if (b.r == -1) { if (!wantModel) qcache[key] = -1; return b; }
                if (a.r == 0 || b.r == 0) { R.r = 0; return R; }
                R.r = 1; if (!wantModel) qcache[key] = 1;
                if (a.m && b.m) { R.m = std::make_shared<model>(C); for (auto* mm : {a.m.get(), b.m.get()}) for (unsigned i = 0; i < mm->num_consts(); i++) { func_decl d = mm->get_const_decl(i); expr val = mm->get_const_interp(d); R.m->add_const_interp(d, val); } }
                return R;
            }
        }
        std::set<int> vs; for (auto* x : sl) vs.insert(x->vars.begin(), x->vars.end()); for (auto* x : q) vs.insert(x->vars.begin(), x->vars.end());
        R = forkCheck(all, std::vector<int>(vs.begin(), vs.end()), ms, !anyOther); ST.solver_s += now() - t;
        if (R.r == 0 && useExternal) R.r = externalCheck(all, O.extSecs, "QF_NRA");
        if (R.r == 1) ST.nsat++; else if (R.r == -1) ST.nunsat++; else ST.nunk++;
        if (!wantModel && R.r != 0) qcache[key] = R.r;
        return R;
    }
    solver s = (anyReal && !anyOther) ? solver(C, "QF_NRA") : solver(C);
    params p(C); p.set("timeout", (unsigned)ms); s.set(p);
    for (auto& e : all) s.add(e);
    check_result cr = unknown;
    try { cr = s.check(); } catch (z3::exception& ex) { cr = unknown; }
    ST.solver_s += now() - t;
    R.r = cr == sat ? 1 : cr == unsat ? -1 : 0;
    if (R.r == 0 && useExternal) { R.r = externalCheck(all, O.extSecs, (anyReal && !anyOther) ? "QF_NRA" : nullptr); }
    if (R.r == 1) ST.nsat++; else if (R.r == -1) ST.nunsat++; else ST.nunk++;
    if (R.r == 1 && cr == sat) { try { R.m = std::make_shared<model>(s.get_model()); } catch (z3::exception&) {} }
    if (!wantModel && R.r != 0) { for (auto* x : sl) (void)x; qcache[key] = R.r; }
    return R;
}
