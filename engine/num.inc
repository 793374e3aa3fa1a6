// ------------------------------------------------------------------ numeric witnesses
// Candidate input assignments are evaluated in floating point to find concrete witnesses for the feasible side of
// a branch without a solver call. They are only ever used as evidence that a branch is feasible (which merely
// adds work); infeasibility and every assertion verdict come from canonicalisation or the solver.
struct NNode { enum K : u8 { CONST, VAR, ADD, MUL, SUB, DIV, NEG, LT, LE, EQ, AND, OR, NOT, ITE, FN, BAD } k; std::vector<int> a; double c = 0; std::string fn; int var = -1; };
static std::vector<NNode> nnodes; static std::unordered_map<unsigned, int> nodeOf;
struct VarGen { double lo = -1e30, hi = 1e30; std::vector<int> group; int sqrhs = -1; int kind = 0; };
static std::unordered_map<int, VarGen> varGen;
static int compileN(const E& e) {
    auto it = nodeOf.find(e.id()); if (it != nodeOf.end()) return it->second; mk(e);
    NNode n; n.k = NNode::BAD;
    if (e.is_numeral() && e.is_real()) { n.k = NNode::CONST; mpq_class q(Z3_get_numeral_string(C, e)); q.canonicalize(); n.c = q.get_d(); }
    else if (e.is_true()) { n.k = NNode::CONST; n.c = 1; } else if (e.is_false()) { n.k = NNode::CONST; n.c = 0; }
    else if (e.is_app()) {
        auto k = e.decl().decl_kind(); unsigned m = e.num_args(); auto args = [&] { for (unsigned i = 0; i < m; i++) n.a.push_back(compileN(e.arg(i))); };
        if (m == 0 && k == Z3_OP_UNINTERPRETED && e.is_real()) {
            auto d = atomDef.find(e.id());
            if (z3::eq(e, PIe())) { n.k = NNode::CONST; n.c = M_PI; }
            else if (d != atomDef.end()) { n.k = NNode::FN; n.fn = d->second.first; for (auto& x : d->second.second) n.a.push_back(compileN(x)); }
            else { n.k = NNode::VAR; n.var = mk(e)->vars[0]; }
        } else switch (k) {
            case Z3_OP_ADD: n.k = NNode::ADD; args(); break; case Z3_OP_MUL: n.k = NNode::MUL; args(); break; case Z3_OP_SUB: n.k = NNode::SUB; args(); break;
            case Z3_OP_DIV: n.k = NNode::DIV; args(); break; case Z3_OP_UMINUS: n.k = NNode::NEG; args(); break;
            case Z3_OP_LT: n.k = NNode::LT; args(); break; case Z3_OP_LE: n.k = NNode::LE; args(); break;
            case Z3_OP_GT: n.k = NNode::LT; args(); std::swap(n.a[0], n.a[1]); break; case Z3_OP_GE: n.k = NNode::LE; args(); std::swap(n.a[0], n.a[1]); break;
            case Z3_OP_EQ: if (e.arg(0).is_real() || e.arg(0).is_bool()) { n.k = NNode::EQ; args(); } break;
            case Z3_OP_AND: n.k = NNode::AND; args(); break; case Z3_OP_OR: n.k = NNode::OR; args(); break; case Z3_OP_NOT: n.k = NNode::NOT; args(); break; case Z3_OP_ITE: if (e.is_real() || e.is_bool()) { n.k = NNode::ITE; args(); } break;
            default: break;
        }
    }
    for (int x : n.a) if (nnodes[x].k == NNode::BAD) n.k = NNode::BAD;
    nnodes.push_back(n); return nodeOf[e.id()] = nnodes.size() - 1;
}
static u64 nrngS = 88172645463325252ull; static double nrnd() { nrngS ^= nrngS << 13; nrngS ^= nrngS >> 7; nrngS ^= nrngS << 17; return (nrngS >> 11) * (1.0 / 9007199254740992.0); }
static double nnorm() { return std::sqrt(-2 * std::log(1 - nrnd())) * std::cos(6.283185307179586 * nrnd()); }
struct NumEval {
    std::map<int, double>& val; std::unordered_map<int, std::pair<double, double>> memo; // node -> (value, magnitude)
    NumEval(std::map<int, double>& v) : val(v) {}
    double draw(int v) {
        auto f = val.find(v); if (f != val.end()) return f->second;
        auto g = varGen.find(v); VarGen G; if (g != varGen.end()) G = g->second;
        if (G.group.size() == 3) { double x = nnorm(), y = nnorm(), z = nnorm(), l = std::sqrt(x * x + y * y + z * z); val[G.group[0]] = x / l; val[G.group[1]] = y / l; val[G.group[2]] = z / l; return val[v]; }
        double x; if (G.sqrhs >= 0) { x = std::sqrt(ev(G.sqrhs).first); if (nrnd() < .5) x = -x; }
        else if (G.lo > -1e29 && G.hi < 1e29) x = G.lo + (G.hi - G.lo) * nrnd(); else if (G.lo > -1e29) x = G.lo + std::exp(1.5 * nnorm()); else x = nrnd() < .7 ? 2 * nnorm() : std::exp(3 * nnorm()) * (nrnd() < .5 ? -1 : 1);
        return val[v] = x;
    }
    std::pair<double, double> ev(int i) { // booleans: value 1 true, 0 false, NaN undetermined
        auto f = memo.find(i); if (f != memo.end()) return f->second;
        const NNode n = nnodes[i]; double r = 0, m = 0; const double NA = std::nan("");
        auto cmp = [&](double& d, double& mg) { auto x = ev(n.a[0]), y = ev(n.a[1]); d = x.first - y.first; mg = (x.second + y.second) * 1e-9 + 1e-13; };
        switch (n.k) {
            case NNode::CONST: r = n.c; m = std::fabs(r); break; case NNode::VAR: r = draw(n.var); m = std::fabs(r); break;
            case NNode::ADD: for (int x : n.a) { auto q = ev(x); r += q.first; m += q.second; } break;
            case NNode::SUB: { auto q = ev(n.a[0]); r = q.first; m = q.second; for (size_t k = 1; k < n.a.size(); k++) { q = ev(n.a[k]); r -= q.first; m += q.second; } break; }
            case NNode::MUL: r = m = 1; for (int x : n.a) { auto q = ev(x); r *= q.first; m *= q.second; } break;
            case NNode::DIV: { auto x = ev(n.a[0]), y = ev(n.a[1]); r = x.first / y.first; m = x.second / std::fabs(y.first) * (y.second / std::fabs(y.first)); break; }
            case NNode::NEG: { auto q = ev(n.a[0]); r = -q.first; m = q.second; break; }
            case NNode::LT: { double d, g; cmp(d, g); r = d < -g ? 1 : d > g ? 0 : NA; break; }
            case NNode::LE: { double d, g; cmp(d, g); r = d < -g ? 1 : d > g ? 0 : NA; break; }
            case NNode::EQ: { double d, g; cmp(d, g); r = std::fabs(d) > g ? 0 : NA; break; }
            case NNode::AND: { r = 1; for (int x : n.a) { double q = ev(x).first; if (q == 0) { r = 0; break; } if (q != 1) r = NA; } break; }
            case NNode::OR: { r = 0; for (int x : n.a) { double q = ev(x).first; if (q == 1) { r = 1; break; } if (q != 0) r = NA; } break; }
            case NNode::NOT: { double q = ev(n.a[0]).first; r = 1 - q; break; }
            case NNode::ITE: { double q = ev(n.a[0]).first; if (q == 1) return memo[i] = ev(n.a[1]); if (q == 0) return memo[i] = ev(n.a[2]); r = NA; break; }
            case NNode::FN: { double x = ev(n.a[0]).first, y = n.a.size() > 1 ? ev(n.a[1]).first : 0; const std::string& f = n.fn;
                r = f == "sqrt" ? std::sqrt(std::max(x, 0.)) : f == "sin" ? std::sin(x) : f == "cos" ? std::cos(x) : f == "exp" ? std::exp(x) : f == "log" ? std::log(x) : f == "acos" ? std::acos(x) : f == "asin" ? std::asin(x) : f == "atan" ? std::atan(x) : f == "atan2" ? std::atan2(x, y) : f == "pow" ? std::pow(x, y) : NA; m = std::fabs(r); break; }
            default: r = NA;
        }
        return memo[i] = {r, m};
    }
};
struct Asg { std::map<int, double> val; NumEval ne; Asg() : ne(val) {} };
// tolerant check used for path conditions: equalities / non-strict comparisons hold within rounding
static bool holds(NumEval& N, const E& e) {
    int i = compileN(e); if (nnodes[i].k == NNode::BAD) { // integer-valued condition: does not constrain the reals
        return false; }
    const NNode& n = nnodes[i];
    if (n.k == NNode::EQ || n.k == NNode::LE) { auto x = N.ev(n.a[0]), y = N.ev(n.a[1]); double d = x.first - y.first, g = (x.second + y.second) * 1e-9 + 1e-13; return n.k == NNode::EQ ? std::fabs(d) <= g : d <= g; }
    if (n.k == NNode::OR) { for (unsigned k = 0; k < e.num_args(); k++) if (holds(N, e.arg(k))) return true; return false; }
    if (n.k == NNode::AND) { for (unsigned k = 0; k < e.num_args(); k++) if (!holds(N, e.arg(k))) return false; return true; }
    return N.ev(i).first == 1;
}
static bool pureReal(Sym* s) { for (int v : s->vars) if (!varExpr[v].is_real()) return false; return true; }
static bool pcHolds(State& S, Asg& a, size_t from) { for (size_t i = from; i < S.pc.size(); i++) if (pureReal(S.pc[i]) && !holds(a.ne, S.pc[i]->e)) return false; return true; }
static void refreshPool(State& S) {
    if (!isR()) return;
    std::vector<std::pair<std::shared_ptr<Asg>, size_t>> keep;
    for (auto& p : S.pool) if (pcHolds(S, *p.first, p.second)) keep.push_back({p.first, S.pc.size()});
    S.pool.swap(keep);
    if (S.pool.size() < 2 && S.poolFails < 2) {
        double t = elapsed(); int tries = 0; bool any = false;
        for (; tries < 600 && S.pool.size() < 8 && elapsed() - t < 0.15; tries++) { auto a = std::make_shared<Asg>(); if (pcHolds(S, *a, 0)) { S.pool.push_back({a, S.pc.size()}); any = true; } }
        if (S.pool.empty()) S.poolFails++;
    }
}
static void addModelToPool(State& S, const z3::model& m) {
    if (!isR()) return; auto a = std::make_shared<Asg>(); std::set<int> vs; for (auto* p : S.pc) if (pureReal(p)) for (int v : p->vars) vs.insert(v);
    for (int v : vs) { E e = varExpr[v]; if (atomDef.count(e.id()) || z3::eq(e, PIe())) continue; a->val[v] = exprD(m.eval(e, true)); }
    if (pcHolds(S, *a, 0)) S.pool.push_back({a, S.pc.size()});
}
// ------------------------------------------------------------------ cheap sign reasoning: bit 1 may be negative, 2 may be zero, 4 may be positive
static std::vector<std::pair<int, int>> trigPairs; // (sin atom, cos atom)
static int atomSign(State& S, int a) {
    const E& x = atomExpr[a]; if (z3::eq(x, PIe())) return 4; E z = C.real_val(0); int m = 7;
    auto kn = [&](const E& c) { return S.known.count(normCond(c).id()) > 0; };
    if (kn(x < z)) return 1; if (kn(z < x)) return 4; if (kn(x <= z)) m &= 3; if (kn(z <= x)) m &= 6; if (m != 7 && m != 2) { if (kn(!(x == z))) m &= 5; } else if (m == 7 && kn(!(x == z))) m = 5;
    return m;
}
static int polySignTerms(State& S, const Poly& p) {
    bool pos = false, neg = false, strict = false; std::map<int, int> memo;
    for (auto& [m, c] : p.t) {
        int t = c > 0 ? 4 : 1;
        for (auto& [a, e] : m) { auto it = memo.find(a); int s = it != memo.end() ? it->second : (memo[a] = atomSign(S, a)); if (!(e & 1)) { s = (s & 2) | ((s & 5) ? 4 : 0); }
            int r = 0; if ((t & 2) || (s & 2)) r |= 2; if (((t & 4) && (s & 4)) || ((t & 1) && (s & 1))) r |= 4; if (((t & 4) && (s & 1)) || ((t & 1) && (s & 4))) r |= 1; t = r; }
        if ((t & 5) == 5) return 7; if (t & 4) pos = true; if (t & 1) neg = true; if (pos && neg) return 7; if (!(t & 2)) strict = true;
    }
    return (pos ? 4 : 0) | (neg ? 1 : 0) | (strict ? 0 : 2);
}
static int polySign(State& S, const Poly& p) {
    if (p.zero()) return 2; int r = polySignTerms(S, p); if (r != 7 || trigPairs.empty() || p.t.size() > 60) return r;
    try { Poly q = p; bool any = false; for (auto& [s, c] : trigPairs) { Poly n; Poly rep = Poly::c(1); { Poly u; u.t[Mono{{c, 2}}] = 1; rep = padd(rep, u, -1); }
            for (auto& [m, k] : q.t) { Mono r2; int e = 0; for (auto& [a, x] : m) { if (a == s) { e = x / 2; if (x & 1) r2.push_back({a, 1}); } else r2.push_back({a, x}); } Poly t; t.t[r2] = k; if (e) any = true; for (int i = 0; i < e; i++) t = pmulraw(t, rep); n = padd(n, t); } q = n; }
        if (any) return polySignTerms(S, q); } catch (PolyLimit&) {}
    return r;
}
static int condBySign(State& S, const E& e) { // 1 true, 0 false, -1 unknown; e is a canonical condition P<0, P<=0 or P==0
    if (!isR() || !e.is_app() || e.num_args() != 2 || !e.arg(0).is_real()) return -1; auto k = e.decl().decl_kind(); if (k != Z3_OP_LT && k != Z3_OP_LE && k != Z3_OP_EQ) return -1;
    auto rf = rfOf(e.arg(0) - e.arg(1)); if (!rf || !rf->d.empty() || rf->n.t.size() > 400) return -1; int s = polySign(S, rf->n);
    if (k == Z3_OP_LT) { if (!(s & 1)) return 0; if (s == 1) return 1; } else if (k == Z3_OP_LE) { if (!(s & 4)) return 1; if (s == 4) return 0; } else { if (!(s & 2)) return 0; if (s == 2) return 1; }
    return -1;
}
