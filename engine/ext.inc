// ------------------------------------------------------------------ real functions
static std::map<std::string, E*> fnAtoms;
static std::map<std::string, int> fnCount;
static E fnAtom(const std::string& fn, const std::vector<E>& args, bool& fresh) {
    std::string key = fn; for (auto& a : args) { auto rf = rfOf(a); key += "|" + (rf ? rfKey(*rf) : ("#" + std::to_string(mk(a)->e.id()))); }
    auto it = fnAtoms.find(key); if (it != fnAtoms.end()) { fresh = false; return *it->second; }
    E e = C.real_const((fn + "!" + std::to_string(fnCount[fn]++)).c_str()); fnAtoms[key] = new E(e); mk(e); atomDef[e.id()] = {fn, args}; fresh = true; return e;
}
static bool isAtomOf(const E& x, const char* fn, std::vector<E>& args) { E e = canonR(x); auto it = atomDef.find(e.id()); if (it == atomDef.end() || it->second.first != fn) return false; args = it->second.second; return true; }
static bool perfectSquare(const mpq_class& q, mpq_class& r) { if (q < 0) return false; mpz_class a = q.get_num(), b = q.get_den(); if (!mpz_perfect_square_p(a.get_mpz_t()) || !mpz_perfect_square_p(b.get_mpz_t())) return false; r = mpq_class(sqrt(a), sqrt(b)); return true; }
static E realAbs(State& S, const E& x) { return decide(S, x >= C.real_val(0)) ? x : canonR(-x); }
static bool introduced(State& S, const RF& r) { auto ok = [&](const Poly& p) { for (auto& [m, c] : p.t) for (auto& [a, e] : m) if (atomDef.count(atomExpr[a].id()) && !S.atoms.count(atomExpr[a].id())) return false; return true; }; if (!ok(r.n)) return false; for (auto& [f, e] : r.d) if (!ok(f)) return false; return true; }
static E realSqrt(State& S, const E& x0) {
    E x = canonR(x0);
    // non-negativity
    if (!decide(S, x >= C.real_val(0))) { // sqrt of negative: NaN
        if (S.divcheck) { labels["sqrt-negative"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r != -1) recordViolation(S, "sqrt-negative", where(S), c.m, true); }
        endPath("nonfinite", "sqrt of negative value");
    }
    auto rf = rfOf(x);
    if (!rf) { bool f; E s = fnAtom("sqrt", {x}, f); S.atoms.insert(s.id()); addPC(S, s >= C.real_val(0)); addPC(S, s * s == x); return s; }
    RF r = *rf; Poly n = r.n; std::vector<std::pair<Poly, int>> outd; // |f|^(e/2)
    try {
        for (auto& [f, e] : r.d) { int ee = e; if (ee & 1) { n = ALG.mul(n, f); ee++; } outd.push_back({f, ee / 2}); }
        E out = C.real_val(1);
        if (n.zero()) return C.real_val(0);
        // monomial square content
        Mono mc = mcontent(n), sqm; for (auto& [a, e] : mc) if (e >= 2) sqm.push_back({a, e - (e & 1)});
        std::vector<std::pair<int, int>> outm; if (!sqm.empty()) { n = mdiv(n, sqm); for (auto& [a, e] : sqm) outm.push_back({a, e / 2}); }
        mpq_class lc = abs(n.t.begin()->second), sr;
        if (perfectSquare(lc, sr)) { n = pscale(n, 1 / lc); out = ratE(sr); }
        E core = C.real_val(1);
        if (n.isConst()) { mpq_class q = n.cval(); if (perfectSquare(q, sr)) core = ratE(sr); else core = snap(std::sqrt(q.get_d())); }
        else {
            bool done = false;
            // perfect square of a polynomial (a+b+..)^2 with few terms: try square root by matching
            if (n.t.size() >= 3 && n.t.size() <= 12) {
                // candidate root: take square-root of pure-square monomials with signs from cross terms (only two-term roots)
                std::vector<std::pair<Mono, mpq_class>> sqs;
                for (auto& [m, c] : n.t) { bool ev = true; for (auto& [a, e] : m) if (e & 1) ev = false; mpq_class q; if (ev && c > 0 && perfectSquare(c, q)) { Mono h; for (auto& [a, e] : m) h.push_back({a, e / 2}); sqs.push_back({h, q}); } }
                for (size_t i = 0; i < sqs.size() && !done; i++) for (size_t j = i + 1; j < sqs.size() && !done; j++) for (int sg : {1, -1}) {
                    Poly c; c.t[sqs[i].first] = sqs[i].second; c.t[sqs[j].first] = sg > 0 ? sqs[j].second : mpq_class(-sqs[j].second);
                    if (padd(ALG.mul(c, c), n, -1).zero()) { core = realAbs(S, polyE(c)); done = true; break; }
                }
            }
            if (!done) { // square (modulo the algebraic side relations) of a value computed earlier?
                static size_t upto = 0; static std::map<std::string, std::shared_ptr<RF>> sqOf;
                for (; upto < realVals.size() && upto < 20000; upto++) { try { RF q = ALG.mulRF(*realVals[upto], *realVals[upto]); if (q.n.zero()) continue; q.n = pscale(q.n, 1 / q.n.t.begin()->second); sqOf.emplace(rfKey(q), realVals[upto]); } catch (PolyLimit&) {} }
                RF x1 = *rf; mpq_class l0 = x1.n.t.begin()->second; x1.n = pscale(x1.n, 1 / l0); auto it = sqOf.find(rfKey(x1));
                if (it != sqOf.end() && introduced(S, *it->second)) { RF q = ALG.mulRF(*it->second, *it->second); mpq_class ratio = l0 / q.n.t.begin()->second, sr2; if (ratio > 0 && perfectSquare(ratio, sr2)) return canonR(ratE(sr2) * realAbs(S, rfE(*it->second))); }
            }
            if (!done) {
                E nx = polyE(n); bool fresh; core = fnAtom("sqrt", {nx}, fresh);
                if (fresh) addSqRule(core, n);
                if (S.atoms.insert(core.id()).second) {
                    addPC(S, core >= C.real_val(0));
                    E d = core * core == nx; // add un-normalised (rule would make it trivial)
                    Sym* s = mk(d); S.known.insert(d.id()); S.pc.push_back(s);
                    if (knownCond(S, normCond(C.real_val(0) < nx)) == 1) addPC(S, core > C.real_val(0));
                }
            }
        }
        for (auto& [a, k] : outm) { E ab = realAbs(S, atomExpr[a]); for (int i = 0; i < k; i++) out = out * ab; }
        E den = C.real_val(1);
        for (auto& [f, k] : outd) { E ab = realAbs(S, polyE(f)); for (int i = 0; i < k; i++) den = den * ab; }
        return canonR(out * core / den);
    } catch (PolyLimit&) { bool f; E s = fnAtom("sqrt", {x}, f); S.atoms.insert(s.id()); addPC(S, s >= C.real_val(0)); addPC(S, s * s == x); return s; }
}
static void once(State& S, const E& atom, std::function<void()> f) { E tag = C.bool_const(("ax!" + atom.to_string()).c_str()); mk(tag); if (S.known.count(tag.id())) return; S.known.insert(tag.id()); S.atoms.insert(atom.id()); f(); }
static E realSin(State& S, const E& x, bool wantCos);
static E realSin(State& S, const E& x0, bool wantCos) {
    E x = canonR(x0); std::vector<E> as; E one = C.real_val(1), zero = C.real_val(0);
    if (isAtomOf(x, "acos", as)) return wantCos ? as[0] : realSqrt(S, one - as[0] * as[0]);
    if (isAtomOf(x, "asin", as)) return wantCos ? realSqrt(S, one - as[0] * as[0]) : as[0];
    if (isAtomOf(x, "atan", as)) { E h = realSqrt(S, one + as[0] * as[0]); return wantCos ? one / h : as[0] / h; }
    if (isAtomOf(x, "atan2", as)) { E h = realSqrt(S, as[1] * as[1] + as[0] * as[0]); requireNonZero(S, h, "atan2"); return wantCos ? as[1] / h : as[0] / h; }
    auto rf = rfOf(x);
    if (rf && rf->n.zero()) return wantCos ? one : zero;
    // canonical sign
    bool neg = false; if (rf && rf->n.t.begin()->second < 0) { neg = true; x = canonR(-x); }
    bool f1, f2; E s = fnAtom("sin", {x}, f1), c = fnAtom("cos", {x}, f2);
    if (f2) { trigPairs.push_back({atomId(s), atomId(c)}); Poly p = Poly::c(1); Poly sp; sp.t[Mono{{atomId(s), 2}}] = 1; p = padd(p, sp, -1); addSqRule(c, p); }
    once(S, s, [&] { S.atoms.insert(c.id()); E d = s * s + c * c == one; Sym* y = mk(d); S.known.insert(d.id()); S.pc.push_back(y); addPC(S, s <= one && s >= -one && c <= one && c >= -one); });
    if (wantCos) return c; return neg ? canonR(-s) : s;
}
// quadrant facts about a sine / cosine pair, added on demand
static void trigQuadrant(State& S, const E& s, const E& t) {
    E tag = C.bool_const(("quad!" + s.to_string()).c_str()); mk(tag); if (!S.known.insert(tag.id()).second) return; E z = C.real_val(0), pi = PIe(), two = C.real_val(2);
    addPC(S, !(t > z && t < pi) || s > z); addPC(S, !(t > pi && t < two * pi) || s < z); addPC(S, !(t < z && t > -pi) || s < z);
}
// atan2(k sin p, k cos p) with k > 0 is p reduced to (-pi, pi]
static bool polarAngle(State& S, const E& y, const E& x, E& out) {
    for (auto& [sa, ca] : trigPairs) {
        E s = atomExpr[sa], c = atomExpr[ca]; if (!S.atoms.count(s.id())) continue; auto d = rfOf(canonR(y * c - x * s)); if (!d || !d->n.zero()) continue;
        E k = canonR(y * s + x * c), p = atomDef[s.id()].second[0]; if (auto kr = rfOf(k)) { std::set<int> at; for (auto& [m, q] : kr->n.t) for (auto& [a, e] : m) at.insert(a); for (int a : at) { std::vector<E> as; if (isAtomOf(atomExpr[a], "sin", as)) trigQuadrant(S, atomExpr[a], as[0]); } }
        if (!decide(S, k > C.real_val(0))) continue; int64_t j; realInt(S, (p - PIe()) / (C.real_val(2) * PIe()), 1, j); out = canonR(p - C.real_val(2) * PIe() * C.real_val((int64_t)j)); return true;
    }
    return false;
}
static E realExp(State& S, const E& x0) {
    E x = canonR(x0); std::vector<E> as; if (isAtomOf(x, "log", as)) return as[0];
    if (isAtomOf(canonR(-x), "log", as)) return C.real_val(1) / as[0];
    auto rf = rfOf(x); if (rf && rf->n.zero()) return C.real_val(1);
    bool f; E e = fnAtom("exp", {x}, f); E z = C.real_val(0), one = C.real_val(1);
    once(S, e, [&] { addPC(S, e > z); addPC(S, (x <= z && e <= one) || (x >= z && e >= one)); addPC(S, e >= one + x); addPC(S, (x == z) == (e == one));
        // monotone w.r.t. other exp atoms on this path
        for (auto& [id, df] : atomDef) if (df.first == "exp" && id != e.id()) { E o = *fnAtoms.begin()->second; for (auto& [k, pe] : fnAtoms) if (pe->id() == id) o = *pe; E tag = C.bool_const(("ax!" + o.to_string()).c_str()); if (!S.known.count(mk(tag)->e.id())) continue; addPC(S, (df.second[0] <= x && o <= e) || (df.second[0] >= x && o >= e)); addPC(S, (df.second[0] == x) == (o == e)); } });
    return e;
}
static E realLog(State& S, const E& x0) {
    E x = canonR(x0); std::vector<E> as; if (isAtomOf(x, "exp", as)) return as[0];
    if (!decide(S, x > C.real_val(0))) endPath("nonfinite", "log of non-positive value");
    bool f; E e = fnAtom("log", {x}, f); E z = C.real_val(0), one = C.real_val(1);
    once(S, e, [&] { addPC(S, (x <= one && e <= z) || (x >= one && e >= z)); addPC(S, e <= x - one); addPC(S, (x == one) == (e == z)); addPC(S, e * x >= x - one);
        for (auto& [id, df] : atomDef) if (df.first == "log" && id != e.id()) { E o = e; for (auto& [k, pe] : fnAtoms) if (pe->id() == id) o = *pe; E tag = C.bool_const(("ax!" + o.to_string()).c_str()); if (!S.known.count(mk(tag)->e.id())) continue; addPC(S, (df.second[0] <= x && o <= e) || (df.second[0] >= x && o >= e)); addPC(S, (df.second[0] == x) == (o == e)); } });
    return e;
}
static E realPow(State& S, const E& x, const Val& y) {
    if (y.k != Val::SYM) {
        double p = fltOf(y); double t = p * 2;
        if (t == std::floor(t) && std::fabs(t) <= 16) {
            int k = (int)std::fabs(t); E r = C.real_val(1); for (int i = 0; i < k / 2; i++) r = r * x; if (k & 1) r = r * realSqrt(S, x);
            if (p < 0) { requireNonZero(S, r, "pow"); r = C.real_val(1) / r; } return canonR(r);
        }
    }
    bool f; E e = fnAtom("pow", {x, rE(y)}, f); once(S, e, [&] { addPC(S, !(x > C.real_val(0)) || e > C.real_val(0)); addPC(S, !(x == C.real_val(1)) || e == C.real_val(1)); addPC(S, !(rE(y) == C.real_val(0)) || e == C.real_val(1)); }); return e;
}
static Val fn1(State& S, const std::string& n, const Val& a, int fw) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (auto& x : a.a->v) v.push_back(fn1(S, n, x, fw)); return Val::A(v); }
    if (a.k != Val::SYM) {
        double x = fltOf(a), r = 0;
        if (fw == 32) { float f = x; if (n == "sqrt") return Val::F(sqrtf(f), 32); if (n == "sin") return Val::F(sinf(f), 32); if (n == "cos") return Val::F(cosf(f), 32); if (n == "exp") return Val::F(expf(f), 32); if (n == "log") return Val::F(logf(f), 32); if (n == "tan") return Val::F(tanf(f), 32); }
        if (n == "sqrt") r = sqrt(x); else if (n == "sin") r = sin(x); else if (n == "cos") r = cos(x); else if (n == "tan") r = tan(x); else if (n == "exp") r = exp(x); else if (n == "log") r = log(x); else if (n == "acos") r = acos(x); else if (n == "asin") r = asin(x); else if (n == "atan") r = atan(x); else if (n == "fabs") r = fabs(x); else if (n == "floor") r = floor(x); else if (n == "ceil") r = ceil(x); else if (n == "trunc") r = trunc(x); else if (n == "round") r = round(x); else if (n == "rint" || n == "nearbyint") r = nearbyint(x); else if (n == "log2") r = log2(x); else if (n == "log10") r = log10(x); else if (n == "exp2") r = exp2(x); else if (n == "cbrt") r = cbrt(x); else endPath("unsupported", "fn " + n);
        return Val::F(r, fw);
    }
    if (isR()) {
        E x = rE(a); E one = C.real_val(1), z = C.real_val(0);
        if (n == "sqrt") return mkR(realSqrt(S, x), fw);
        if (n == "fabs") return decide(S, x >= z) ? a : mkR(-x, fw);
        if (n == "sin") return mkR(realSin(S, x, false), fw); if (n == "cos") return mkR(realSin(S, x, true), fw);
        if (n == "tan") { E c = realSin(S, x, true); requireNonZero(S, c, "tan"); return mkR(realSin(S, x, false) / c, fw); }
        if (n == "exp") return mkR(realExp(S, x), fw); if (n == "log") return mkR(realLog(S, x), fw);
        if (n == "acos" || n == "asin") {
            if (!decide(S, x >= -one && x <= one)) endPath("nonfinite", n + " out of domain");
            if (n == "acos") { std::vector<E> as; E cx = canonR(x); if (isAtomOf(cx, "cos", as)) { E t = as[0]; if (knownCond(S, normCond(t >= z)) != 0 && decide(S, t >= z && t <= PIe())) return mkR(t, fw); } }
            bool f; E e = fnAtom(n, {canonR(x)}, f); once(S, e, [&] { if (n == "acos") { addPC(S, e >= z && e <= PIe()); addPC(S, (x >= z && e <= PIe() / C.real_val(2)) || (x <= z && e >= PIe() / C.real_val(2))); addPC(S, (x == one) == (e == z)); addPC(S, (x == -one) == (e == PIe())); } else { addPC(S, e >= -PIe() / C.real_val(2) && e <= PIe() / C.real_val(2)); addPC(S, (x >= z && e >= z) || (x <= z && e <= z)); } }); return mkR(e, fw); }
        if (n == "atan") { bool f; E e = fnAtom(n, {canonR(x)}, f); once(S, e, [&] { addPC(S, e > -PIe() / C.real_val(2) && e < PIe() / C.real_val(2)); addPC(S, (x >= z && e >= z) || (x <= z && e <= z)); }); return mkR(e, fw); }
        if (n == "floor" || n == "ceil" || n == "trunc" || n == "round") { int64_t k; realInt(S, x, n == "floor" ? 0 : n == "ceil" ? 1 : n == "trunc" ? 2 : 3, k); return Val::F((double)k, fw); }
        endPath("unsupported", "real fn " + n);
    }
    E x = fpE(a, fw);
    if (n == "sqrt") return mkF(E(C, Z3_mk_fpa_sqrt(C, E(C, Z3_mk_fpa_rne(C)), x)), fw);
    if (n == "fabs") return mkF(E(C, Z3_mk_fpa_abs(C, x)), fw);
    auto rti = [&](Z3_ast rm) { return mkF(E(C, Z3_mk_fpa_round_to_integral(C, rm, x)), fw); };
    if (n == "floor") return rti(Z3_mk_fpa_rtn(C)); if (n == "ceil") return rti(Z3_mk_fpa_rtp(C)); if (n == "trunc") return rti(Z3_mk_fpa_rtz(C)); if (n == "round") return rti(Z3_mk_fpa_rna(C)); if (n == "rint" || n == "nearbyint") return rti(Z3_mk_fpa_rne(C));
    // other functions: arbitrary finite value (sound over-approximation)
    E e = C.constant((n + "!fp" + std::to_string(fnCount[n]++)).c_str(), fpS(fw));
    if (n == "sin" || n == "cos") { E one1 = fw == 32 ? C.fpa_val(1.f) : C.fpa_val(1.0), m1 = fw == 32 ? C.fpa_val(-1.f) : C.fpa_val(-1.0); addPC(S, E(C, Z3_mk_fpa_leq(C, e, one1)) && E(C, Z3_mk_fpa_geq(C, e, m1))); }
    if (n == "exp") addPC(S, E(C, Z3_mk_fpa_geq(C, e, C.fpa_val(0.0))));
    return mkF(e, fw);
}
static Val fn2(State& S, const std::string& n, const Val& a, const Val& b, int fw) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(fn2(S, n, a.a->v[i], b.a->v[i], fw)); return Val::A(v); }
    if (a.k != Val::SYM && b.k != Val::SYM) {
        double x = fltOf(a), y = fltOf(b);
        if (n == "pow") return Val::F(fw == 32 ? powf(x, y) : pow(x, y), fw); if (n == "atan2") return Val::F(atan2(x, y), fw); if (n == "fmod") return Val::F(fmod(x, y), fw); if (n == "fmin") return Val::F(fmin(x, y), fw); if (n == "fmax") return Val::F(fmax(x, y), fw); if (n == "copysign") return Val::F(copysign(x, y), fw); if (n == "hypot") return Val::F(hypot(x, y), fw); if (n == "nextafter") return Val::F(nextafter(x, y), fw);
        endPath("unsupported", "fn2 " + n);
    }
    if (isR()) {
        E z = C.real_val(0);
        if (n == "fmin") return decide(S, rE(b) < rE(a)) ? b : a; if (n == "fmax") return decide(S, rE(a) < rE(b)) ? b : a;
        if (n == "copysign") { E mag = a.k == Val::SYM ? realAbs(S, rE(a)) : snap(std::fabs(fltOf(a))); if (b.k != Val::SYM) return mkR(std::signbit(fltOf(b)) ? -mag : mag, fw); return mkR(decide(S, rE(b) >= z) ? mag : -mag, fw); }
        if (n == "pow") return mkR(realPow(S, rE(a), b), fw);
        if (n == "atan2") {
            E y = rE(a), x = rE(b); bool f; E ang = z; if (polarAngle(S, y, x, ang)) return mkR(ang, fw); E e = fnAtom("atan2", {canonR(y), canonR(x)}, f);
            once(S, e, [&] { addPC(S, e >= -PIe() && e <= PIe()); addPC(S, (y > z && e > z) || (y < z && e < z) || (y == z)); addPC(S, !(y == z && x > z) || e == z); addPC(S, (y == z) || (e != PIe() && e != -PIe() && e != z)); addPC(S, !(y == z && x < z) || e == PIe()); addPC(S, (x > z && e < PIe() / C.real_val(2) && e > -PIe() / C.real_val(2)) || (x <= z && (e >= PIe() / C.real_val(2) || e <= -PIe() / C.real_val(2) || (y == z && x == z)))); });
            return mkR(e, fw); }
        if (n == "hypot") return mkR(realSqrt(S, rE(a) * rE(a) + rE(b) * rE(b)), fw);
        if (n == "fmod") { E q = rE(b); requireNonZero(S, q, "fmod"); int64_t k; realInt(S, rE(a) / q, 2, k); return mkR(rE(a) - ratE(mpq_class((long)k)) * q, fw); }
        endPath("unsupported", "real fn2 " + n);
    }
    E x = fpE(a, fw), y = fpE(b, fw);
    if (n == "fmin") return mkF(z3::ite(E(C, Z3_mk_fpa_is_nan(C, x)), y, z3::ite(E(C, Z3_mk_fpa_is_nan(C, y)), x, z3::ite(E(C, Z3_mk_fpa_lt(C, y, x)), y, x))), fw);
    if (n == "fmax") return mkF(z3::ite(E(C, Z3_mk_fpa_is_nan(C, x)), y, z3::ite(E(C, Z3_mk_fpa_is_nan(C, y)), x, z3::ite(E(C, Z3_mk_fpa_gt(C, y, x)), y, x))), fw);
    if (n == "copysign") { E ax(C, Z3_mk_fpa_abs(C, x)); return mkF(z3::ite(E(C, Z3_mk_fpa_is_negative(C, y)), E(C, Z3_mk_fpa_neg(C, ax)), ax), fw); }
    E e = C.constant((n + "!fp" + std::to_string(fnCount[n]++)).c_str(), fpS(fw));
    return mkF(e, fw);
}

// ------------------------------------------------------------------ symbolic differentiation (used for sampling-density obligations)
static E diffE(State& S, const E& e, const E& x, std::map<unsigned, E>& memo);
static E diffAtom(State& S, const E& a, const E& x, std::map<unsigned, E>& memo) {
    if (z3::eq(a, x)) return C.real_val(1);
    auto it = atomDef.find(a.id()); if (it == atomDef.end()) return C.real_val(0);
    const std::string fn = it->second.first; std::vector<E> as = it->second.second; E two = C.real_val(2), one = C.real_val(1);
    E d0 = diffE(S, as[0], x, memo); E d1 = as.size() > 1 ? diffE(S, as[1], x, memo) : C.real_val(0);
    auto isZ = [](const E& q) { auto r = rfOf(q); return r && r->n.zero(); };
    if (isZ(d0) && isZ(d1)) return C.real_val(0);
    if (fn == "sqrt") { requireNonZero(S, a, "diff sqrt"); return canonR(d0 / (two * a)); }
    if (fn == "sin") return canonR(d0 * realSin(S, as[0], true)); if (fn == "cos") return canonR(-d0 * realSin(S, as[0], false));
    if (fn == "exp") return canonR(d0 * a); if (fn == "log") { requireNonZero(S, as[0], "diff log"); return canonR(d0 / as[0]); }
    if (fn == "acos" || fn == "asin") { E q = realSqrt(S, one - as[0] * as[0]); requireNonZero(S, q, "diff"); return canonR((fn == "acos" ? -d0 : d0) / q); }
    if (fn == "atan") return canonR(d0 / (one + as[0] * as[0]));
    if (fn == "atan2") { E q = as[0] * as[0] + as[1] * as[1]; requireNonZero(S, q, "diff"); return canonR((as[1] * d0 - as[0] * d1) / q); }
    if (fn == "pow" && isZ(d1)) { requireNonZero(S, as[0], "diff pow"); return canonR(as[1] * a * d0 / as[0]); }
    endPath("unsupported", "derivative of " + fn);
}
static E diffE(State& S, const E& e, const E& x, std::map<unsigned, E>& memo) {
    auto it = memo.find(e.id()); if (it != memo.end()) return it->second; mk(e);
    auto put = [&](E r) { r = canonR(r); memo.emplace(e.id(), r); return r; };
    if (e.is_numeral()) return put(C.real_val(0));
    if (e.is_app() && e.num_args() > 0) {
        auto k = e.decl().decl_kind(); unsigned n = e.num_args();
        if (k == Z3_OP_ADD) { E r = diffE(S, e.arg(0), x, memo); for (unsigned i = 1; i < n; i++) r = r + diffE(S, e.arg(i), x, memo); return put(r); }
        if (k == Z3_OP_SUB) { E r = diffE(S, e.arg(0), x, memo); for (unsigned i = 1; i < n; i++) r = r - diffE(S, e.arg(i), x, memo); return put(r); }
        if (k == Z3_OP_UMINUS) return put(-diffE(S, e.arg(0), x, memo));
        if (k == Z3_OP_MUL) { E r = C.real_val(0); for (unsigned i = 0; i < n; i++) { E t = diffE(S, e.arg(i), x, memo); auto rf = rfOf(t); if (rf && rf->n.zero()) continue; for (unsigned j = 0; j < n; j++) if (j != i) t = t * e.arg(j); r = r + t; } return put(r); }
        if (k == Z3_OP_DIV) { E u = e.arg(0), v = e.arg(1); E du = diffE(S, u, x, memo), dv = diffE(S, v, x, memo); return put(du / v - u * dv / (v * v)); }
        endPath("unsupported", "derivative of term");
    }
    return put(diffAtom(S, e, x, memo));
}
// ------------------------------------------------------------------ external functions
static void pushCall(State& S, const Function* F, const std::vector<Val>& args);
static std::vector<E> robustEq(const E& a, const E& b, State& S) {
    std::vector<E> r; E box = C.bool_val(true);
    for (auto& [n, x] : S.inputs) if (x.k == Val::SYM && x.s->isReal) box = box && x.s->e <= C.real_val(50) && x.s->e >= C.real_val(-50);
    E d = a - b; r.push_back((d > C.real_val("1/20") || d < C.real_val("-1/20")) && box); r.push_back(d > C.real_val("1/1000") || d < C.real_val("-1/1000"));
    return r;
}
static Val newInput(State& S, const std::string& base, const z3::sort& so, unsigned w) {
    int k = S.names[base]++; std::string n = k ? base + "#" + std::to_string(k) : base;
    E e = C.constant(n.c_str(), so); Val v = Val::S(e, w); S.inputs.push_back({n, v}); return v;
}
static void freeObj(State& S, u64 p, const char* what) {
    if (!p) return; u32 id = p >> 24; Obj* o = S.mem.get(id);
    if (!o || !o->live || (p & 0xffffff) || o->kind != 0) { memErr(S, std::string("invalid ") + what, p); }
    auto n = std::make_shared<Obj>(); n->size = o->size; n->live = false; n->kind = 0; S.mem.set(id, n);
}
static bool symEqByte(State& S, const Val& a, const Val& b) { if (a.k != Val::SYM && b.k != Val::SYM) return a.i == b.i; return decide(S, bvE(a, 8) == bvE(b, 8)); }
static inline void jump(State& S, Frame& f, int to);
#include "thr.inc"
static void regAll() {
    auto R = [](std::initializer_list<const char*> ns, Handler h, bool ovr = false) { int i = ext.size(); ext.push_back(h); for (auto n : ns) { extIdx[n] = i; if (ovr) overrideDefined.insert(n); } };
    #define H [](State& S, const DInst& d, std::vector<Val>& a, Val& r) -> bool
    auto nop = H { r = Val::I(0, 64); return true; };
    // harness interface
    R({"vp_real"}, H { if (isR()) { r = newInput(S, cstr(S, concretize(S, a[0])), C.real_sort(), 64); } else r = newInput(S, cstr(S, concretize(S, a[0])), fpS(64), 64); return true; });
    R({"vp_real_in"}, H { double lo = fltOf(a[1]), hi = fltOf(a[2]); if (isR()) { r = newInput(S, cstr(S, concretize(S, a[0])), C.real_sort(), 64); { auto& g = varGen[r.s->vars[0]]; g.lo = lo; g.hi = hi; } if (lo > -1e29) addPC(S, r.s->e >= snap(lo)); if (hi < 1e29) addPC(S, r.s->e <= snap(hi)); } else { r = newInput(S, cstr(S, concretize(S, a[0])), fpS(64), 64); addPC(S, E(C, Z3_mk_fpa_geq(C, r.s->e, C.fpa_val(lo)))); addPC(S, E(C, Z3_mk_fpa_leq(C, r.s->e, C.fpa_val(hi)))); } return true; });
    R({"vp_float"}, H { if (isR()) { r = newInput(S, cstr(S, concretize(S, a[0])), C.real_sort(), 32); } else r = newInput(S, cstr(S, concretize(S, a[0])), fpS(32), 32); return true; });
    R({"vp_int"}, H { int64_t lo = sx(concretize(S, a[1]), 32), hi = sx(concretize(S, a[2]), 32); r = newInput(S, cstr(S, concretize(S, a[0])), C.bv_sort(32), 32); addPC(S, r.s->e >= C.bv_val((int)lo, 32)); addPC(S, r.s->e <= C.bv_val((int)hi, 32)); return true; });
    R({"vp_i64"}, H { r = newInput(S, cstr(S, concretize(S, a[0])), C.bv_sort(64), 64); return true; });
    R({"vp_u8"}, H { r = newInput(S, cstr(S, concretize(S, a[0])), C.bv_sort(8), 8); return true; });
    R({"vp_bool"}, H { Val v = newInput(S, cstr(S, concretize(S, a[0])), C.bv_sort(8), 8); addPC(S, z3::ule(v.s->e, C.bv_val(1, 8))); r = mkBV(v.s->e == C.bv_val(1, 8), 1); return true; });
    R({"vp_choice"}, H { // concrete value chosen by forking over a symbolic input
        std::string base = cstr(S, concretize(S, a[0])); int n = concretize(S, a[1]); r = Val::I(choiceOf(S, base, n), 32); return true; });
    R({"vp_unit3"}, H { // unit vector, three doubles written to *p
        std::string base = cstr(S, concretize(S, a[0])); u64 p = concretize(S, a[1]); Type* D = Type::getDoubleTy(LC);
        Val x = newInput(S, base + ".x", C.real_sort(), 64), y = newInput(S, base + ".y", C.real_sort(), 64), z = newInput(S, base + ".z", C.real_sort(), 64);
        if (!isR()) endPath("unsupported", "vp_unit3 in F mode");
        Poly q = Poly::c(1); Poly t; t.t[Mono{{atomId(x.s->e), 2}}] = 1; q = padd(q, t, -1); Poly u; u.t[Mono{{atomId(y.s->e), 2}}] = 1; q = padd(q, u, -1);
        addSqRule(z.s->e, q); { std::vector<int> g{x.s->vars[0], y.s->vars[0], z.s->vars[0]}; for (int v : g) varGen[v].group = g; }
        E e = x.s->e * x.s->e + y.s->e * y.s->e + z.s->e * z.s->e == C.real_val(1); Sym* sy = mk(e); S.known.insert(e.id()); S.pc.push_back(sy);
        storeT(S, p, x, D); storeT(S, p + 8, y, D); storeT(S, p + 16, z, D); r = Val::I(0, 32); return true; });
    R({"vp_sqrule"}, H { // harness states  v^2 == rhs  as definition of input v (v must be an input)
        E v = rE(a[0]), x = canonR(rE(a[1])); auto rf = rfOf(x); if (rf && rf->d.empty() && v.is_const()) addSqRule(v, rf->n); if (v.is_const()) varGen[mk(v)->vars[0]].sqrhs = compileN(x); E e = v * v == x; Sym* sy = mk(e); S.known.insert(e.id()); S.pc.push_back(sy); r = Val::I(0, 32); return true; });
    R({"vp_assume"}, H { E e = boolE(a[0]); if (a[0].k != Val::SYM) { if (!(a[0].i & 1)) endPath("assume", ""); } else { E n = normCond(e); int kn = knownCond(S, n); if (kn == 0) endPath("assume", ""); if (kn < 0) { int c = check(S.pc, {n}, O.branchMs).r; if (c == -1) endPath("assume", ""); addPC(S, n); } } r = Val::I(0, 32); return true; });
    R({"vp_assert"}, H { std::string l = cstr(S, concretize(S, a[1])); doAssert(S, l, boolE(a[0]), {}, ""); r = Val::I(0, 32); return true; });
    R({"vp_assert_eq"}, H { std::string l = cstr(S, concretize(S, a[2]));
        if (a[0].k != Val::SYM && a[1].k != Val::SYM) { double x = fltOf(a[0]), y = fltOf(a[1]); bool ok = isR() ? std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)) || x == y : x == y; char b[100]; snprintf(b, 100, "%.12g vs %.12g", x, y); doAssert(S, l, C.bool_val(ok), {}, b); return true; }
        if (isR()) { E x = rE(a[0]), y = rE(a[1]); doAssert(S, l, x == y, robustEq(x, y, S), ""); } else { E x = fpE(a[0], 64), y = fpE(a[1], 64); doAssert(S, l, E(C, Z3_mk_fpa_eq(C, x, y)), {}, ""); } return true; });
    R({"vp_assert_le"}, H { std::string l = cstr(S, concretize(S, a[2]));
        if (a[0].k != Val::SYM && a[1].k != Val::SYM) { double x = fltOf(a[0]), y = fltOf(a[1]); doAssert(S, l, C.bool_val(x <= y + (isR() ? 1e-9 * (1 + std::fabs(x)) : 0)), {}, ""); return true; }
        if (isR()) { E x = rE(a[0]), y = rE(a[1]); std::vector<E> rb; auto q = robustEq(x, y, S); for (auto& e : q) rb.push_back(e && x > y); doAssert(S, l, x <= y, rb, ""); } else { E x = fpE(a[0], 64), y = fpE(a[1], 64); doAssert(S, l, E(C, Z3_mk_fpa_leq(C, x, y)), {}, ""); } return true; });
    R({"vp_reach"}, H { std::string l = cstr(S, concretize(S, a[0])); LabelRec& L = labels["reach:" + l]; if (!L.witness) { auto c = check(S.pc, {}, O.assertMs, true); if (c.r == 1) L.witness = true; } L.proved++; return true; });
    R({"vp_diff"}, H { if (!isR() || a[1].k != Val::SYM) endPath("unsupported", "vp_diff"); if (a[0].k != Val::SYM) { r = Val::F(0, 64); return true; } std::map<unsigned, E> memo; r = mkR(diffE(S, canonR(rE(a[0])), rE(a[1]), memo), 64); return true; });
    R({"vp_assert_near"}, H { std::string l = cstr(S, concretize(S, a[3]));
        if (a[0].k != Val::SYM && a[1].k != Val::SYM) { double x = fltOf(a[0]), y = fltOf(a[1]); doAssert(S, l, C.bool_val(std::fabs(x - y) <= 1e-9 * (1 + std::fabs(x) + std::fabs(y)) || x == y), {}, ""); return true; }
        if (isR()) { E x = rE(a[0]), y = rE(a[1]); doAssert(S, l, x == y, robustEq(x, y, S), ""); } else endPath("unsupported", "near"); return true; });
    R({"vp_divcheck"}, H { S.divcheck = concretize(S, a[0]); return true; });
    R({"vp_rng"}, H { u64 k = concretize(S, a[0]); std::string n = k ? "rng#" + std::to_string(k) : "rng"; for (auto& in : S.inputs) if (in.first == n) { r = in.second; return true; } r = Val::F(-1, 64); return true; });
    R({"vp_itemode"}, H { S.itemode = concretize(S, a[0]); return true; });
    R({"vp_end"}, H { endPath("end", ""); return true; });
    R({"vp_is_symbolic_run"}, H { r = Val::I(1, 32); return true; });
    R({"vp_is_concrete", "vp_is_concrete_int"}, H { r = Val::I(a[0].k != Val::SYM, 32); return true; });
    R({"vp_print"}, H { std::string s = cstr(S, concretize(S, a[0])); std::cerr << "PRINT " << s << " = " << (a[1].k == Val::SYM ? a[1].s->e.to_string() : std::to_string(fltOf(a[1]))) << "\n"; return true; });
    R({"vp_print_i"}, H { std::string s = cstr(S, concretize(S, a[0])); std::cerr << "PRINT " << s << " = " << (a[1].k == Val::SYM ? a[1].s->e.to_string() : std::to_string((long)a[1].i)) << "\n"; return true; });
    R({"vp_fork_real"}, H { r = a[0]; return true; });
    R({"vp_finite"}, H { if (a[0].k != Val::SYM) { r = Val::I(std::isfinite(fltOf(a[0])), 32); return true; } if (isR()) { r = Val::I(1, 32); return true; } E x = fpE(a[0], 64); r = mkBV(z3::ite(E(C, Z3_mk_fpa_is_nan(C, x)) || E(C, Z3_mk_fpa_is_infinite(C, x)), C.bv_val(0, 32), C.bv_val(1, 32)), 32); return true; });
    // RNG of the renderer: arbitrary value of its documented range
    R({"_ZN2lm6detail11RngImplBase1uEv"}, H { if (isR()) { r = newInput(S, "rng", C.real_sort(), 64); addPC(S, r.s->e >= C.real_val(0) && r.s->e < C.real_val(1)); } else { r = newInput(S, "rng", fpS(64), 64); addPC(S, E(C, Z3_mk_fpa_geq(C, r.s->e, C.fpa_val(0.0))) && E(C, Z3_mk_fpa_lt(C, r.s->e, C.fpa_val(1.0)))); } return true; }, true);
    R({"_ZN2lm6detail11RngImplBaseC2Ev", "_ZN2lm6detail11RngImplBaseC2Ei"}, nop, true);
    R({"_ZN2lm6detail11RngImplBase5u_intEv"}, H { r = newInput(S, "rngi", C.bv_sort(32), 32); addPC(S, r.s->e >= C.bv_val(0, 32)); return true; }, true);
    // allocation
    R({"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t"}, H { u64 n = concretize(S, a[0]); if (n > (1ull << 32)) { endPath("alloc-failure", "huge allocation " + std::to_string(n)); } r = Val::P(allocObj(S, n, 0)); return true; });
    R({"aligned_alloc"}, H { r = Val::P(allocObj(S, concretize(S, a[1]), 0)); return true; });
    R({"calloc"}, H { r = Val::P(allocObj(S, concretize(S, a[0]) * concretize(S, a[1]), 0, "", 0)); return true; });
    R({"realloc"}, H { u64 p = concretize(S, a[0]), n = concretize(S, a[1]); u64 q = allocObj(S, n, 0); if (p) { Obj* o = objAt(S, p, 0, false, "realloc"); copyMem(S, q, p, std::min<u64>(o->size, n)); freeObj(S, p, "realloc"); } r = Val::P(q); return true; });
    R({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}, H { freeObj(S, concretize(S, a[0]), "free"); return true; });
    // memory / strings
    auto mcpy = H { u64 n = concretize(S, a[2]); if (n) copyMem(S, resolveAddr(S, a[0], n, "memcpy"), resolveAddr(S, a[1], n, "memcpy"), n); r = a[0]; return true; };
    R({"memcpy", "memmove", "llvm.memcpy", "llvm.memmove"}, mcpy);
    R({"memset", "llvm.memset"}, H { u64 n = concretize(S, a[2]); if (!n) { r = a[0]; return true; } u64 p = resolveAddr(S, a[0], n, "memset"); Obj* o = objAt(S, p, n, true, "memset"); clearRange(o, p & 0xffffff, n); if (a[1].k == Val::SYM) { for (u64 i = 0; i < n; i++) o->cells[(p & 0xffffff) + i] = Cell{Val::S(bvE(a[1], 8), 8), 1}; } else memset(o->b.data() + (p & 0xffffff), (int)a[1].i & 255, n); r = a[0]; return true; });
    R({"memcmp", "bcmp"}, H { u64 p = concretize(S, a[0]), q = concretize(S, a[1]), n = concretize(S, a[2]); for (u64 i = 0; i < n; i++) { Val x = loadByte(S, p + i), y = loadByte(S, q + i); if (x.k != Val::SYM && y.k != Val::SYM) { if (x.i != y.i) { r = Val::I(x.i < y.i ? -1 : 1, 32); return true; } continue; } if (!symEqByte(S, x, y)) { r = Val::I(decide(S, z3::ult(bvE(x, 8), bvE(y, 8))) ? -1 : 1, 32); return true; } } r = Val::I(0, 32); return true; });
    R({"memchr"}, H { u64 p = concretize(S, a[0]), n = concretize(S, a[2]); Val c = a[1].k == Val::SYM ? mkBV(bvE(a[1], 32).extract(7, 0), 8) : Val::I(a[1].i, 8); for (u64 i = 0; i < n; i++) if (symEqByte(S, loadByte(S, p + i), c)) { r = Val::P(p + i); return true; } r = Val::P(0); return true; });
    R({"strlen"}, H { u64 p = concretize(S, a[0]); u64 i = 0; for (;; i++) if (symEqByte(S, loadByte(S, p + i), Val::I(0, 8))) break; r = Val::I(i, 64); return true; });
    auto scmp = [](State& S, u64 p, u64 q, u64 n, Val& r) { for (u64 i = 0; i < n; i++) { Val x = loadByte(S, p + i), y = loadByte(S, q + i); if (!symEqByte(S, x, y)) { if (x.k != Val::SYM && y.k != Val::SYM) r = Val::I(x.i < y.i ? -1 : 1, 32); else r = Val::I(decide(S, z3::ult(bvE(x, 8), bvE(y, 8))) ? -1 : 1, 32); return; } if (symEqByte(S, x, Val::I(0, 8))) break; } r = Val::I(0, 32); };
    R({"strcmp"}, [scmp](State& S, const DInst& d, std::vector<Val>& a, Val& r) { scmp(S, concretize(S, a[0]), concretize(S, a[1]), 1 << 20, r); return true; });
    R({"strncmp"}, [scmp](State& S, const DInst& d, std::vector<Val>& a, Val& r) { scmp(S, concretize(S, a[0]), concretize(S, a[1]), concretize(S, a[2]), r); return true; });
    R({"strcpy"}, H { u64 p = concretize(S, a[0]), q = concretize(S, a[1]); for (u64 i = 0;; i++) { Val x = loadByte(S, q + i); storeT(S, p + i, x, Type::getInt8Ty(LC)); if (symEqByte(S, x, Val::I(0, 8))) break; } r = a[0]; return true; });
    R({"strchr"}, H { u64 p = concretize(S, a[0]); Val c = a[1].k == Val::SYM ? mkBV(bvE(a[1], 32).extract(7, 0), 8) : Val::I(a[1].i, 8); for (u64 i = 0;; i++) { Val x = loadByte(S, p + i); if (symEqByte(S, x, c)) { r = Val::P(p + i); return true; } if (symEqByte(S, x, Val::I(0, 8))) break; } r = Val::P(0); return true; });
    auto span = [](State& S, u64 p, u64 q, bool want) -> u64 { std::string set = cstr(S, q); for (u64 i = 0;; i++) { Val x = loadByte(S, p + i); if (symEqByte(S, x, Val::I(0, 8))) return i; bool in; if (x.k != Val::SYM) in = set.find((char)x.i) != std::string::npos; else { E e = C.bool_val(false); for (char c : set) e = e || x.s->e == C.bv_val((unsigned)(u8)c, 8); in = decide(S, e); } if (in != want) return i; } };
    R({"strspn"}, [span](State& S, const DInst& d, std::vector<Val>& a, Val& r) { r = Val::I(span(S, concretize(S, a[0]), concretize(S, a[1]), true), 64); return true; });
    R({"strcspn"}, [span](State& S, const DInst& d, std::vector<Val>& a, Val& r) { r = Val::I(span(S, concretize(S, a[0]), concretize(S, a[1]), false), 64); return true; });
    // math
    for (const char* n : {"sqrt", "sin", "cos", "tan", "exp", "log", "acos", "asin", "atan", "fabs", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "log2", "log10", "exp2", "cbrt"}) {
        std::string s = n; int i = ext.size(); ext.push_back([s](State& S, const DInst& d, std::vector<Val>& a, Val& r) { r = fn1(S, s, a[0], d.ty->getScalarType()->isFloatTy() ? 32 : 64); return true; });
        extIdx[s] = i; extIdx[s + "f"] = i; extIdx[s + "l"] = i; extIdx["llvm." + s] = i;
    }
    for (const char* n : {"pow", "atan2", "fmod", "fmin", "fmax", "copysign", "hypot", "nextafter"}) {
        std::string s = n; int i = ext.size(); ext.push_back([s](State& S, const DInst& d, std::vector<Val>& a, Val& r) { r = fn2(S, s, a[0], a[1], d.ty->getScalarType()->isFloatTy() ? 32 : 64); return true; });
        extIdx[s] = i; extIdx[s + "f"] = i; extIdx["llvm." + s] = i;
    }
    extIdx["llvm.minnum"] = extIdx["fmin"]; extIdx["llvm.maxnum"] = extIdx["fmax"];
    R({"llvm.fma", "llvm.fmuladd", "fma"}, H { int fw = d.ty->getScalarType()->isFloatTy() ? 32 : 64; if (a[0].k == Val::FLT && a[1].k == Val::FLT && a[2].k == Val::FLT) { r = Val::F(a[0].d * a[1].d + a[2].d, fw); return true; } r = fpBin(S, Instruction::FAdd, fpBin(S, Instruction::FMul, a[0], a[1], fw), a[2], fw); return true; });
    R({"llvm.powi"}, H { int k = (int)sx(concretize(S, a[1]), 32); r = fn2(S, "pow", a[0], Val::F(k, 64), 64); return true; });
    R({"sincos"}, H { Type* D = Type::getDoubleTy(LC); Val s = fn1(S, "sin", a[0], 64), c = fn1(S, "cos", a[0], 64); storeT(S, concretize(S, a[1]), s, D); storeT(S, concretize(S, a[2]), c, D); return true; });
    R({"llvm.is.fpclass"}, H { unsigned m = a[1].i; if (a[0].k != Val::SYM) { double x = fltOf(a[0]); bool b = false; if (std::isnan(x)) b = m & 3; else if (std::isinf(x)) b = x < 0 ? m & 4 : m & 512; else if (x == 0) b = std::signbit(x) ? m & 32 : m & 64; else b = x < 0 ? m & 8 : m & 256; r = Val::I(b, 1); return true; }
        if (isR()) { if ((m & 0x1f8) == 0x1f8) r = Val::I(1, 1); else if (!(m & 0x1f8)) r = Val::I(0, 1); else endPath("unsupported", "fpclass"); return true; }
        int fw = a[0].s->e.get_sort().fpa_ebits() == 8 ? 32 : 64; E x = fpE(a[0], fw); E e = C.bool_val(false); E neg(C, Z3_mk_fpa_is_negative(C, x)), nan(C, Z3_mk_fpa_is_nan(C, x)), inf(C, Z3_mk_fpa_is_infinite(C, x)), zero(C, Z3_mk_fpa_is_zero(C, x)), sub(C, Z3_mk_fpa_is_subnormal(C, x)), nrm(C, Z3_mk_fpa_is_normal(C, x));
        if (m & 3) e = e || nan; if (m & 4) e = e || (inf && neg); if (m & 8) e = e || (nrm && neg); if (m & 16) e = e || (sub && neg); if (m & 32) e = e || (zero && neg); if (m & 64) e = e || (zero && !neg); if (m & 128) e = e || (sub && !neg); if (m & 256) e = e || (nrm && !neg); if (m & 512) e = e || (inf && !neg); r = mkBool(e); return true; });
    // integer intrinsics
    auto W = [](const DInst& d) { return d.ty->isIntegerTy() ? d.ty->getIntegerBitWidth() : 64u; };
    auto mm = [W](unsigned pred) { return [W, pred](State& S, const DInst& d, std::vector<Val>& a, Val& r) { Val c = icmp(S, pred, a[0], a[1], W(d)); r = selectV(S, c, a[0], a[1], d.ty); return true; }; };
    R({"llvm.smax"}, mm(CmpInst::ICMP_SGT)); R({"llvm.smin"}, mm(CmpInst::ICMP_SLT)); R({"llvm.umax"}, mm(CmpInst::ICMP_UGT)); R({"llvm.umin"}, mm(CmpInst::ICMP_ULT));
    R({"llvm.abs"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { unsigned w = W(d); Val c = icmp(S, CmpInst::ICMP_SLT, a[0], Val::I(0, w), w); r = selectV(S, c, intBin(S, Instruction::Sub, Val::I(0, w), a[0], w), a[0], d.ty); return true; });
    R({"abs"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { unsigned w = W(d); Val c = icmp(S, CmpInst::ICMP_SLT, a[0], Val::I(0, w), w); r = selectV(S, c, intBin(S, Instruction::Sub, Val::I(0, w), a[0], w), a[0], d.ty); return true; });
    R({"llvm.usub.sat"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { unsigned w = W(d); Val c = icmp(S, CmpInst::ICMP_ULT, a[0], a[1], w); r = selectV(S, c, Val::I(0, w), intBin(S, Instruction::Sub, a[0], a[1], w), d.ty); return true; });
    R({"llvm.ctpop"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { r = Val::I(__builtin_popcountll(concretize(S, a[0])), W(d)); return true; });
    R({"llvm.ctlz"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { u64 x = concretize(S, a[0]); unsigned w = W(d); r = Val::I(x ? __builtin_clzll(x) - (64 - w) : w, w); return true; });
    R({"llvm.cttz"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { u64 x = concretize(S, a[0]); unsigned w = W(d); r = Val::I(x ? __builtin_ctzll(x) : w, w); return true; });
    R({"llvm.bswap"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { unsigned w = W(d); if (a[0].k != Val::SYM) { u64 x = __builtin_bswap64(a[0].i) >> (64 - w); r = Val::I(x, w); return true; } E x = bvE(a[0], w); E y = x.extract(7, 0); for (unsigned i = 1; i < w / 8; i++) y = z3::concat(y, x.extract(8 * i + 7, 8 * i)); r = mkBV(y, w); return true; });
    R({"llvm.fshl", "llvm.fshr"}, [W](State& S, const DInst& d, std::vector<Val>& a, Val& r) { unsigned w = W(d); bool l = d.callee->getName().starts_with("llvm.fshl"); u64 s = concretize(S, a[2]) % w; if (s == 0) { r = l ? a[0] : a[1]; return true; } u64 sl = l ? s : w - s; r = intBin(S, Instruction::Or, intBin(S, Instruction::Shl, a[0], Val::I(sl, w), w), intBin(S, Instruction::LShr, a[1], Val::I(w - sl, w), w), w); return true; });
    auto ovf = [](int kind) { return [kind](State& S, const DInst& d, std::vector<Val>& a, Val& r) {
        unsigned w = cast<StructType>(d.ty)->getElementType(0)->getIntegerBitWidth();
        if (a[0].k != Val::SYM && a[1].k != Val::SYM) {
            bool sgn = kind >= 3; __int128 x = sgn ? (__int128)sx(a[0].i, w) : (__int128)a[0].i, y = sgn ? (__int128)sx(a[1].i, w) : (__int128)a[1].i; int k = kind % 3; bool o; u64 res;
            if (k == 2 && !sgn) { u128 z = (u128)x * (u128)y; res = (u64)z; o = w >= 64 ? (z >> 64) != 0 : (z >> w) != 0; }
            else { __int128 z = k == 0 ? x + y : k == 1 ? x - y : x * y; res = (u64)z; if (sgn) o = z != (__int128)sx((u64)z, w); else o = z < 0 || z > (__int128)(w >= 64 ? ~0ull : ((1ull << w) - 1)); }
            r = Val::A({Val::I(res, w), Val::I(o, 1)}); return true; }
        E x = bvE(a[0], w), y = bvE(a[1], w); bool sgn = kind >= 3; int k = kind % 3; unsigned W2 = k == 2 ? 2 * w : w + 2;
        E X = sgn ? z3::sext(x, W2 - w) : z3::zext(x, W2 - w), Y = sgn ? z3::sext(y, W2 - w) : z3::zext(y, W2 - w); E Z = k == 0 ? X + Y : k == 1 ? X - Y : X * Y; E lo = Z.extract(w - 1, 0); E back = sgn ? z3::sext(lo, W2 - w) : z3::zext(lo, W2 - w);
        r = Val::A({mkBV(lo, w), mkBV(Z != back, 1)}); return true; }; };
    R({"llvm.uadd.with.overflow"}, ovf(0)); R({"llvm.usub.with.overflow"}, ovf(1)); R({"llvm.umul.with.overflow"}, ovf(2)); R({"llvm.sadd.with.overflow"}, ovf(3)); R({"llvm.ssub.with.overflow"}, ovf(4)); R({"llvm.smul.with.overflow"}, ovf(5));
    R({"llvm.lifetime.start", "llvm.lifetime.end", "llvm.assume", "llvm.dbg.value", "llvm.dbg.declare", "llvm.experimental.noalias.scope.decl", "llvm.donothing", "llvm.var.annotation", "llvm.invariant.start", "llvm.invariant.end", "llvm.stackrestore", "llvm.prefetch"}, nop);
    R({"llvm.expect", "llvm.launder.invariant.group", "llvm.strip.invariant.group", "llvm.ptr.annotation"}, H { r = a[0]; return true; });
    R({"llvm.stacksave"}, nop); R({"llvm.is.constant"}, H { r = Val::I(0, 1); return true; }); R({"llvm.objectsize"}, H { r = Val::I(~0ull, 64); return true; });
    R({"llvm.eh.typeid.for"}, H { r = Val::I(typeIdFor(concretize(S, a[0])), 32); return true; });
    R({"llvm.trap", "abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__assert_fail", "exit", "_exit", "__stack_chk_fail", "__cxa_call_terminate", "__cxa_bad_cast", "__cxa_throw_bad_array_new_length"}, H { std::string n = d.callee->getName().str(); labels["abnormal-termination"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r != -1) recordViolation(S, "abnormal-termination", n + where(S), c.m, true); endPath("abort", n); return true; });
    // C++ runtime
    R({"__cxa_atexit", "__cxa_thread_atexit", "__cxa_guard_release", "__cxa_guard_abort", "_ZSt21ios_base_library_initv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}, nop);
    R({"__cxa_guard_acquire"}, H { u64 p = concretize(S, a[0]); struct NR { State& S; bool o; NR(State& s) : S(s), o(s.norace) { s.norace = true; } ~NR() { S.norace = o; } } nr(S); hbAcquire(S, p); hbRelease(S, p); Type* T = Type::getInt8Ty(LC); u64 x = concretize(S, loadT(S, p, T)); if (x) { r = Val::I(0, 32); } else { storeT(S, p, Val::I(1, 8), T); r = Val::I(1, 32); } return true; });
    R({"__cxa_allocate_exception"}, H { r = Val::P(allocObj(S, concretize(S, a[0]) + 16, 0)); return true; });
    R({"__cxa_free_exception"}, nop);
    R({"__cxa_throw"}, H { S.cur = Exc{concretize(S, a[0]), concretize(S, a[1])}; unwind(S); return false; });
    R({"__cxa_rethrow"}, H { if (S.caught.empty()) endPath("abort", "rethrow without exception"); S.cur = S.caught.back(); unwind(S); return false; });
    R({"__cxa_begin_catch"}, H { u64 p = concretize(S, a[0]); Exc e = S.cur; e.ptr = p; S.caught.push_back(e); int off = S.misc.count(p) ? S.misc[p] : 0; r = Val::P(p + off); return true; });
    R({"__cxa_end_catch"}, H { if (!S.caught.empty()) S.caught.pop_back(); return true; });
    R({"__cxa_get_exception_ptr"}, H { r = a[0]; return true; });
    R({"_ZSt17current_exceptionv"}, H { u64 p = S.caught.empty() ? 0 : S.caught.back().ptr; if (p) { S.misc[p ^ (1ull << 60)] = 0; S.named["excti:" + std::to_string(p)] = Val::P(S.caught.back().ti); } storeT(S, concretize(S, a[0]), Val::P(p), PointerType::get(LC, 0)); return true; });
    R({"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"}, H { u64 p = loadPtr(S, concretize(S, a[0])); S.cur = Exc{p, S.named["excti:" + std::to_string(p)].i}; unwind(S); return false; });
    R({"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"}, nop);
    R({"_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_"}, H { copyMem(S, concretize(S, a[0]), concretize(S, a[1]), 8); return true; });
    R({"_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev"}, nop);
    R({"_ZNSt15__exception_ptr13exception_ptr4swapERS0_"}, H { u64 p = concretize(S, a[0]), q = concretize(S, a[1]); u64 x = loadPtr(S, p), y = loadPtr(S, q); Type* T = PointerType::get(LC, 0); storeT(S, p, Val::P(y), T); storeT(S, q, Val::P(x), T); return true; });
    R({"__dynamic_cast"}, H { u64 p = concretize(S, a[0]); if (!p) { r = Val::P(0); return true; } u64 vp = loadPtr(S, p); int64_t top = (int64_t)loadPtr(S, vp - 16); u64 ti = loadPtr(S, vp - 8); int64_t off = findBase(S, ti, concretize(S, a[2])); r = off < 0 ? Val::P(0) : Val::P(p + top + off); return true; });
    R({"_ZNKSt9type_info7__equalERKS_", "_ZNKSt9type_infoeqERKS_"}, H { u64 p = concretize(S, a[0]), q = concretize(S, a[1]); bool eq = p == q || cstr(S, loadPtr(S, p + 8)) == cstr(S, loadPtr(S, q + 8)); r = Val::I(eq, 1); return true; });
    // threads (only reached from code instrumented by --instrument and rt/thr.cpp)
    R({"vp_sched"}, H { S.preempt = concretize(S, a[0]); return true; });
    R({"vp_tid"}, H { r = Val::I(S.ct, 32); return true; });
    R({"vp_point"}, H { return thrPoint(S); });
    R({"vp_spawn"}, H { thrInit(S); if (S.thr.size() >= 16) endPath("bound", "thread bound"); u64 fp = concretize(S, a[0]); Obj* o = S.mem.get(fp >> 24); if (!o || !o->fn) memErr(S, "thread start through invalid function pointer", fp); const Function* F = o->fn; Val arg = a[1]; int slot = (int)sx(concretize(S, a[2]), 32);
        int t = S.thr.size(); Thr n; n.slot = slot ? slot : 100000 + t; n.vc = S.thr[S.ct].vc; n.vc.resize(t + 1, 0); n.vc[t] = 1; { auto& v = S.thr[S.ct].vc; if ((int)v.size() <= S.ct) v.resize(S.ct + 1, 0); v[S.ct]++; }
        std::vector<Frame> keep; keep.swap(S.fr); pushCall(S, F, {arg}); n.fr.swap(S.fr); S.fr.swap(keep); S.thr.push_back(std::move(n)); r = Val::I(t, 32); return true; });
    R({"vp_join"}, H { int t = (int)concretize(S, a[0]); if (t <= 0 || t >= (int)S.thr.size()) memErr(S, "join of a thread that is not joinable", t); Thr& me = S.thr[S.ct]; me.go = false; if (S.thr[t].st == Thr::DONE) { me.st = Thr::RUN; vcMerge(me.vc, S.thr[t].vc); return true; } thrBlock(S, Thr::JOIN, t); return false; });
    R({"vp_lock"}, H { u64 m = concretize(S, a[0]); if (S.thr.size() < 2) { S.mtx[m] = 1; return true; } Thr* me = &S.thr[S.ct]; if (me->st == Thr::RUN && !thrPoint(S)) return false; me = &S.thr[S.ct]; if (S.mtx.count(m)) { thrBlock(S, Thr::LOCK, m); return false; } me->st = Thr::RUN; me->go = false; S.mtx[m] = S.ct + 1; hbAcquire(S, m); return true; });
    R({"vp_trylock"}, H { u64 m = concretize(S, a[0]); if (!thrPoint(S)) return false; if (S.mtx.count(m)) { r = Val::I(0, 32); return true; } S.mtx[m] = S.ct + 1; hbAcquire(S, m); r = Val::I(1, 32); return true; });
    R({"vp_unlock"}, H { u64 m = concretize(S, a[0]); auto it = S.mtx.find(m); if (it == S.mtx.end()) { labels["mutex-misuse"].viol++; auto c = check(S.pc, {}, O.assertMs, true); recordViolation(S, "mutex-misuse", "unlock of a mutex that is not held" + where(S), c.m, true); endPath("assert-failed", "unlock"); } S.mtx.erase(it); hbRelease(S, m); return true; });
    R({"vp_cv_wait"}, H { u64 cv = concretize(S, a[0]), m = concretize(S, a[1]); thrInit(S); Thr& me = S.thr[S.ct];
        if (me.st == Thr::RUN) { if (S.mtx.count(m)) { S.mtx.erase(m); hbRelease(S, m); } me.st = Thr::CV; me.cv = cv; me.on = m; me.phase = 1; }
        if (me.st == Thr::CV) { int t = thrChoose(S); thrSwitch(S, t); if (S.thr[t].st != Thr::RUN) S.thr[t].go = true; return false; }
        me.go = false; if (S.mtx.count(m)) { thrBlock(S, Thr::LOCK, m); return false; } me.st = Thr::RUN; me.phase = 0; S.mtx[m] = S.ct + 1; hbAcquire(S, m); return true; });
    R({"vp_cv_notify"}, H { u64 cv = concretize(S, a[0]); bool all = concretize(S, a[1]); std::vector<int> w; for (int t = 0; t < (int)S.thr.size(); t++) if (S.thr[t].st == Thr::CV && S.thr[t].cv == cv) w.push_back(t); if (w.empty()) return true; if (!all && w.size() > 1) { int k = choiceOf(S, "wake", w.size()); w = {w[k]}; } for (int t : w) S.thr[t].st = Thr::LOCK; return true; });
    R({"vp_internal"}, H { S.norace = concretize(S, a[0]); return true; });
    R({"vp_hb"}, H { u64 p = concretize(S, a[0]); int k = concretize(S, a[1]); if (k & 1) hbAcquire(S, p); if (k & 2) hbRelease(S, p); return true; });
    R({"vp_atomic_mem"}, H { S.atomicAcc = concretize(S, a[0]); return true; });
    R({"vp_bits_eq"}, H { u64 p = concretize(S, a[0]), q = concretize(S, a[1]), n = concretize(S, a[2]); bool eq = true; for (u64 i = 0; i < n && eq; i += 8) { u64 k = std::min<u64>(8, n - i); Type* T = Type::getIntNTy(LC, 8 * k); Val x = loadT(S, p + i, T), y = loadT(S, q + i, T);
            auto isRl = [](const Val& v) { return v.k == Val::SYM && v.s->isReal; };
            if (isRl(x) || isRl(y)) { auto fr = [&](const Val& v, u64 ad) { return isRl(v) ? v : loadT(S, ad, Type::getDoubleTy(LC)); }; eq = decide(S, rE(fr(x, p + i)) == rE(fr(y, q + i))); }
            else { Val c = icmp(S, CmpInst::ICMP_EQ, x, y, 8 * k); eq = c.k == Val::SYM ? decide(S, boolE(c)) : (c.i & 1); } } r = Val::I(eq, 32); return true; });
    R({"llvm.threadlocal.address"}, H { u64 p = concretize(S, a[0]); int slot = S.thr.empty() ? 0 : S.thr[S.ct].slot; if (!slot) { r = a[0]; return true; } auto key = std::make_pair(slot, p); auto it = S.tls.find(key); if (it != S.tls.end()) { r = Val::P(it->second); return true; }
        const GlobalVariable* G = nullptr; for (auto& [g, x] : gaddr) if (x == p) G = dyn_cast<GlobalVariable>(g); if (!G) endPath("unsupported", "thread-local address"); u64 n = allocObj(S, DL->getTypeAllocSize(G->getValueType()), 2, "tls", 0); if (G->hasInitializer()) { bool nr = S.norace; S.norace = true; initMem(S, n, G->getInitializer()); S.norace = nr; } S.tls[key] = n; r = Val::P(n); return true; });
    // locks of code that is not instrumented: sequential semantics
    R({"pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock", "pthread_self", "pthread_once", "pthread_rwlock_wrlock", "pthread_rwlock_unlock", "sched_yield"}, H { r = Val::I(0, 32); return true; });
    R({"_ZN2lm3log18update_indentationEi", "_ZN2lm3log3logENS0_8LogLevelEiPKciS3_", "_ZN2lm9exception12enable_fpexEv", "_ZN2lm9exception12disable_fpexEv", "_ZN2lm8progress5startENS0_12ProgressModeExd", "_ZN2lm8progress3endEv", "_ZN2lm8progress6updateEx", "_ZN2lm8progress11update_timeEd"}, nop);
    R({"strtol", "__isoc23_strtol", "strtoll", "strtoul", "__isoc23_strtoul", "__isoc23_strtoll"}, H { std::string s = cstr(S, concretize(S, a[0])); char* e; long v = strtol(s.c_str(), &e, concretize(S, a[2])); u64 ep = concretize(S, a[1]); if (ep) storeT(S, ep, Val::P(concretize(S, a[0]) + (e - s.c_str())), PointerType::get(LC, 0)); r = Val::I((u64)v, 64); return true; });
    R({"atoi"}, H { u64 p = concretize(S, a[0]); // symbolic-friendly
        u64 i = 0; auto dig = [&](const Val& x) { if (x.k != Val::SYM) return x.i >= '0' && x.i <= '9'; return decide(S, z3::uge(x.s->e, C.bv_val('0', 8)) && z3::ule(x.s->e, C.bv_val('9', 8))); };
        auto isSp = [&](const Val& x) { if (x.k != Val::SYM) return x.i == ' ' || (x.i >= 9 && x.i <= 13); return decide(S, x.s->e == C.bv_val(' ', 8) || (z3::uge(x.s->e, C.bv_val(9, 8)) && z3::ule(x.s->e, C.bv_val(13, 8)))); };
        while (isSp(loadByte(S, p + i))) i++; bool neg = false; Val c = loadByte(S, p + i); if (symEqByte(S, c, Val::I('-', 8))) { neg = true; i++; } else if (symEqByte(S, c, Val::I('+', 8))) i++;
        Val acc = Val::I(0, 32); for (int n = 0; n < 12; n++) { Val x = loadByte(S, p + i); if (!dig(x)) break; Val z = x.k == Val::SYM ? Val::S(z3::zext(x.s->e, 24), 32) : Val::I(x.i, 32); acc = intBin(S, Instruction::Add, intBin(S, Instruction::Mul, acc, Val::I(10, 32), 32), intBin(S, Instruction::Sub, z, Val::I('0', 32), 32), 32); i++; }
        r = neg ? intBin(S, Instruction::Sub, Val::I(0, 32), acc, 32) : acc; return true; });
    R({"strtod"}, H { std::string s = cstr(S, concretize(S, a[0])); char* e; double v = strtod(s.c_str(), &e); u64 ep = concretize(S, a[1]); if (ep) storeT(S, ep, Val::P(concretize(S, a[0]) + (e - s.c_str())), PointerType::get(LC, 0)); r = Val::F(v, 64); return true; });
    R({"atof"}, H { // decimal digits concretised when symbolic: value left unconstrained
        u64 p = concretize(S, a[0]); bool sy = false; for (int i = 0; i < 64; i++) { Val x = loadByte(S, p + i); if (x.k == Val::SYM) { sy = true; break; } if (!x.i) break; } if (!sy) { r = Val::F(atof(cstr(S, p).c_str()), 64); return true; }
        if (isR()) r = Val::S(C.real_const(("atof!" + std::to_string(fnCount["atof"]++)).c_str()), 64); else r = Val::S(C.constant(("atof!" + std::to_string(fnCount["atof"]++)).c_str(), fpS(64)), 64); return true; });
    R({"__errno_location"}, H { static u64 e = 0; if (!S.named.count("errno")) S.named["errno"] = Val::P(allocObj(S, 8, 2, "errno", 0)); r = S.named["errno"]; return true; });
    // model-level hooks for harness-defined clocks etc. are ordinary functions in the harness
}
static int findExt(const std::string& n0) {
    auto it = extIdx.find(n0); if (it != extIdx.end()) return it->second;
    if (n0.rfind("llvm.", 0) == 0) { std::string n = n0; while (true) { size_t p = n.rfind('.'); if (p == std::string::npos || p <= 4) break; n = n.substr(0, p); auto j = extIdx.find(n); if (j != extIdx.end()) return j->second; } }
    return -1;
}
