// ------------------------------------------------------------------ instruction semantics
static long divAssume = 0, concretizedReal = 0;
static void requireNonZero(State& S, const E& b, const char* what) {
    E z = normCond(b == C.real_val(0)); int kn = knownCond(S, z); if (kn == 0) return;
    if (kn == 1) {
        if (S.divcheck) { labels["division-by-zero"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r != -1) recordViolation(S, "division-by-zero", what + where(S), c.m, true); }
        endPath("nonfinite", "division by zero");
    }
    if (S.divcheck) { doAssert(S, "division-by-zero", b != C.real_val(0), {}, std::string(what) + where(S)); return; }
    int r = condBySign(S, z) == 0 ? -1 : 0;
    if (!r) { refreshPool(S); bool w = false; if (pureReal(mk(z))) { int i = compileN(z); for (auto& p : S.pool) if (p.first->ne.ev(i).first == 0) { w = true; break; } } r = check(S.pc, {z}, w ? std::min(O.branchMs, 250) : O.branchMs).r; }
    if (r != -1) divAssume++;
    addPC(S, b != C.real_val(0));
}
static Val fpBin(State& S, unsigned op, const Val& a, const Val& b, int fw) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(fpBin(S, op, a.a->v[i], b.a->v[i], fw)); return Val::A(v); }
    if (a.k != Val::SYM && b.k != Val::SYM) {
        double x = fltOf(a), y = fltOf(b), r = 0;
        if (fw == 32) { float p = x, q = y, z = 0; switch (op) { case Instruction::FAdd: z = p + q; break; case Instruction::FSub: z = p - q; break; case Instruction::FMul: z = p * q; break; case Instruction::FDiv: z = p / q; break; case Instruction::FRem: z = fmodf(p, q); break; } return Val::F(z, 32); }
        switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; }
        if (S.divcheck && op == Instruction::FDiv && y == 0) { labels["division-by-zero"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r != -1) recordViolation(S, "division-by-zero", "concrete" + where(S), c.m, true); }
        return Val::F(r, fw);
    }
    if (isR()) {
        double ca = a.k == Val::SYM ? NAN : fltOf(a), cb = b.k == Val::SYM ? NAN : fltOf(b);
        switch (op) {
        case Instruction::FAdd: if (ca == 0) return b; if (cb == 0) return a; return mkR(rE(a) + rE(b), fw);
        case Instruction::FSub: if (cb == 0) return a; return mkR(rE(a) - rE(b), fw);
        case Instruction::FMul: if (ca == 0 || cb == 0) return Val::F(0, fw); if (ca == 1) return b; if (cb == 1) return a; return mkR(rE(a) * rE(b), fw);
        case Instruction::FDiv: {
            if (cb == 1) return a;
            if (b.k != Val::SYM && std::isinf(cb)) return Val::F(0, fw);
            E eb = rE(b); requireNonZero(S, eb, "division");
            if (ca == 0) return Val::F(0, fw);
            return mkR(rE(a) / eb, fw); }
        default: endPath("unsupported", "frem real");
        }
    }
    E x = fpE(a, fw), y = fpE(b, fw);
    if (op == Instruction::FSub && b.k != Val::SYM && fltOf(b) == 0 && !std::signbit(fltOf(b))) return a;
    if (op == Instruction::FMul && (a.k != Val::SYM || b.k != Val::SYM)) { // products with 1 and infinity need no multiplier circuit
        double c = fltOf(a.k != Val::SYM ? a : b); E z = a.k != Val::SYM ? y : x; if (c == 1) return mkF(z, fw); if (c == -1) return mkF(E(C, Z3_mk_fpa_neg(C, z)), fw);
        if (std::isinf(c)) { E pi = fw == 32 ? C.fpa_val((float)INFINITY) : C.fpa_val((double)INFINITY), ni = fw == 32 ? C.fpa_val(-(float)INFINITY) : C.fpa_val(-(double)INFINITY), nan = E(C, Z3_mk_fpa_nan(C, z.get_sort())); E neg = E(C, Z3_mk_fpa_is_negative(C, z)); return mkF(z3::ite(E(C, Z3_mk_fpa_is_zero(C, z)) || E(C, Z3_mk_fpa_is_nan(C, z)), nan, c > 0 ? z3::ite(neg, ni, pi) : z3::ite(neg, pi, ni)), fw); } }
    switch (op) { case Instruction::FAdd: return mkF(x + y, fw); case Instruction::FSub: return mkF(x - y, fw); case Instruction::FMul: return mkF(x * y, fw); case Instruction::FDiv: return mkF(x / y, fw); }
    endPath("unsupported", "frem fp");
}
static Val fneg(State& S, const Val& a, int fw) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (auto& x : a.a->v) v.push_back(fneg(S, x, fw)); return Val::A(v); }
    if (a.k != Val::SYM) return Val::F(-fltOf(a), fw);
    if (isR()) return mkR(-rE(a), fw); return mkF(-fpE(a, fw), fw);
}
static Val fcmp(State& S, unsigned pred, const Val& a, const Val& b, int fw) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(fcmp(S, pred, a.a->v[i], b.a->v[i], fw)); return Val::A(v); }
    if (pred == CmpInst::FCMP_TRUE) return Val::I(1, 1); if (pred == CmpInst::FCMP_FALSE) return Val::I(0, 1);
    auto conc = [&](double x, double y) -> bool {
        bool u = std::isnan(x) || std::isnan(y);
        switch (pred) { case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_UEQ: return u || x == y; case CmpInst::FCMP_ONE: return !u && x != y; case CmpInst::FCMP_UNE: return x != y; case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_ULT: return u || x < y; case CmpInst::FCMP_OLE: return x <= y; case CmpInst::FCMP_ULE: return u || x <= y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_UGT: return u || x > y; case CmpInst::FCMP_OGE: return x >= y; case CmpInst::FCMP_UGE: return u || x >= y; case CmpInst::FCMP_ORD: return !u; case CmpInst::FCMP_UNO: return u; } return false; };
    if (a.k != Val::SYM && b.k != Val::SYM) return Val::I(conc(fltOf(a), fltOf(b)), 1);
    if (isR()) {
        if (a.k != Val::SYM && !std::isfinite(fltOf(a))) return Val::I(conc(fltOf(a), 0), 1);
        if (b.k != Val::SYM && !std::isfinite(fltOf(b))) return Val::I(conc(0, fltOf(b)), 1);
        E x = rE(a), y = rE(b);
        switch (pred) { case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkBool(x == y); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return mkBool(x != y); case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkBool(x < y); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkBool(x <= y); case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkBool(x > y); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkBool(x >= y); case CmpInst::FCMP_ORD: return Val::I(1, 1); case CmpInst::FCMP_UNO: return Val::I(0, 1); }
    }
    E x = fpE(a, fw), y = fpE(b, fw);
    auto feq = [&] { return E(C, Z3_mk_fpa_eq(C, x, y)); }; auto flt = [&] { return E(C, Z3_mk_fpa_lt(C, x, y)); }; auto fle = [&] { return E(C, Z3_mk_fpa_leq(C, x, y)); }; auto fgt = [&] { return E(C, Z3_mk_fpa_gt(C, x, y)); }; auto fge = [&] { return E(C, Z3_mk_fpa_geq(C, x, y)); };
    E un = E(C, Z3_mk_fpa_is_nan(C, x)) || E(C, Z3_mk_fpa_is_nan(C, y));
    switch (pred) { case CmpInst::FCMP_OEQ: return mkBool(feq()); case CmpInst::FCMP_UEQ: return mkBool(un || feq()); case CmpInst::FCMP_ONE: return mkBool(!un && !feq()); case CmpInst::FCMP_UNE: return mkBool(!feq()); case CmpInst::FCMP_OLT: return mkBool(flt()); case CmpInst::FCMP_ULT: return mkBool(!fge()); case CmpInst::FCMP_OLE: return mkBool(fle()); case CmpInst::FCMP_ULE: return mkBool(!fgt()); case CmpInst::FCMP_OGT: return mkBool(fgt()); case CmpInst::FCMP_UGT: return mkBool(!fle()); case CmpInst::FCMP_OGE: return mkBool(fge()); case CmpInst::FCMP_UGE: return mkBool(!flt()); case CmpInst::FCMP_ORD: return mkBool(!un); case CmpInst::FCMP_UNO: return mkBool(un); }
    endPath("unsupported", "fcmp");
}
static int64_t sx(u64 x, unsigned w) { if (w >= 64) return (int64_t)x; return (int64_t)(x << (64 - w)) >> (64 - w); }
static Val intBin(State& S, unsigned op, const Val& a, const Val& b, unsigned w) {
    if (a.k == Val::AGG) { std::vector<Val> v; for (size_t i = 0; i < a.a->v.size(); i++) v.push_back(intBin(S, op, a.a->v[i], b.a->v[i], w)); return Val::A(v); }
    bool sy = a.k == Val::SYM || b.k == Val::SYM;
    if (!sy && w <= 64) {
        u64 x = a.k == Val::FLT ? concretize(S, a) : a.i, y = b.k == Val::FLT ? concretize(S, b) : b.i;
        switch (op) {
        case Instruction::Add: return Val::I(x + y, w); case Instruction::Sub: return Val::I(x - y, w); case Instruction::Mul: return Val::I(x * y, w);
        case Instruction::And: return Val::I(x & y, w); case Instruction::Or: return Val::I(x | y, w); case Instruction::Xor: return Val::I(x ^ y, w);
        case Instruction::Shl: return Val::I(y >= w ? 0 : x << y, w); case Instruction::LShr: return Val::I(y >= w ? 0 : x >> y, w); case Instruction::AShr: return Val::I((u64)(sx(x, w) >> (y >= w ? w - 1 : y)), w);
        case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
            if (y == 0) { labels["int-div-zero"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r != -1) recordViolation(S, "int-div-zero", where(S), c.m, true); endPath("int-div-zero", where(S)); }
            if (op == Instruction::UDiv) return Val::I(x / y, w); if (op == Instruction::URem) return Val::I(x % y, w);
            { int64_t p = sx(x, w), q = sx(y, w); if (q == -1) return Val::I(op == Instruction::SDiv ? (u64)(0 - (u64)p) : 0, w); return Val::I(op == Instruction::SDiv ? p / q : p % q, w); }
        }
    }
    if (!sy) { u128 x = a.u(), y = b.u(), r = 0; switch (op) { case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break; case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break; case Instruction::Shl: r = x << (int)y; break; case Instruction::LShr: r = x >> (int)y; break; case Instruction::UDiv: r = x / y; break; case Instruction::URem: r = x % y; break; default: endPath("unsupported", "i128 op"); } Val v = Val::I128(r); v.w = w; if (w < 128) { v.hi &= (w > 64 ? ((1ull << (w - 64)) - 1) : 0); } return v; }
    if (w == 1) { E x = boolE(a), y = boolE(b); switch (op) { case Instruction::And: return mkBool(x && y); case Instruction::Or: return mkBool(x || y); case Instruction::Xor: return mkBool(x != y); case Instruction::Add: case Instruction::Sub: return mkBool(x != y); case Instruction::Mul: return mkBool(x && y); } }
    // identities on opaque bits
    if (b.k == Val::INT && b.i == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Shl || op == Instruction::Sub)) return a;
    if (op == Instruction::And && ((a.k == Val::INT && a.i == 0) || (b.k == Val::INT && b.i == 0))) return Val::I(0, w);
    if (isR() && a.k == Val::SYM && a.s->isReal && b.k == Val::INT && w == 64) {
        if (op == Instruction::Xor && b.i == 0x8000000000000000ull) return mkR(-rE(a));
        if (op == Instruction::And && b.i == 0x7fffffffffffffffull) { return decide(S, rE(a) >= C.real_val(0)) ? a : mkR(-rE(a)); }
    }
    E x = bvE(a, w), y = bvE(b, w);
    switch (op) {
    case Instruction::Add: return mkBV(x + y, w); case Instruction::Sub: return mkBV(x - y, w); case Instruction::Mul: return mkBV(x * y, w);
    case Instruction::And: return mkBV(x & y, w); case Instruction::Or: return mkBV(x | y, w); case Instruction::Xor: return mkBV(x ^ y, w);
    case Instruction::Shl: return mkBV(z3::shl(x, y), w); case Instruction::LShr: return mkBV(z3::lshr(x, y), w); case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (b.k == Val::SYM) doAssert(S, "int-div-zero", y != C.bv_val(0, w), {}, where(S));
        if (op == Instruction::UDiv) return mkBV(z3::udiv(x, y), w); if (op == Instruction::URem) return mkBV(z3::urem(x, y), w);
        if (op == Instruction::SDiv) return mkBV(x / y, w); return mkBV(z3::srem(x, y), w);
    }
    endPath("unsupported", "int op");
}
static Val icmp(State& S, unsigned pred, const Val& a0, const Val& b0, unsigned w) {
    if (a0.k == Val::AGG) { std::vector<Val> v; for (size_t i = 0; i < a0.a->v.size(); i++) v.push_back(icmp(S, pred, a0.a->v[i], b0.a->v[i], w)); return Val::A(v); }
    Val a = a0, b = b0;
    if (a.k == Val::FLT) a = Val::I(concretize(S, a), 64); if (b.k == Val::FLT) b = Val::I(concretize(S, b), 64);
    if (a.k != Val::SYM && b.k != Val::SYM) {
        if (w > 64) { u128 x = a.u(), y = b.u(); switch (pred) { case CmpInst::ICMP_EQ: return Val::I(x == y, 1); case CmpInst::ICMP_NE: return Val::I(x != y, 1); case CmpInst::ICMP_ULT: return Val::I(x < y, 1); case CmpInst::ICMP_UGT: return Val::I(x > y, 1); case CmpInst::ICMP_ULE: return Val::I(x <= y, 1); case CmpInst::ICMP_UGE: return Val::I(x >= y, 1); } endPath("unsupported", "icmp128"); }
        u64 x = a.i, y = b.i; int64_t p = sx(x, w), q = sx(y, w); bool r = false;
        switch (pred) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_SGT: r = p > q; break; case CmpInst::ICMP_SGE: r = p >= q; break; case CmpInst::ICMP_SLT: r = p < q; break; case CmpInst::ICMP_SLE: r = p <= q; break; }
        return Val::I(r, 1);
    }
    if (isR() && ((a.k == Val::SYM && a.s->isReal) || (b.k == Val::SYM && b.s->isReal))) {
        if (a.k == Val::INT) { double d; memcpy(&d, &a.i, 8); a = Val::F(d, 64); } if (b.k == Val::INT) { double d; memcpy(&d, &b.i, 8); b = Val::F(d, 64); }
        if (pred == CmpInst::ICMP_EQ) return mkBool(rE(a) == rE(b)); if (pred == CmpInst::ICMP_NE) return mkBool(rE(a) != rE(b));
        if (pred == CmpInst::ICMP_SLT) return mkBool(rE(a) < C.real_val(0)); if (pred == CmpInst::ICMP_SGT) return mkBool(rE(a) >= C.real_val(0));
        endPath("unsupported", "icmp on real bits");
    }
    if (w == 1) { E x = boolE(a), y = boolE(b); switch (pred) { case CmpInst::ICMP_EQ: return mkBool(x == y); case CmpInst::ICMP_NE: return mkBool(x != y); case CmpInst::ICMP_UGT: return mkBool(x && !y); case CmpInst::ICMP_ULT: return mkBool(!x && y); case CmpInst::ICMP_UGE: return mkBool(x || !y); case CmpInst::ICMP_ULE: return mkBool(!x || y); case CmpInst::ICMP_SLT: return mkBool(x && !y); case CmpInst::ICMP_SGT: return mkBool(!x && y); } }
    E x = bvE(a, w), y = bvE(b, w);
    auto rb = [&](E e) { e = e.simplify(); if (e.is_true()) return Val::I(1, 1); if (e.is_false()) return Val::I(0, 1); return Val::S(e, 1); };
    switch (pred) { case CmpInst::ICMP_EQ: return rb(x == y); case CmpInst::ICMP_NE: return rb(x != y); case CmpInst::ICMP_UGT: return rb(z3::ugt(x, y)); case CmpInst::ICMP_UGE: return rb(z3::uge(x, y)); case CmpInst::ICMP_ULT: return rb(z3::ult(x, y)); case CmpInst::ICMP_ULE: return rb(z3::ule(x, y)); case CmpInst::ICMP_SGT: return rb(x > y); case CmpInst::ICMP_SGE: return rb(x >= y); case CmpInst::ICMP_SLT: return rb(x < y); case CmpInst::ICMP_SLE: return rb(x <= y); }
    endPath("unsupported", "icmp");
}
// integer k with k <= x < k+1 (floor); forks over feasible values
static bool realInt(State& S, const E& x0, int kind, int64_t& out) { // kind 0 floor, 1 ceil, 2 trunc, 3 round-half-away
    E x = canonR(x0);
    concretizedReal++;
    checkBudget();
    auto cr = check(S.pc, {}, O.assertMs, true);
    if (!cr.m) endPath("unknown", "no model for real->int");
    double d = exprD(cr.m->eval(x, true));
    for (int tries = 0; tries < 1; tries++) {
        double k = kind == 0 ? std::floor(d) : kind == 1 ? std::ceil(d) : kind == 2 ? std::trunc(d) : std::round(d);
        if (std::fabs(k) > 2e9) endPath("unknown", "real->int magnitude");
        auto rv = [&](double v) { return ratE(mpq_class(v)); };
        E c = C.bool_val(true);
        if (kind == 0) c = x >= rv(k) && x < rv(k + 1);
        else if (kind == 1) c = x > rv(k - 1) && x <= rv(k);
        else if (kind == 2) c = k > 0 ? (x >= rv(k) && x < rv(k + 1)) : k < 0 ? (x > rv(k - 1) && x <= rv(k)) : (x > rv(-1) && x < rv(1));
        else c = k > 0 ? (x >= rv(k - 0.5) && x < rv(k + 0.5)) : k < 0 ? (x > rv(k - 0.5) && x <= rv(k + 0.5)) : (x > rv(-0.5) && x < rv(0.5));
        // remembered?
        if (decide(S, c)) { out = (int64_t)k; return true; }
    }
    endPath("unknown", "real->int");
}
static Val castOp(State& S, unsigned op, const Val& a, Type* from, Type* to) {
    if (a.k == Val::AGG && op != Instruction::BitCast) { std::vector<Val> v; Type* fe = cast<VectorType>(from)->getElementType(); Type* te = cast<VectorType>(to)->getElementType(); for (auto& x : a.a->v) v.push_back(castOp(S, op, x, fe, te)); return Val::A(v); }
    unsigned w = to->isIntegerTy() ? to->getIntegerBitWidth() : 64, fwid = from->isIntegerTy() ? from->getIntegerBitWidth() : 64;
    int tf = to->isFloatTy() ? 32 : 64, ff = from->isFloatTy() ? 32 : 64;
    switch (op) {
    case Instruction::Trunc:
        if (a.k != Val::SYM) return Val::I(a.k == Val::FLT ? concretize(S, a) : a.i, w);
        if (w == 1) return mkBV(bvE(a, fwid).extract(0, 0) == C.bv_val(1, 1), 1);
        return mkBV(bvE(a, fwid).extract(w - 1, 0), w);
    case Instruction::ZExt: if (a.k != Val::SYM) { if (w > 64) { Val v = Val::I128(a.i); v.w = w; return v; } return Val::I(a.i, w); } if (fwid == 1) return Val::S(bvE(a, w), w); return mkBV(z3::zext(bvE(a, fwid), w - fwid), w);
    case Instruction::SExt: if (a.k != Val::SYM) { int64_t x = sx(a.i, fwid); if (w > 64) { Val v = Val::I128((u128)(__int128)x); v.w = w; return v; } return Val::I((u64)x, w); } if (fwid == 1) return Val::S(z3::ite(boolE(a), C.bv_val(-1, w), C.bv_val(0, w)), w); return mkBV(z3::sext(bvE(a, fwid), w - fwid), w);
    case Instruction::PtrToInt: case Instruction::IntToPtr:
        if (a.k != Val::SYM) return Val::I(a.i, w);
        if (w == fwid) return a; if (w < fwid) return mkBV(bvE(a, fwid).extract(w - 1, 0), w); return mkBV(z3::zext(bvE(a, fwid), w - fwid), w);
    case Instruction::SIToFP: case Instruction::UIToFP: {
        if (a.k != Val::SYM) return op == Instruction::SIToFP ? Val::F((double)sx(a.i, fwid), tf) : Val::F((double)a.i, tf);
        if (isR()) { u64 x = concretize(S, a); return op == Instruction::SIToFP ? Val::F((double)sx(x, fwid), tf) : Val::F((double)x, tf); }
        E rm(C, Z3_mk_fpa_rne(C)); E e = bvE(a, fwid);
        return mkF(E(C, op == Instruction::SIToFP ? Z3_mk_fpa_to_fp_signed(C, rm, e, fpS(tf)) : Z3_mk_fpa_to_fp_unsigned(C, rm, e, fpS(tf))), tf); }
    case Instruction::FPToSI: case Instruction::FPToUI: {
        if (a.k != Val::SYM) {
            double d = fltOf(a);
            if (op == Instruction::FPToSI) { if (w <= 32) { if (!(d > -2147483649.0 && d < 2147483648.0)) return Val::I(0x80000000ull, w); return Val::I((u64)(int64_t)d, w); } if (!(d > -9.3e18 && d < 9.22e18)) return Val::I(0x8000000000000000ull, w); return Val::I((u64)(int64_t)d, w); }
            return Val::I((u64)d, w);
        }
        if (isR()) { int64_t k; realInt(S, rE(a), 2, k); return Val::I((u64)k, w); }
        E rm(C, Z3_mk_fpa_rtz(C)); E e = fpE(a, ff);
        if (op == Instruction::FPToUI) return mkBV(E(C, Z3_mk_fpa_to_ubv(C, rm, e, w)), w);
        double lo = -std::ldexp(1.0, w - 1), hi = std::ldexp(1.0, w - 1);
        E in = (ff == 64) ? (E(C, Z3_mk_fpa_gt(C, e, C.fpa_val(w <= 32 ? lo - 1 : lo))) || E(C, Z3_mk_fpa_eq(C, e, C.fpa_val(lo)))) && E(C, Z3_mk_fpa_lt(C, e, C.fpa_val(hi))) : (E(C, Z3_mk_fpa_geq(C, e, C.fpa_val((float)lo))) && E(C, Z3_mk_fpa_lt(C, e, C.fpa_val((float)hi))));
        E r = E(C, Z3_mk_fpa_to_sbv(C, rm, e, w));
        E bad = C.bv_val((uint64_t)(1ull << (w - 1)), w);
        return mkBV(z3::ite(in, r, bad), w); }
    case Instruction::FPExt: case Instruction::FPTrunc:
        if (a.k != Val::SYM) return Val::F(fltOf(a), tf);
        if (isR()) return a; { E rm(C, Z3_mk_fpa_rne(C)); return mkF(E(C, Z3_mk_fpa_to_fp_float(C, rm, fpE(a, ff), fpS(tf))), tf); }
    case Instruction::BitCast: {
        if (from == to) return a;
        auto isV = [](Type* t) { return t->isVectorTy(); };
        if (!isV(from) && !isV(to)) {
            if (a.k == Val::SYM) { if (to->isFloatingPointTy()) { if (a.s->isReal || a.s->isFP) return a; if (isR()) endPath("unsupported", "bitcast bv->real"); return mkF(fpE(a, tf), tf); } if (a.s->isFP) return Val::S(bvE(a, w), w); return a; }
            if (to->isFloatingPointTy()) { if (a.k == Val::FLT) return a; if (tf == 32) { u32 b = a.i; float f; memcpy(&f, &b, 4); return Val::F(f, 32); } double d; memcpy(&d, &a.i, 8); return Val::F(d, 64); }
            if (a.k == Val::FLT) { if (ff == 32) { float f = a.d; u32 b; memcpy(&b, &f, 4); return Val::I(b, w); } u64 b; memcpy(&b, &a.d, 8); return Val::I(b, w); }
            return Val::I(a.i, w);
        }
        if (isV(from) && isV(to) && cast<FixedVectorType>(from)->getNumElements() == cast<FixedVectorType>(to)->getNumElements()) { std::vector<Val> v; for (auto& x : a.a->v) v.push_back(castOp(S, op, x, cast<VectorType>(from)->getElementType(), cast<VectorType>(to)->getElementType())); return Val::A(v); }
        // through memory
        u64 t = allocObj(S, 64, 1); storeT(S, t, a, from); Val r = loadT(S, t, to); S.mem.set(t >> 24, nullptr); return r; }
    }
    endPath("unsupported", "cast");
}
static Val selectV(State& S, const Val& c, const Val& a, const Val& b, Type* T) {
    if (c.k == Val::AGG) { std::vector<Val> v; Type* et = cast<VectorType>(T)->getElementType(); for (size_t i = 0; i < c.a->v.size(); i++) v.push_back(selectV(S, c.a->v[i], a.a->v[i], b.a->v[i], et)); return Val::A(v); }
    if (c.k != Val::SYM) return (c.i & 1) ? a : b;
    bool scalarInt = T->isIntegerTy() && !(a.k == Val::SYM && !a.s->isBV && !a.s->isBool) && !(b.k == Val::SYM && !b.s->isBV && !b.s->isBool) && T->getIntegerBitWidth() <= 64;
    E ce = boolE(c);
    int kn = knownCond(S, normCond(ce)); if (kn == 1) return a; if (kn == 0) return b;
    if (isR() && !S.itemode) return decide(S, ce) ? a : b;
    if (scalarInt) {
        unsigned w = T->getIntegerBitWidth();
        if (w == 1) return mkBool(z3::ite(ce, boolE(a), boolE(b)));
        return mkBV(z3::ite(ce, bvE(a, w), bvE(b, w)), w);
    }
    if (T->isFloatingPointTy()) { int fw = T->isFloatTy() ? 32 : 64; if (isR()) return Val::S(z3::ite(ce, rE(a), rE(b)), fw); return mkF(z3::ite(ce, fpE(a, fw), fpE(b, fw)), fw); }
    return decide(S, ce) ? a : b;
}
