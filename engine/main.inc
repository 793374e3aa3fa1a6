// ------------------------------------------------------------------ main loop
static void pushCall(State& S, const Function* F, const std::vector<Val>& args) {
    if (S.fr.size() > 2000) endPath("unsupported", "recursion too deep " + where(S));
    FnInfo* fi = decode(F); Frame f; f.fi = fi; f.r.resize(fi->nslots);
    unsigned n = F->arg_size(); for (unsigned i = 0; i < n && i < args.size(); i++) f.r[i] = args[i];
    f.bb = 0; f.pc = 0; S.fr.push_back(std::move(f));
    if (!fi->repo) { fi->repo = true; fnExecuted.insert(fi->dem); }
}
static inline void jump(State& S, Frame& f, int to) {
    f.prevbb = f.bb; f.bb = to; auto& code = f.fi->code; int p = f.fi->bbStart[to];
    if (code[p].op == Instruction::PHI) {
        Val tmp[64]; std::vector<Val> big; int cnt = 0; int q = p; for (; code[q].op == Instruction::PHI; q++) cnt++;
        Val* t = tmp; if (cnt > 64) { big.resize(cnt); t = big.data(); }
        for (int i = 0; i < cnt; i++) { auto& d = code[p + i]; for (size_t k = 0; k < d.ops.size(); k += 2) if (d.ops[k] == f.prevbb) { int r = d.ops[k + 1]; t[i] = r >= 0 ? f.r[r] : f.fi->consts[~r]; break; } }
        for (int i = 0; i < cnt; i++) f.r[code[p + i].dst] = t[i];
        p = q;
    }
    f.pc = p;
}
static bool doCall(State& S, const DInst& d) { // returns true if frame-level pc handled (pushed or unwound)
    Frame& f = S.fr.back(); auto get = [&](int r) -> const Val& { return r >= 0 ? f.r[r] : f.fi->consts[~r]; };
    std::vector<Val> args; args.reserve(d.ops.size());
    size_t na = d.ops.size() - (d.aux == -1 ? 1 : 0);
    for (size_t i = 0; i < na; i++) args.push_back(d.ops[i] == ~0x7fffff ? Val() : get(d.ops[i]));
    const Function* F = d.callee;
    if (d.aux == -2) { return false; } // inline asm: ignored (barriers)
    if (!F) {
        u64 a = concretize(S, get(d.ops[na])); Obj* o = S.mem.get(a >> 24);
        if (!o || !o->fn || (a & 0xffffff)) { memErr(S, "call through invalid function pointer", a); }
        F = o->fn;
    }
    int& ei = const_cast<DInst&>(d).ext;
    int e; if (d.callee) { if (ei == -1) { ei = findExt(F->getName().str()); if (ei < 0) ei = -3; if (ei >= 0 && !F->isDeclaration() && !overrideDefined.count(F->getName().str())) { ei = -3; } } e = ei; } else { e = findExt(F->getName().str()); if (e >= 0 && !F->isDeclaration() && !overrideDefined.count(F->getName().str())) e = -3; }
    if (e >= 0) {
        Val r; DInst dd = d; 
        const DInst* dp = &d; if (!d.callee) { dd.callee = F; dp = &dd; }
        bool cont = ext[e](S, *dp, args, r);
        if (!cont) return true; // control flow changed (exception)
        Frame& g = S.fr.back();
        if (d.dst >= 0) g.r[d.dst] = r;
        if (d.op == Instruction::Invoke) { jump(S, g, d.succ[0]); return true; }
        return false;
    }
    if (F->isDeclaration()) { auto n = F->getName(); if (F->getReturnType()->isVoidTy() && (n.starts_with("_ZN2lm3log") || n.starts_with("_ZN2lm9exception") || n.starts_with("_ZN2lm8progress") || n.starts_with("_ZN2lm5debug"))) { if (d.op == Instruction::Invoke) { jump(S, S.fr.back(), d.succ[0]); return true; } return false; } }
    if (F->isDeclaration()) endPath("unsupported", "external function " + llvm::demangle(F->getName().str()) + where(S));
    // byval copies
    auto* cb = cast<CallBase>(d.I);
    for (unsigned i = 0; i < cb->arg_size(); i++) if (cb->isByValArgument(i)) { u64 sz = DL->getTypeAllocSize(cb->getParamByValType(i)); u64 n = allocObj(S, sz, 1); copyMem(S, n, concretize(S, args[i]), sz); S.fr.back().allocas.push_back(n >> 24); args[i] = Val::P(n); }
    pushCall(S, F, args);
    return true;
}
static void step(State& S) {
    Frame& f = S.fr.back(); const DInst& d = f.fi->code[f.pc];
    auto get = [&](int r) -> const Val& { return r >= 0 ? f.r[r] : f.fi->consts[~r]; };
    S.ninst++; ST.inst++;
    switch (d.op) {
    case Instruction::Ret: {
        Val r; if (!d.ops.empty()) r = get(d.ops[0]);
        popFrame(S); if (S.fr.empty()) return;
        Frame& g = S.fr.back(); const DInst& cd = g.fi->code[g.pc];
        if (cd.dst >= 0) g.r[cd.dst] = r;
        if (cd.op == Instruction::Invoke) jump(S, g, cd.succ[0]); else g.pc++;
        return; }
    case Instruction::Br: if (d.succ[1] < 0) { jump(S, f, d.succ[0]); return; } { const Val& c = get(d.ops[0]); bool t = c.k == Val::SYM ? decide(S, boolE(c)) : (c.i & 1); jump(S, S.fr.back(), d.succ[t ? 0 : 1]); return; }
    case Instruction::Switch: {
        auto* sw = cast<SwitchInst>(d.I); Val c = get(d.ops[0]);
        if (c.k == Val::SYM) {
            unsigned w = sw->getCondition()->getType()->getIntegerBitWidth(); E e = bvE(c, w); auto it = S.eqv.find(mk(e)->e.id());
            if (it != S.eqv.end()) c = Val::I(it->second, w);
            else { // group by destination
                std::map<int, E> dest; std::vector<int> order; for (auto cs : sw->cases()) { int b = f.fi->bbId[cs.getCaseSuccessor()]; E q = e == C.bv_val((uint64_t)cs.getCaseValue()->getZExtValue(), w); auto k = dest.find(b); if (k == dest.end()) { dest.emplace(b, q); order.push_back(b); } else { E nq = k->second || q; dest.erase(k); dest.emplace(b, nq); } }
                for (int b : order) if (decide(S, dest.at(b))) { jump(S, S.fr.back(), b); return; }
                jump(S, S.fr.back(), f.fi->bbId[sw->getDefaultDest()]); return; }
        }
        const BasicBlock* to = sw->getDefaultDest(); for (auto cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == c.i) { to = cs.getCaseSuccessor(); break; }
        jump(S, f, f.fi->bbId[to]); return; }
    case Instruction::Call: case Instruction::Invoke: if (doCall(S, d)) return; if (d.op == Instruction::Invoke) { jump(S, S.fr.back(), d.succ[0]); return; } S.fr.back().pc++; return;
    case Instruction::Unreachable: endPath("unreachable", f.fi->dem);
    case Instruction::Resume: { S.cur.ptr = concretize(S, get(d.ops[0]).a->v[0]); unwind(S); return; }
    case Instruction::Alloca: { auto* ai = cast<AllocaInst>(d.I); u64 sz = DL->getTypeAllocSize(ai->getAllocatedType()) * (ai->isArrayAllocation() ? concretize(S, get(d.ops[0])) : 1); u64 p = allocObj(S, sz, 1); f.allocas.push_back(p >> 24); f.r[d.dst] = Val::P(p); break; }
    case Instruction::Load: { u64 a = resolveAddr(S, get(d.ops[0]), tsize(d.ty), "load"); bool at = S.thr.size() > 1 && cast<LoadInst>(d.I)->isAtomic(); if (at) { S.atomicAcc = true; if (isAcquireOrStronger(cast<LoadInst>(d.I)->getOrdering())) hbAcquire(S, a); } Val v = loadT(S, a, d.ty); if (at) S.atomicAcc = false; S.fr.back().r[d.dst] = v; break; }
    case Instruction::Store: { Type* T = cast<StoreInst>(d.I)->getValueOperand()->getType(); u64 a = resolveAddr(S, get(d.ops[1]), tsize(T), "store"); bool at = S.thr.size() > 1 && cast<StoreInst>(d.I)->isAtomic(); if (at) S.atomicAcc = true; storeT(S, a, get(d.ops[0]), T); if (at) { S.atomicAcc = false; if (isReleaseOrStronger(cast<StoreInst>(d.I)->getOrdering())) hbRelease(S, a); } break; }
    case Instruction::GetElementPtr: {
        Val b = get(d.ops[0]); if (b.k == Val::AGG) endPath("unsupported", "vector gep");
        if (d.gepVar.empty()) { if (b.k == Val::SYM) f.r[d.dst] = mkBV(b.s->e + C.bv_val((uint64_t)d.gepConst, 64), 64); else f.r[d.dst] = Val::P(b.i + d.gepConst); break; }
        bool sy = b.k == Val::SYM; for (auto& [r, sc] : d.gepVar) if (get(r).k == Val::SYM) sy = true;
        if (!sy) { u64 x = b.i + d.gepConst; for (auto& [r, sc] : d.gepVar) { const Val& v = get(r); x += (u64)(sx(v.i, v.w) * sc); } f.r[d.dst] = Val::P(x); break; }
        E e = bvE(b, 64) + C.bv_val((uint64_t)d.gepConst, 64); for (auto& [r, sc] : d.gepVar) { const Val& v = get(r); unsigned w = v.k == Val::SYM ? v.s->e.get_sort().bv_size() : v.w; E x = bvE(v, w); if (w < 64) x = z3::sext(x, 64 - w); e = e + x * C.bv_val((int64_t)sc, 64); }
        f.r[d.dst] = mkBV(e, 64); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { Val r = d.op == Instruction::FRem ? fn2(S, "fmod", get(d.ops[0]), get(d.ops[1]), 64) : fpBin(S, d.op, get(d.ops[0]), get(d.ops[1]), d.ty->getScalarType()->isFloatTy() ? 32 : 64); S.fr.back().r[d.dst] = r; break; }
    case Instruction::FNeg: f.r[d.dst] = fneg(S, get(d.ops[0]), d.ty->getScalarType()->isFloatTy() ? 32 : 64); break;
    case Instruction::FCmp: { Val r = fcmp(S, cast<FCmpInst>(d.I)->getPredicate(), get(d.ops[0]), get(d.ops[1]), d.I->getOperand(0)->getType()->getScalarType()->isFloatTy() ? 32 : 64); f.r[d.dst] = r; break; }
    case Instruction::ICmp: { Type* T = d.I->getOperand(0)->getType()->getScalarType(); Val r = icmp(S, cast<ICmpInst>(d.I)->getPredicate(), get(d.ops[0]), get(d.ops[1]), T->isIntegerTy() ? T->getIntegerBitWidth() : 64); f.r[d.dst] = r; break; }
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { Val r = intBin(S, d.op, get(d.ops[0]), get(d.ops[1]), d.ty->getScalarType()->getIntegerBitWidth()); S.fr.back().r[d.dst] = r; break; }
    case Instruction::Select: { Val r = selectV(S, get(d.ops[0]), get(d.ops[1]), get(d.ops[2]), d.ty); S.fr.back().r[d.dst] = r; break; }
    case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::BitCast: case Instruction::AddrSpaceCast: { Val r = castOp(S, d.op == Instruction::AddrSpaceCast ? (unsigned)Instruction::BitCast : d.op, get(d.ops[0]), d.I->getOperand(0)->getType(), d.ty); S.fr.back().r[d.dst] = r; break; }
    case Instruction::ExtractValue: { Val v = get(d.ops[0]); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { if (v.k != Val::AGG) { v = Val(); break; } Val t = v.a->v[i]; v = t; } f.r[d.dst] = v; break; }
    case Instruction::InsertValue: { Val v = get(d.ops[0]); auto* iv = cast<InsertValueInst>(d.I); std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned k) -> Val { if (k == iv->getNumIndices()) return get(d.ops[1]); std::vector<Val> n = x.a->v; n[iv->getIndices()[k]] = ins(n[iv->getIndices()[k]], k + 1); return Val::A(n); }; f.r[d.dst] = ins(v, 0); break; }
    case Instruction::ExtractElement: { Val v = get(d.ops[0]); u64 i = concretize(S, get(d.ops[1])); f.r[d.dst] = v.a->v.at(i); break; }
    case Instruction::InsertElement: { std::vector<Val> n = get(d.ops[0]).a->v; n.at(concretize(S, get(d.ops[2]))) = get(d.ops[1]); f.r[d.dst] = Val::A(n); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(d.I); auto& a = get(d.ops[0]).a->v; auto& b = get(d.ops[1]).a->v; std::vector<Val> n; for (int m : sv->getShuffleMask()) n.push_back(m < 0 ? a[0] : m < (int)a.size() ? a[m] : b[m - a.size()]); f.r[d.dst] = Val::A(n); break; }
    case Instruction::Freeze: f.r[d.dst] = get(d.ops[0]); break;
    case Instruction::Fence: break;
    case Instruction::AtomicCmpXchg: { auto* x = cast<AtomicCmpXchgInst>(d.I); Type* T = x->getNewValOperand()->getType(); u64 a = resolveAddr(S, get(d.ops[0]), tsize(T), "cmpxchg"); struct AG { State& S; bool o; AG(State& s) : S(s), o(s.atomicAcc) { s.atomicAcc = true; } ~AG() { S.atomicAcc = o; } } ag(S); if (isAcquireOrStronger(x->getSuccessOrdering())) hbAcquire(S, a); Val old = loadT(S, a, T); unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64; Val c = icmp(S, CmpInst::ICMP_EQ, old, get(d.ops[1]), w); bool eq = c.k == Val::SYM ? decide(S, boolE(c)) : (c.i & 1); if (eq) { storeT(S, a, get(d.ops[2]), T); if (isReleaseOrStronger(x->getSuccessOrdering())) hbRelease(S, a); } S.fr.back().r[d.dst] = Val::A({old, Val::I(eq, 1)}); break; }
    case Instruction::AtomicRMW: { auto* x = cast<AtomicRMWInst>(d.I); Type* T = x->getValOperand()->getType(); u64 a = resolveAddr(S, get(d.ops[0]), tsize(T), "atomicrmw"); struct AG { State& S; bool o; AG(State& s) : S(s), o(s.atomicAcc) { s.atomicAcc = true; } ~AG() { S.atomicAcc = o; } } ag(S); if (isAcquireOrStronger(x->getOrdering())) hbAcquire(S, a); Val old = loadT(S, a, T); Val v = get(d.ops[1]), n; unsigned w = T->isIntegerTy() ? T->getIntegerBitWidth() : 64;
        switch (x->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = intBin(S, Instruction::Add, old, v, w); break; case AtomicRMWInst::Sub: n = intBin(S, Instruction::Sub, old, v, w); break; case AtomicRMWInst::And: n = intBin(S, Instruction::And, old, v, w); break; case AtomicRMWInst::Or: n = intBin(S, Instruction::Or, old, v, w); break; case AtomicRMWInst::Xor: n = intBin(S, Instruction::Xor, old, v, w); break; case AtomicRMWInst::FAdd: n = fpBin(S, Instruction::FAdd, old, v, T->isFloatTy() ? 32 : 64); break; default: endPath("unsupported", "atomicrmw"); }
        storeT(S, a, n, T); if (isReleaseOrStronger(x->getOrdering())) hbRelease(S, a); S.fr.back().r[d.dst] = old; break; }
    case Instruction::LandingPad: case Instruction::PHI: endPath("internal", "phi/landingpad");
    default: endPath("unsupported", std::string("instruction ") + d.I->getOpcodeName());
    }
    S.fr.back().pc++;
}
static void runToEnd(State& S) {
    u64 lim = O.maxInst; u64 start = ST.inst;
    while (true) {
        if (S.fr.empty()) { if (!thrFinish(S)) break; continue; }
        step(S);
        if ((ST.inst & 0x3fff) == 0) { if (ST.inst - start > lim) endPath("bound", "instruction bound" + where(S)); checkBudget(); }
    }
}
// --instrument: redirects threading primitives to rt/thr.cpp and puts a scheduling point before atomic operations
// Every function X for which the harness defines vpr_X is replaced by it (library boundaries such as image decoders).
static int instrument(const std::string& in, const std::string& out, bool threads) {
    SMDiagnostic err; auto Mo = parseIRFile(in, err, LC); if (!Mo) { err.print("vpsym", errs()); return 2; }
    { std::vector<Function*> fs; for (auto& F : *Mo) if (F.getName().starts_with("vpr_") && !F.isDeclaration()) fs.push_back(&F);
      for (auto* F : fs) if (auto* T = Mo->getFunction(F->getName().drop_front(4))) { T->replaceAllUsesWith(F); if (T->isDeclaration()) T->eraseFromParent(); } }
    if (!threads) { std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*Mo, os); return 0; }
    std::map<std::string, std::string> ren = {
        {"pthread_mutex_lock", "vpt_lock"}, {"pthread_mutex_unlock", "vpt_unlock"}, {"pthread_mutex_trylock", "vpt_trylock"},
        {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "vpt_thread_start"}, {"_ZNSt6thread4joinEv", "vpt_thread_join"}, {"_ZNSt6thread20hardware_concurrencyEv", "vpt_hwc"},
        {"_ZNSt18condition_variableC1Ev", "vpt_cv_nop"}, {"_ZNSt18condition_variableD1Ev", "vpt_cv_nop"}, {"_ZNSt18condition_variableC2Ev", "vpt_cv_nop"}, {"_ZNSt18condition_variableD2Ev", "vpt_cv_nop"}, {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "vpt_cv_wait"}, {"_ZNSt18condition_variable10notify_allEv", "vpt_cv_all"}, {"_ZNSt18condition_variable10notify_oneEv", "vpt_cv_one"},
        {"__atomic_load", "vpt_atomic_load"}, {"__atomic_store", "vpt_atomic_store"}, {"__atomic_exchange", "vpt_atomic_exchange"}, {"__atomic_compare_exchange", "vpt_atomic_cas"}};
    for (auto& [o, n] : ren) if (auto* F = Mo->getFunction(o)) { if (!F->isDeclaration()) continue; auto nf = Mo->getOrInsertFunction(n, F->getFunctionType()); F->replaceAllUsesWith(nf.getCallee()); F->eraseFromParent(); }
    auto pt = Mo->getOrInsertFunction("vp_point", Type::getVoidTy(LC));
    for (auto& F : *Mo) { std::string dem = llvm::demangle(F.getName().str()); if (dem.find("_Sp_counted") != std::string::npos || dem.find("__exchange_and_add") != std::string::npos || dem.find("__atomic_add") != std::string::npos) continue;
        std::vector<Instruction*> at; for (auto& b : F) for (auto& I : b) { bool a = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I); if (auto* l = dyn_cast<LoadInst>(&I)) { a = l->isAtomic(); if (auto* g = dyn_cast<GlobalVariable>(l->getPointerOperand())) if (g->getName().starts_with("_ZGV")) a = false; } if (auto* s = dyn_cast<StoreInst>(&I)) a = s->isAtomic(); if (a) at.push_back(&I); }
        for (auto* I : at) CallInst::Create(pt, "", I); }
    // direct accesses to thread-local variables (initialisation guards) go through llvm.threadlocal.address as well
    for (auto& G : Mo->globals()) if (G.isThreadLocal()) { std::vector<Use*> us; for (auto& u : G.uses()) if (auto* I = dyn_cast<Instruction>(u.getUser())) { auto* ii = dyn_cast<IntrinsicInst>(I); if (!isa<PHINode>(I) && !(ii && ii->getIntrinsicID() == Intrinsic::threadlocal_address)) us.push_back(&u); }
        for (auto* u : us) { auto* I = cast<Instruction>(u->getUser()); auto* fn = Intrinsic::getDeclaration(Mo.get(), Intrinsic::threadlocal_address, {G.getType()}); u->set(CallInst::Create(fn, {&G}, "", I)); } }
    std::error_code ec; raw_fd_ostream os(out, ec); WriteBitcodeToFile(*Mo, os); return 0;
}
int main(int argc, char** argv) {
    if (argc == 4 && !strcmp(argv[1], "--instrument")) return instrument(argv[2], argv[3], true);
    if (argc == 4 && !strcmp(argv[1], "--redirect")) return instrument(argv[2], argv[3], false);
    std::string bc, entry, out; 
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--mode") O.mode = nx()[0]; else if (a == "--budget") O.budget = atof(nx().c_str()); else if (a == "--branch-ms") O.branchMs = atoi(nx().c_str()); else if (a == "--assert-ms") O.assertMs = atoi(nx().c_str()); else if (a == "--ext-secs") O.extSecs = atoi(nx().c_str()); else if (a == "--max-inst") O.maxInst = strtoull(nx().c_str(), 0, 10); else if (a == "--max-viol") O.maxViol = atoi(nx().c_str()); else if (a == "--tmp") O.tmpdir = nx(); else if (a == "--poly-max") POLY_MAX = atoi(nx().c_str()); else if (a == "-v") O.verbose = true; else bc = a;
    }
    C.set_rounding_mode(z3::RNE);
    SMDiagnostic err; M = parseIRFile(bc, err, LC); if (!M) { err.print("vpsym", errs()); return 2; } DL = &M->getDataLayout();
    regAll();
    const Function* EF = M->getFunction(entry); if (!EF || EF->isDeclaration()) { std::cerr << "no entry " << entry << "\n"; return 2; }
    auto S0 = std::make_unique<State>(); INIT = S0.get();
    bool initOk = true; std::string initErr;
    try {
        initGlobals(*S0);
        // static constructors in priority / link order
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
            std::vector<std::pair<u64, const Function*>> cs; for (auto& op : ca->operands()) { auto* s = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
            std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
            for (auto& c : cs) { pushCall(*S0, c.second, {}); runToEnd(*S0); }
        }
    } catch (PathEnd& e) { initOk = false; initErr = e.kind + ": " + e.msg; }
    u64 initInst = ST.inst; fnExecuted.clear(); for (auto& [f, fi] : fninfo) fi->repo = false;
    double tInit = elapsed(); long paths = 0, complete = 0; bool budgetHit = false;
    if (initOk) {
        S0->ninst = 0; pushCall(*S0, EF, {}); work.push_back(std::move(S0));
        while (!work.empty()) {
            auto S = std::move(work.back()); work.pop_back(); paths++;
            try { runToEnd(*S); endings["completed"]++; complete++; }
            catch (PathEnd& e) { endings[e.kind]++; if (e.kind != "assume" && e.kind != "end" && e.kind != "infeasible") endMsgs[e.kind + ": " + e.msg.substr(0, 400)]++; if (e.kind == "end") complete++; if (O.verbose && e.kind != "assume") std::cerr << "PATH END " << e.kind << ": " << e.msg << "\n"; }
            catch (z3::exception& e) { endings["z3-exception"]++; endMsgs[std::string("z3: ") + e.msg()]++; }
            catch (std::exception& e) { endings["internal"]++; endMsgs[std::string("internal: ") + e.what()]++; }
            if (elapsed() > O.budget) { budgetHit = true; break; }
            if (paths >= O.maxPaths) { budgetHit = true; break; }
        }
    }
    std::ostringstream os; os << "{\n\"entry\":" << jstr(entry) << ",\"mode\":\"" << O.mode << "\",\"init_ok\":" << (initOk ? "true" : "false") << ",\"init_err\":" << jstr(initErr) << ",\"wall_s\":" << elapsed() << ",\"init_s\":" << tInit << ",\"paths\":" << paths << ",\"completed\":" << complete << ",\"unexplored\":" << work.size() << ",\"budget_hit\":" << (budgetHit ? "true" : "false");
    os << ",\"instructions\":" << ST.inst - initInst << ",\"init_instructions\":" << initInst << ",\"queries\":" << ST.queries << ",\"cached\":" << ST.cached << ",\"trivial\":" << ST.trivial << ",\"sat\":" << ST.nsat << ",\"unsat\":" << ST.nunsat << ",\"unknown\":" << ST.nunk << ",\"external_queries\":" << ST.extq << ",\"solver_s\":" << ST.solver_s << ",\"forks\":" << ST.forks << ",\"poly_fail\":" << ST.polyfail << ",\"div_assumed_nonzero\":" << divAssume;
    os << ",\n\"endings\":{"; bool fst = true; for (auto& [k, v] : endings) { os << (fst ? "" : ",") << jstr(k) << ":" << v; fst = false; } os << "}";
    os << ",\n\"end_msgs\":{"; fst = true; int cnt = 0; for (auto& [k, v] : endMsgs) { if (cnt++ > 40) break; os << (fst ? "" : ",") << jstr(k) << ":" << v; fst = false; } os << "}";
    os << ",\n\"labels\":{"; fst = true; for (auto& [k, L] : labels) { os << (fst ? "" : ",\n") << jstr(k) << ":{\"proved\":" << L.proved << ",\"violated\":" << L.viol << ",\"unknown\":" << L.unk << ",\"trivial\":" << L.trivial << ",\"witness\":" << (L.witness ? "true" : "false") << ",\"time\":" << L.t << "}"; fst = false; } os << "}";
    os << ",\n\"violations\":["; fst = true; for (auto& v : viols) { os << (fst ? "" : ",\n") << "{\"label\":" << jstr(v.label) << ",\"detail\":" << jstr(v.detail) << ",\"solver_sat\":" << (v.solverSat ? "true" : "false") << ",\"has_model\":" << (v.hasModel ? "true" : "false") << ",\"inputs\":{"; bool g = true; for (auto& [n, s] : v.inputs) { os << (g ? "" : ",") << jstr(n) << ":" << jstr(s); g = false; } os << "}}"; fst = false; } os << "]";
    os << ",\n\"functions\":["; fst = true; for (auto& n : fnExecuted) { if (n.find("lm::") == std::string::npos || n.rfind("std::", 0) == 0 || n.rfind("void std::", 0) == 0 || n.find("nlohmann") == 0) continue; os << (fst ? "" : ",") << jstr(n.substr(0, 160)); fst = false; } os << "]\n}\n";
    if (out.empty()) std::cout << os.str(); else { std::ofstream f(out); f << os.str(); }
    fflush(stdout); _exit(0);
}
