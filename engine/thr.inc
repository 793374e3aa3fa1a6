// ------------------------------------------------------------------ threads: cooperative scheduling with symbolic schedule choices
// Context switches happen at scheduling points (vp_point inserted before every atomic operation, mutex acquisition,
// condition-variable wait, join, thread end).  Every choice is a symbolic input "sched"; the number of preemptions
// (switches away from a thread that could go on) is bounded by vp_sched.
static int choiceOf(State& S, const std::string& base, int n) {
    std::string key = "choice:" + base + ":" + std::to_string(S.names[base]);
    Val v; if (S.named.count(key)) v = S.named[key]; else { int k = S.names[base]; std::string nm = k ? base + "#" + std::to_string(k) : base; v = Val::S(C.bv_const(nm.c_str(), 32), 32); S.inputs.push_back({nm, v}); S.named[key] = v; addPC(S, z3::ult(v.s->e, C.bv_val(n, 32))); }
    int i = 0; for (; i < n - 1; i++) if (decide(S, v.s->e == C.bv_val(i, 32))) break;
    S.names[base]++; S.eqv[v.s->e.id()] = i; return i;
}
static void thrInit(State& S) { if (S.thr.empty()) { S.thr.resize(1); S.thr[0].vc = {1}; S.thr[0].slot = 0; } }
static bool thrEnabled(State& S, int t) {
    Thr& x = S.thr[t];
    switch (x.st) { case Thr::RUN: return true; case Thr::LOCK: return !S.mtx.count(x.on); case Thr::JOIN: return S.thr[x.on].st == Thr::DONE; default: return false; }
}
static int vcAt(const std::vector<int>& v, int t) { return t < (int)v.size() ? v[t] : 0; }
static void vcMerge(std::vector<int>& a, const std::vector<int>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void hbAcquire(State& S, u64 a) { if (S.thr.empty()) return; auto it = S.syncVC.find(a); if (it != S.syncVC.end()) vcMerge(S.thr[S.ct].vc, it->second); }
static void hbRelease(State& S, u64 a) { if (S.thr.empty()) return; auto& v = S.thr[S.ct].vc; vcMerge(S.syncVC[a], v); if ((int)v.size() <= S.ct) v.resize(S.ct + 1, 0); v[S.ct]++; }
static void thrSwitch(State& S, int t) {
    if (t == S.ct) return; Thr& a = S.thr[S.ct]; a.fr.swap(S.fr); std::swap(a.cur, S.cur); a.caught.swap(S.caught);
    Thr& b = S.thr[t]; S.fr.swap(b.fr); std::swap(b.cur, S.cur); S.caught.swap(b.caught); S.ct = t;
}
// picks the thread that runs next; `stay`: the current thread may continue
static int thrChoose(State& S) {
    std::vector<int> en; bool me = thrEnabled(S, S.ct); if (me) en.push_back(S.ct);
    for (int t = 0; t < (int)S.thr.size(); t++) if (t != S.ct && thrEnabled(S, t)) en.push_back(t);
    if (en.empty()) {
        labels["deadlock"].viol++; auto c = check(S.pc, {}, O.assertMs, true); if (c.r == -1) endPath("infeasible", "");
        recordViolation(S, "deadlock", "no thread can proceed" + where(S), c.m, true); endPath("deadlock", "");
    }
    if (en.size() == 1 || (me && S.preempt <= 0)) return en[0];
    int k = choiceOf(S, "sched", en.size()); if (me && k) S.preempt--; return en[k];
}
static bool thrFinish(State& S) { // current thread's stack is empty; returns false when the program is over
    if (S.thr.empty() || S.ct == 0) return false;
    S.thr[S.ct].st = Thr::DONE; int t = thrChoose(S); thrSwitch(S, t); if (S.thr[t].st != Thr::RUN) S.thr[t].go = true; return true;
}
static void finishCall(State& S, const DInst& d, const Val& r) { Frame& g = S.fr.back(); if (d.dst >= 0) g.r[d.dst] = r; if (d.op == Instruction::Invoke) jump(S, g, d.succ[0]); else g.pc++; }
// a scheduling point executed before an operation that is retried afterwards: true = go on with the operation now
static bool thrPoint(State& S) { // used by handlers that have not changed any state yet; on switch the call is re-executed later with go set
    if (S.thr.size() < 2) return true; Thr& me = S.thr[S.ct]; if (me.go) { me.go = false; return true; }
    int t = thrChoose(S); if (t == S.ct) return true; S.thr[S.ct].go = true; S.thr[t].go = S.thr[t].go || S.thr[t].st != Thr::RUN; thrSwitch(S, t); return false;
}
static void thrBlock(State& S, Thr::St st, u64 on) { Thr& me = S.thr[S.ct]; me.st = st; me.on = on; int t; try { t = thrChoose(S); } catch (...) { throw; } me.go = false; thrSwitch(S, t); if (S.thr[t].st != Thr::RUN) S.thr[t].go = true; }
static void raceAccess(State& S, u64 addr, u64 n, bool w) {
    if (S.norace || !n) return; u32 id = addr >> 24; Obj* ob = S.mem.get(id); if (!ob || ob->ro || ob->kind == 3) return;
    auto& sp = S.shadow[id]; if (!sp) sp = std::make_shared<Shadow>(); else if (sp.use_count() > 1) sp = std::make_shared<Shadow>(*sp);
    u32 off = addr & 0xffffff; auto& vc = S.thr[S.ct].vc; int myclk = vcAt(vc, S.ct); bool at = S.atomicAcc;
    for (u32 g = off >> 3; g <= (off + n - 1) >> 3; g++) {
        auto& as = (*sp)[g]; u8 mask = 0; for (u32 k = 0; k < 8; k++) { u32 p = g * 8 + k; if (p >= off && p < off + n) mask |= 1 << k; }
        bool have = false;
        for (auto& a : as) {
            if (a.t == S.ct && a.w == w && a.at == at && a.mask == mask) { a.clk = myclk; have = true; continue; }
            if (a.t == S.ct || !(a.mask & mask) || !(a.w || w) || (a.at && at)) continue;
            if (a.clk <= vcAt(vc, a.t)) continue; // ordered
            LabelRec& L = labels["data-race"]; L.viol++; if (violCount["data-race"] < O.maxViol) { auto c = check(S.pc, {}, O.assertMs, true); if (c.r == -1) endPath("infeasible", ""); recordViolation(S, "data-race", std::string(w ? "write" : "read") + " without synchronisation to an earlier access of another thread" + where(S), c.m, true); }
            endPath("data-race", "");
        }
        if (!have) as.push_back(Acc{(u8)S.ct, w, at, mask, myclk});
    }
}
