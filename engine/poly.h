// Exact rational functions over named atoms, with reduction rules  atom^2 -> RF.
// Used to bring real-arithmetic terms into a canonical numerator/denominator form before they
// are handed to the solver.
#pragma once
#include <gmpxx.h>
#include <map>
#include <vector>
#include <string>
#include <memory>
#include <optional>
#include <algorithm>
#include <stdexcept>

struct PolyLimit : std::runtime_error { PolyLimit() : std::runtime_error("poly limit") {} };

typedef std::vector<std::pair<int,int>> Mono; // sorted by atom id, exponents > 0

struct Poly {
    std::map<Mono, mpq_class> t;
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t.begin()->first.empty()); }
    mpq_class cval() const { return t.empty() ? mpq_class(0) : t.begin()->second; }
    static Poly c(const mpq_class& q) { Poly p; if (q != 0) p.t[Mono()] = q; return p; }
    static Poly a(int id) { Poly p; p.t[Mono{{id,1}}] = 1; return p; }
    bool operator==(const Poly& o) const { return t == o.t; }
    bool operator<(const Poly& o) const { return t < o.t; }
};

static size_t POLY_MAX = 6000;

inline Mono mmul(const Mono& a, const Mono& b) {
    Mono r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, a[i].second + b[j].second}); i++; j++; }
    }
    return r;
}
inline Poly padd(const Poly& a, const Poly& b, int sgn = 1) {
    Poly r = a;
    for (auto& [m, c] : b.t) {
        auto it = r.t.find(m);
        if (it == r.t.end()) r.t[m] = sgn > 0 ? c : mpq_class(-c);
        else { if (sgn > 0) it->second += c; else it->second -= c; if (it->second == 0) r.t.erase(it); }
    }
    if (r.t.size() > POLY_MAX) throw PolyLimit();
    return r;
}
inline Poly pscale(const Poly& a, const mpq_class& q) {
    Poly r; if (q == 0) return r;
    for (auto& [m, c] : a.t) r.t[m] = c * q;
    return r;
}
inline Poly pmulraw(const Poly& a, const Poly& b) {
    if (a.t.size() * b.t.size() > 40 * POLY_MAX) throw PolyLimit();
    Poly r;
    for (auto& [m, c] : a.t) for (auto& [n, d] : b.t) {
        auto& x = r.t[mmul(m, n)]; x += c * d;
    }
    for (auto it = r.t.begin(); it != r.t.end();) { if (it->second == 0) it = r.t.erase(it); else ++it; }
    if (r.t.size() > POLY_MAX) throw PolyLimit();
    return r;
}

// Rational function: num / prod(f^e); factors are non-constant polys made monic-ish
struct RF {
    Poly n;
    std::map<Poly,int> d; // factor -> exponent
};

struct Rules {
    // atom id -> polynomial replacing atom^2 (only polynomial right-hand sides)
    std::map<int, Poly> sq;
    // generic: reduce a polynomial to normal form
    bool needs(const Poly& p) const {
        for (auto& [m, c] : p.t) for (auto& [a, e] : m) if (e >= 2 && sq.count(a)) return true;
        return false;
    }
    Poly reduce(Poly p) const {
        int guard = 0;
        while (true) {
            Poly out; bool any = false;
            for (auto& [m, c] : p.t) {
                int hit = -1;
                for (size_t i = 0; i < m.size(); i++) if (m[i].second >= 2 && sq.count(m[i].first)) { hit = (int)i; break; }
                if (hit < 0) {
                    auto& x = out.t[m]; x += c; if (x == 0) out.t.erase(m);
                } else {
                    any = true;
                    Mono r = m; int a = r[hit].first; int k = r[hit].second / 2; 
                    r[hit].second -= 2 * k; if (r[hit].second == 0) r.erase(r.begin() + hit);
                    const Poly& rep = sq.at(a);
                    Poly q; q.t[r] = c;
                    for (int i = 0; i < k; i++) q = pmulraw(q, rep);
                    out = padd(out, q);
                }
                if (out.t.size() > POLY_MAX) throw PolyLimit();
            }
            p = std::move(out);
            if (!any) return p;
            if (++guard > 200) throw PolyLimit();
        }
    }
};

inline Mono mcontent(const Poly& p) {
    Mono g; bool first = true;
    for (auto& [m, c] : p.t) {
        if (first) { g = m; first = false; continue; }
        Mono r; size_t i = 0, j = 0;
        while (i < g.size() && j < m.size()) {
            if (g[i].first < m[j].first) i++; else if (m[j].first < g[i].first) j++;
            else { r.push_back({g[i].first, std::min(g[i].second, m[j].second)}); i++; j++; }
        }
        g = r;
    }
    return g;
}
inline Poly mdiv(const Poly& p, const Mono& d) {
    Poly r;
    for (auto& [m, c] : p.t) {
        Mono q; size_t j = 0;
        for (auto& [a, e] : m) {
            while (j < d.size() && d[j].first < a) j++;
            int ee = e; if (j < d.size() && d[j].first == a) ee -= d[j].second;
            if (ee > 0) q.push_back({a, ee});
        }
        r.t[q] = c;
    }
    return r;
}
// exact division p / f; returns nullopt when not exact
inline std::optional<Poly> pdivexact(const Poly& p, const Poly& f) {
    if (p.zero()) return p;
    if (f.t.size() > 40 || p.t.size() > 1500) return std::nullopt;
    // std::map order on Mono is lexicographic on vectors: not a monomial order. Use graded-lex compare.
    auto deg = [](const Mono& m) { int s = 0; for (auto& x : m) s += x.second; return s; };
    auto less = [&](const Mono& a, const Mono& b) {
        int da = deg(a), db = deg(b); if (da != db) return da < db;
        // lex: smaller atom id is more significant, larger exponent is bigger
        size_t i = 0, j = 0;
        while (i < a.size() && j < b.size()) {
            if (a[i].first != b[j].first) return a[i].first > b[j].first;
            if (a[i].second != b[j].second) return a[i].second < b[j].second;
            i++; j++;
        }
        return false;
    };
    auto lead = [&](const Poly& q) { auto best = q.t.begin(); for (auto it = q.t.begin(); it != q.t.end(); ++it) if (less(best->first, it->first)) best = it; return best; };
    auto lf = lead(f);
    Poly rem = p, quo; int guard = 0;
    while (!rem.zero()) {
        auto lr = lead(rem);
        Mono q; size_t j = 0; bool ok = true;
        const Mono& fm = lf->first; const Mono& rm = lr->first;
        size_t i = 0;
        while (i < rm.size() || j < fm.size()) {
            if (j < fm.size() && (i >= rm.size() || fm[j].first < rm[i].first)) { ok = false; break; }
            if (j < fm.size() && fm[j].first == rm[i].first) { int e = rm[i].second - fm[j].second; if (e < 0) { ok = false; break; } if (e) q.push_back({rm[i].first, e}); i++; j++; }
            else { q.push_back(rm[i]); i++; }
        }
        if (!ok) return std::nullopt;
        Poly term; term.t[q] = lr->second / lf->second;
        quo = padd(quo, term);
        rem = padd(rem, pmulraw(term, f), -1);
        if (++guard > 3000) return std::nullopt;
    }
    return quo;
}

struct RFAlg {
    Rules rules;
    Poly mul(const Poly& a, const Poly& b) const { return rules.reduce(pmulraw(a, b)); }
    Poly denPoly(const std::map<Poly,int>& d) const {
        Poly r = Poly::c(1);
        for (auto& [f, e] : d) for (int i = 0; i < e; i++) r = mul(r, f);
        return r;
    }
    // add factor f^e to denominator, normalising constants/monomials
    void addDen(RF& r, Poly f, int e) const {
        if (f.isConst()) { mpq_class c = f.cval(); for (int i = 0; i < e; i++) r.n = pscale(r.n, 1 / c); return; }
        // make leading coefficient (first map entry) 1
        mpq_class lc = f.t.begin()->second;
        if (lc != 1) { f = pscale(f, 1 / lc); mpq_class k = 1; for (int i = 0; i < e; i++) k /= lc; r.n = pscale(r.n, k); }
        Mono mc = mcontent(f);
        if (!mc.empty() && f.t.size() >= 1) {
            Poly rest = mdiv(f, mc);
            for (auto& [a, x] : mc) r.d[Poly::a(a)] += x * e;
            if (!rest.isConst()) r.d[rest] += e;
        } else r.d[f] += e;
    }
    void cancel(RF& r) const {
        if (r.n.zero()) { r.d.clear(); return; }
        for (auto it = r.d.begin(); it != r.d.end();) {
            bool erased = false;
            while (it->second > 0) {
                auto q = pdivexact(r.n, it->first);
                if (!q) break;
                r.n = *q; it->second--;
                if (it->second == 0) { it = r.d.erase(it); erased = true; break; }
            }
            if (!erased) ++it;
        }
    }
    // even powers of an atom with a square rule in the denominator are replaced by the rule
    void normDen(RF& r) const {
        bool ch = true; int guard = 0;
        while (ch && guard++ < 50) { ch = false;
            for (auto it = r.d.begin(); it != r.d.end(); ++it) {
                if (it->second < 2 || it->first.t.size() != 1) continue;
                auto& m = it->first.t.begin()->first; if (m.size() != 1 || m[0].second != 1) continue;
                auto q = rules.sq.find(m[0].first); if (q == rules.sq.end()) continue;
                int k = it->second / 2; it->second -= 2 * k; Poly rep = rules.reduce(q->second); if (it->second == 0) r.d.erase(it);
                addDen(r, rep, k); cancel(r); ch = true; break;
            } }
    }
    RF fromPoly(const Poly& p) const { RF r; r.n = rules.reduce(p); return r; }
    RF add(const RF& a, const RF& b, int sgn = 1) const {
        RF r; std::map<Poly,int> l = a.d;
        for (auto& [f, e] : b.d) l[f] = std::max(l[f], e);
        Poly na = a.n, nb = b.n;
        for (auto& [f, e] : l) {
            auto ia = a.d.find(f); int ea = ia == a.d.end() ? 0 : ia->second;
            auto ib = b.d.find(f); int eb = ib == b.d.end() ? 0 : ib->second;
            for (int i = ea; i < e; i++) na = mul(na, f);
            for (int i = eb; i < e; i++) nb = mul(nb, f);
        }
        r.n = padd(na, nb, sgn); r.d = l; cancel(r);
        return r;
    }
    RF mulRF(const RF& a, const RF& b) const {
        RF x = a, y = b;
        // cross-cancel
        { RF t; t.n = x.n; t.d = y.d; cancel(t); x.n = t.n; y.d = t.d; }
        { RF t; t.n = y.n; t.d = x.d; cancel(t); y.n = t.n; x.d = t.d; }
        RF r; r.n = mul(x.n, y.n); r.d = x.d;
        for (auto& [f, e] : y.d) r.d[f] += e;
        if (r.n.zero()) r.d.clear();
        normDen(r);
        return r;
    }
    RF inv(const RF& a) const {
        if (a.n.zero()) throw PolyLimit();
        RF r; r.n = denPoly(a.d);
        addDen(r, a.n, 1); cancel(r); normDen(r);
        return r;
    }
    RF divRF(const RF& a, const RF& b) const { return mulRF(a, inv(b)); }
};
