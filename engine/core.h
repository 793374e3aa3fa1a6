#pragma once
#include "engine.h"
#include <unistd.h>
struct Opts { char mode = 'R'; bool snapPi = true; std::string tmpdir = "/tmp"; int extSecs = 20; int branchMs = 800; int assertMs = 8000; double budget = 300; u64 maxInst = 400000000ull; int maxPaths = 100000; int maxViol = 3; bool verbose = false; };
struct Stats { long queries = 0, cached = 0, trivial = 0, nsat = 0, nunsat = 0, nunk = 0, polyfail = 0, extq = 0, paths = 0, forks = 0; double solver_s = 0; u64 inst = 0; };
extern Opts O; extern Stats ST; double elapsed();
extern std::vector<z3::expr> varExpr;
z3::expr ratE(const mpq_class& q); z3::expr PIe(); z3::expr snap(double d);
extern RFAlg ALG; int atomId(const z3::expr& e); extern std::vector<z3::expr> atomExpr;
void addSqRule(const z3::expr& atom, const Poly& p);
z3::expr polyE(const Poly& p); z3::expr rfE(const RF& r); std::shared_ptr<RF> rfOf(const z3::expr& e); z3::expr canonR(const z3::expr& e); std::string rfKey(const RF& r);
z3::expr normCond(const z3::expr& e);
struct CheckRes { int r; std::shared_ptr<z3::model> m; };
CheckRes check(const std::vector<Sym*>& pc, const std::vector<z3::expr>& extra, int ms, bool wantModel = false, bool useExternal = false);
std::vector<Sym*> slice(const std::vector<Sym*>& pc, const std::vector<Sym*>& q);
