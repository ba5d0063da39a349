// C19: CallbackVerbose prints exactly one faithful row per iteration and never influences the solve.
#include "mc.hpp"
#include "hist.hpp"
#include <iomanip>

struct Capture {   // std::cout, with its formatting state
  std::ostringstream o; std::streambuf* old; std::ios f{nullptr};
  Capture() { f.copyfmt(std::cout); old = std::cout.rdbuf(o.rdbuf()); }
  ~Capture() { std::cout.rdbuf(old); std::cout.copyfmt(f); }
};
static std::string num(double v, int prec, bool sci) { char b[1024]; snprintf(b, sizeof b, sci ? "%.*e" : "%.*f", prec, v); return b; }
static std::vector<std::string> tokens(const std::string& l) { std::istringstream i(l); std::vector<std::string> t; std::string s; while (i >> s) t.push_back(s); return t; }
static std::vector<std::string> lines(const std::string& s) { std::vector<std::string> l; std::istringstream i(s); std::string x; while (std::getline(i, x)) l.push_back(x); return l; }
static std::string squeeze(const std::string& s) { std::string o; for (char c : s) if (!isspace(static_cast<unsigned char>(c))) o += c; return o; }
struct Want { bool header; size_t iter; std::vector<std::string> f; };
template <class S> static Want expect(S& s, crocoddyl::SolverAbstract& a, int prec) {
  Want w; w.header = a.get_iter() % 10 == 0; w.iter = a.get_iter();
  w.f.push_back(std::to_string(a.get_iter()));
  if constexpr (Tr<S>::ddpf) {
    w.f.push_back(num(s.get_cost(), prec, true)); w.f.push_back(num(s.get_steplength(), prec, true)); w.f.push_back(num(s.get_KKT(), prec, true));
  } else {
    const bool conv = s.get_KKT() < s.get_termination_tolerance();
    w.f.push_back(num(s.get_merit(), prec, true)); w.f.push_back(num(s.get_cost(), prec, true)); w.f.push_back(num(s.get_gap_norm(), prec, true));
    if constexpr (Tr<S>::csqp) { w.f.push_back(num(s.get_constraint_norm(), prec, true)); w.f.push_back(conv ? "----" : num((s.get_xgrad_norm() + s.get_ugrad_norm()) / 2, prec, true)); }
    w.f.push_back(conv ? "----" : num(s.get_steplength(), prec, !Tr<S>::csqp));
    w.f.push_back(num(s.get_KKT(), prec, true));
    if constexpr (Tr<S>::csqp) w.f.push_back(conv ? "-----" : num(double(s.get_qp_iters()), 0, false));
  }
  return w;
}
template <class S> static const char* header() {
  return Tr<S>::csqp ? "itermeritcost||gaps||||Constraint||||(dx,du)||stepKKTcriteriaQPiters" : Tr<S>::sqp ? "itermeritcost||gaps||stepKKTcriteria" : "itercoststepKKTcriteria";
}
static bool dashes(const std::string& s) { return s.size() >= 3 && s.find_first_not_of('-') == std::string::npos; }
static bool field(const std::string& got, const std::string& want) { return dashes(want) ? dashes(got) : got == want; }

// a problem whose solve takes many iterations, and one with extreme numbers
static pb::Prob problem(int k, bool con, int& N, Opt& o) {
  pb::Shape s; s.T = 2; s.n = 1 + k % 2; s.m = {1, 2};
  if (con) s.rows = {{pb::UPPER}, {pb::TWO, pb::LOWER}, {pb::UPPER}}; else s.rows.assign(3, {});
  s.nlf = 0.9; s.nlx = 2; s.nlu = 0.3; s.hs = k == 0 ? 0.2 : k == 1 ? 1 : 0.4; s.curv = k == 3 ? 1e9 : k == 4 ? 1e-9 : 1;
  (void)N; (void)o;
  return pb::make(s);
}
template <class S> static void rows(mc::Ctx& c) {
  const bool th = c.thorough;
  const int k = c.choose(5);
  Opt o; if constexpr (!std::is_same<S, SolverDDP>::value) o.ls = c.choose(2);
  if constexpr (Tr<S>::extra) o.extra = c.flag();
  o.tol = c.pick(std::vector<double>{1e-8, 1e-2, -1});
  o.qp = c.flag() ? 7 : 200;
  const int nanat = c.choose(th ? 8 : 4);  // the n-th evaluation of the terminal node fails (0: none)
  if (nanat == 1) o.alphas = {1, 1. / 512, 1. / 4096};
  const int gk = c.choose(2);
  c.shard();
  const int N = c.pick(std::vector<int>{0, 1, 3, 12, 23});
  const int kind = c.choose(4);  // 0 alone, 1 two printing callbacks, 2 precision changed during the solve, 3 left-over stream state
  const std::vector<int> precs = kind ? std::vector<int>{3, 6} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 12};
  const int prec = c.pick(precs);
  int n_ = N; const pb::Prob p = problem(k, Tr<S>::con, n_, o);
  c.cfg = mc::cat(Tr<S>::name(), "problem ", k, " ls", o.ls, " extra", o.extra, " tol ", o.tol, " qp ", o.qp, " failing evaluation ", nanat, " guess", gk, " maxiter ", N, " kind", kind, " precision ", prec);
  Traj xs, us; pb::guess(p, gk, 0, xs, us, k == 2 ? 40.0 : 1.2);
  auto fault = [&](Rig<S>& r, int& n) { r.f.calc = [&r, &n, nanat](int node, crocoddyl::ActionDataAbstract& d) { if (node == r.p.T() && nanat && n++ == 2 * nanat) d.cost = pb::NANV; }; };
  // plain
  Rig<S> a(p); a.opts(o); int na = 0; fault(a, na);
  const int ra = a.solve(xs, us, size_t(N)); const Log la = a.result(ra);
  // with the callback
  Rig<S> b(p); b.opts(o); int nb = 0; fault(b, nb);
  auto own = b.s->getCallbacks();
  auto v1 = std::make_shared<mim_solvers::CallbackVerbose>(kind == 2 ? 1 : prec); auto v2 = std::make_shared<mim_solvers::CallbackVerbose>(std::abs(8 - prec));
  c.check(v1->get_precision() == (kind == 2 ? 1 : prec), "precision-not-stored", "");
  std::vector<Want> w;
  int cur = kind == 2 ? 1 : prec;
  auto probe = callback([&](crocoddyl::SolverAbstract& s, const std::string&) {
    w.push_back(expect(*b.s, s, cur)); if (kind == 1) w.push_back(expect(*b.s, s, 8 - prec));
    if (kind == 2 && w.size() % 2) { cur = (cur + prec) % 9; v1->set_precision(cur); }
  });
  typename std::decay<decltype(own)>::type cb{own[0], v1};
  if (kind == 1) cb.push_back(v2);
  cb.push_back(probe);
  b.s->setCallbacks(cb);
  int rb; std::string out;
  { Capture cap; if (kind == 3) std::cout << std::hexfloat << std::setprecision(17); rb = b.solve(xs, us, size_t(N)); out = cap.o.str(); }
  const Log lb = b.result(rb);
  c.transition(w.size());
  c.check(ra == rb && diff(la, lb) == "", "printing-changes-the-solve", diff(la, lb));
  const auto L = lines(out);
  size_t i = 0; bool ok = true;
  for (size_t j = 0; j < w.size() && ok; ++j) {
    if (w[j].header) ok = c.check(i < L.size() && squeeze(L[i]) == header<S>(), "header-wrong", mc::cat("before row ", j, ": '", i < L.size() ? L[i] : "", "'")), ++i;
    if (!ok) break;
    if (!c.check(i < L.size(), "row-missing", mc::cat("row ", j, " of ", w.size()))) { ok = false; break; }
    const auto t = tokens(L[i]); bool same = t.size() == w[j].f.size();
    for (size_t q = 0; same && q < t.size(); ++q) same = field(t[q], w[j].f[q]);
    std::string ws; for (auto& f : w[j].f) ws += f + " ";
    ok = c.check(same, "row-wrong", mc::cat("iteration ", w[j].iter, ": '", L[i], "' should be '", ws, "'"));
    ++i;
  }
  if (ok) c.check(i == L.size(), "more-output-than-rows", mc::cat(L.size(), " lines, ", w.size(), " rows"));
  c.check(out.empty() || out.back() == '\n', "row-not-terminated", "");
  if (w.size() > 1) c.nontrivial++;
  c.stat(w.size() > 20 ? "more than 20 rows" : w.size() > 10 ? "11 to 20 rows" : w.size() ? "1 to 10 rows" : "no row");
  c.state(mc::mix(mc::hstr(out), uint64_t(k))); c.traces++;
  c.sample(c.cfg);
}
template <class S> static void rejects(mc::Ctx& c) {
  const int N = c.choose(24), which = c.choose(4);
  c.shard();
  Opt o; o.tol = -1; int n_ = N; const pb::Prob p = problem(1, Tr<S>::con, n_, o);
  c.cfg = mc::cat(Tr<S>::name(), "direct call ", which, " after ", N, " iterations");
  Rig<S> r(p); r.opts(o); Traj xs, us; pb::guess(p, 1, 0, xs, us, 1.2); r.solve(xs, us, size_t(N));
  mim_solvers::CallbackVerbose v; bool threw = false; std::string out;
  { Capture cap;
    try { if (which == 0) v(*r.s); else v(*r.s, which == 1 ? "KKT" : which == 2 ? "" : "unknown"); } catch (std::exception&) { threw = true; }
    out = cap.o.str(); }
  if (which == 0) c.check(threw && out.empty(), "call-without-type-not-rejected", out);
  else if (r.s->get_iter() % 10 == 0) c.check(threw && out.empty(), "unsupported-type-not-rejected", out);
  else c.check(threw || tokens(out).size() == 1, "row-for-an-unsupported-type", out);
  // still of use afterwards
  { Capture cap; int again; try { v(*r.s, Tr<S>::csqp ? "CSQP" : Tr<S>::sqp ? "SQP" : Tr<S>::fddp ? "FDDP" : "DDP"); again = 0; } catch (std::exception&) { again = 1; }
    c.check(again == 0, "unusable-after-rejection", "");
    const auto L = lines(cap.o.str()); const Want w = expect(*r.s, *r.s, 3);
    if (c.check(L.size() == (w.header ? 2u : 1u), "row-missing", "")) { const auto t = tokens(L.back()); bool same = t.size() == w.f.size(); for (size_t q = 0; same && q < t.size(); ++q) same = field(t[q], w.f[q]); c.check(same, "row-wrong", L.back()); } }
  for (int bad : {-1, -1000}) {
    bool t1 = false, t2 = false;
    try { mim_solvers::CallbackVerbose q(bad); } catch (std::exception&) { t1 = true; }
    try { v.set_precision(bad); } catch (std::exception&) { t2 = true; }
    c.check(t1 && t2, "negative-precision-accepted", ""); c.check(v.get_precision() == 3, "precision-changed-by-rejected-value", "");
  }
  c.state(mc::mix(uint64_t(N), uint64_t(which))); c.traces++; c.transition();
}
// the other printing switches: SolverCSQP's QP output and SolverPROXQP's output
template <class S> static void switches(mc::Ctx& c) {
  const int k = c.choose(5), N = c.pick(std::vector<int>{0, 1, 3, 12}), gk = c.choose(3), sw = c.choose(Tr<S>::csqp ? 2 : 1);
  Opt o; o.ls = c.choose(2); o.qp = c.flag() ? 30 : 200; o.tol = c.pick(std::vector<double>{1e-6, 1e-2}); o.interval = c.flag() ? 5 : 1;
  c.shard();
  int n_ = N; const pb::Prob p = problem(k, true, n_, o);
  c.cfg = mc::cat(Tr<S>::name(), "printing switch, problem ", k, " maxiter ", N, " guess", gk, " ls", o.ls);
  Traj xs, us; pb::guess(p, gk, 0, xs, us, 1.2);
  Rig<S> a(p), b(p); a.opts(o); b.opts(o);
  const int ra = a.solve(xs, us, size_t(N)); const Log la = a.result(ra);
  if constexpr (Tr<S>::csqp) b.s->setQPCallbacks(true); else b.s->setCallbacks(true);
  int rb; std::string out; { Capture cap; rb = b.solve(xs, us, size_t(N)); out = cap.o.str(); }
  const Log lb = b.result(rb);
  c.check(ra == rb && diff(la, lb) == "", "printing-changes-the-solve", diff(la, lb));
  if constexpr (Tr<S>::prox) {
    size_t n = 0; for (auto& l : lines(out)) if (l.find("iter") == std::string::npos) ++n;
    c.check(n <= size_t(N) && (rb != 1 || n == b.s->get_iter() + 1), "not-one-row-per-iteration", mc::cat(n, " rows, ", b.s->get_iter()));
  }
  (void)sw;
  c.state(mc::mix(mc::hstr(out), uint64_t(N))); c.traces++; c.transition();
}
static void body(mc::Ctx& c) {
  switch (c.choose(10)) {
    case 0: rows<SolverSQP>(c); break; case 1: rows<SolverCSQP>(c); break; case 2: rows<SolverDDP>(c); break; case 3: rows<SolverFDDP>(c); break;
    case 4: rejects<SolverSQP>(c); break; case 5: rejects<SolverCSQP>(c); break; case 6: rejects<SolverDDP>(c); break; case 7: rejects<SolverFDDP>(c); break;
    case 8: switches<SolverCSQP>(c); break; default: switches<SolverPROXQP>(c);
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C19",
    "exhaustive enumeration of solves with a printing callback; every line of the captured output compared with the solver's getters at that moment, and every solve with the same solve without printing",
    "4 solvers, 5 problems incl. large and small numbers, 2 line searches, extra iteration, 3 tolerances, 2 QP limits, a failing evaluation at one of 3 points, iteration limits 0, 1, 3, 12, 23, precisions 0..6 and 12, two callbacks at once, precision changed during the solve, left-over stream state; direct calls with every iteration count up to 23",
    "as quick with 7 failing evaluations", {"columns are compared as tokens, not by their padding"}}, body);
}
