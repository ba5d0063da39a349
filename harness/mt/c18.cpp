// C18: compiled with multithreading, the solvers compute the same results for every number and schedule of the threads.
// Linked against the controlled OpenMP runtime omp_rt.cpp.
#include "mc.hpp"
#include "hist.hpp"
#include "omp_rt.hpp"

static std::vector<std::vector<int>> perms(int n) {
  std::vector<int> p; for (int i = 0; i < n; ++i) p.push_back(i);
  std::vector<std::vector<int>> o; do o.push_back(p); while (std::next_permutation(p.begin(), p.end()));
  return o;
}
// The cost (or another quantity) of some nodes is not finite at given points; a pure function of node and point, so that
// it does not depend on the schedule.
struct Fault : pb::Hooks {
  std::vector<std::vector<VectorXd>> at, seen; bool learn = false; int what = 0;
  void on_calc(int t, crocoddyl::ActionDataAbstract& d, const VectorXd& x, const VectorXd&) override {
    if (learn) { for (auto& y : seen[size_t(t)]) if ((x - y).lpNorm<Eigen::Infinity>() < 1e-9) return; seen[size_t(t)].push_back(x); return; }
    if (at.empty()) return;
    for (auto& y : at[size_t(t)]) if ((x - y).lpNorm<Eigen::Infinity>() < 1e-9) { if (what == 0) d.cost = pb::NANV; else if (what == 1) d.xnext[0] = pb::NANV; else if (what == 2 && d.g.size()) d.g[0] = pb::NANV; else d.cost = pb::INF; }
  }
};
struct Out { Log log; int ret = 0; bool term = false; double small = 1; };
typedef std::function<std::vector<int>(const mt::Region&, long)> Order;
template <class S> struct Run {
  const pb::Prob& p; Opt o; double eps = 0; bool heur = false, twice = false; Fault* f; int kind = 0; size_t N = 3; double reg = pb::NANV;
  Out go(int threads, const Order& order, bool direct, double perturb) {
    Out out;
    pb::Prob q = p; for (int i = 0; i < q.x0.size(); ++i) q.x0[i] += perturb * (i + 1);
    Rig<S> k(q);
    for (auto& m : k.b.models) m->hooks = f;
    std::streambuf* e = std::cerr.rdbuf(nullptr); k.b.problem->set_nthreads(threads); std::cerr.rdbuf(e);
    k.opts(o);
    if constexpr (Tr<S>::con) k.s->set_eps_abs(eps);
    if constexpr (Tr<S>::csqp) k.s->update_rho_with_heuristic_ = heur;
    Traj xs, us; pb::guess(q, kind, 0, xs, us, 0.6);
    mt::order = order;
    if (setjmp(mt::escape)) out.term = true;  // what was under construction is leaked
    else {
      for (int r = 0; r < (twice ? 2 : 1); ++r) {
        if (direct) {
          k.s->setCandidate(xs, us, false); k.log.clear();
          try { k.s->computeDirection(true); out.ret = 1; k.s->tryStep(0.5); k.s->tryStep(1); } catch (std::exception&) { out.ret = -1; }
        } else out.ret = k.solve(xs, us, N, reg);
      }
    }
    mt::order = nullptr;
    if (out.term) return out;
    out.log = k.result(out.ret);
    const size_t L = Tr<S>::con ? 13 : 9; for (size_t i = 0; i + L <= k.log.size(); i += L) out.small = std::min(out.small, k.log[i + 5] + k.log[i + 6]);
    auto vec = [&](const std::vector<VectorXd>& v) { for (auto& x : v) for (int i = 0; i < x.size(); ++i) out.log.push_back(x[i]); };
    auto mat = [&](const auto& v) { for (auto& x : v) for (Eigen::Index j = 0; j < x.cols(); ++j) for (Eigen::Index i = 0; i < x.rows(); ++i) out.log.push_back(x(i, j)); };
    if constexpr (Tr<S>::csqp) { vec(k.s->get_dx_tilde()); vec(k.s->get_du_tilde()); vec(k.s->get_y()); vec(k.s->get_z()); vec(k.s->get_rho_vec()); }
    if constexpr (Tr<S>::extra) { vec(k.s->get_dx()); vec(k.s->get_du()); vec(k.s->lag_mul_); mat(k.s->get_Vxx()); vec(k.s->get_Vx()); mat(k.s->get_K()); vec(k.s->get_k()); }
    return out;
  }
};

template <class S> static void run(mc::Ctx& c) {
  const bool th = c.thorough;
  const int part = c.choose(3);  // 0 solves, 1 the inner solver alone, 2 trials that are not finite
  if ((!Tr<S>::csqp && part == 1) || (Tr<S>::prox && part == 2)) return;
  pb::Shape s; s.T = 1 + c.choose(th ? 5 : part == 2 ? 3 : 4); s.n = 1 + c.choose(2);
  const int mp = c.choose(part == 2 ? 2 : 4);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mp == 0 ? 1 : mp == 1 ? 2 - t % 2 : mp == 2 ? (t % 2 ? 0 : 2) : (t % 2));
  bool any = false; for (int m : s.m) any = any || m; if (!any) return;
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  const int rp = Tr<S>::con ? c.choose(part == 2 ? 2 : 4) : 0;
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(rp == 0 ? 0 : rp == 1 ? (t % 2 ? 1 : 2) : rp == 2 ? (t == s.T ? 3 : t % 3 == 1 ? 0 : 1) : (t == s.T - 1 ? 2 : 0))]);
  s.nlf = 0.5; s.nlx = 0.4; s.nlu = 0.3; s.nlg = Tr<S>::con && rp == 1 ? 0.3 : 0; s.hs = 0.7; s.dev = 0.3;
  s.circle = s.n == 2 && mp == 1;
  const pb::Prob p = pb::make(s);
  Fault f; f.seen.assign(size_t(s.T) + 1, {});
  Run<S> r{p}; r.f = &f;
  Opt& o = r.o;
  if constexpr (Tr<S>::csqp) {
    const int v = c.choose(part == 2 ? 2 : th ? 6 : 4);
    o.interval = v == 0 ? 1 : v == 1 ? 2 : 25; r.heur = v == 1; o.eqg = v != 2; o.rrho = v == 3; o.qp = v == 4 ? 1 : v == 5 ? 40 : 7; r.eps = v == 3 ? 1e-6 : 0; if (v == 3) { o.interval = 3; o.qp = 60; }
  } else r.eps = 1e-9;
  if (part != 1) { o.ls = c.choose(Tr<S>::csqp ? 3 : 2); if constexpr (Tr<S>::extra) o.extra = c.flag(); r.N = part == 2 ? 2 : 3; }
  else r.reg = pb::NANV;
  r.twice = part == 0 && o.ls == 1;
  r.kind = part == 0 ? c.choose(2) : 1;
  o.tol = 1e-8; o.mu = 5;
  int nt = 2 + c.choose(std::min(3, s.T > 1 ? s.T - 1 : 1) + (s.T == 1 && th ? 1 : 0));
  c.shard();
  const bool direct = part == 1;
  std::string fault;
  if (part == 2) {
    // learn the trial points from a single-threaded solve
    f.learn = true; Out l = r.go(1, nullptr, false, 0); f.learn = false;
    const int which = c.choose(th ? 3 : 2), node = c.choose(s.T + 1), second = c.choose(2), what = c.choose(Tr<S>::con && rp ? 4 : 3);
    f.what = what == 2 && !(Tr<S>::con && rp) ? 3 : what; f.at.assign(size_t(s.T) + 1, {});
    if (f.what == 1 && node == s.T) return;
    for (int t : {node, second ? (node + s.T / 2 + 1) % (s.T + 1) : node}) if (f.seen[size_t(t)].size() > size_t(which) + (t > 0 ? 1 : 0) && !(f.what == 1 && t == s.T)) f.at[size_t(t)].push_back(f.seen[size_t(t)][size_t(which) + (t > 0 ? 1 : 0)]);
    fault = mc::cat(" not finite: trial ", which, " node ", node, second ? " and another" : "", " what ", f.what);
    if (f.at[size_t(node)].empty()) { c.stat("fault point not reached"); return; }
  }
  c.cfg = mc::cat(Tr<S>::name(), direct ? "inner solver " : "solve ", s.str(), " interval ", o.interval, " heur ", r.heur, " eqg ", o.eqg, " qp ", o.qp, " ls ", o.ls, " extra ", o.extra, " kind ", r.kind, fault);
  c.note();
  // reference: one thread, and its sensitivity to rounding
  static std::string last; static Out ref, alt; static size_t N;
  if (last != c.cfg) {
    last = c.cfg;
    ref = r.go(1, nullptr, direct, 0);
    // steps at the level of rounding errors are not compared
    while (!ref.term && ref.small < 1e-7 && r.N > 1 && !direct) { --r.N; ref = r.go(1, nullptr, direct, 0); }
    N = r.N;
    if (!ref.term) alt = r.go(1, nullptr, direct, 1e-12);
  }
  r.N = N;
  mt::reset();
  if (!c.check(!ref.term, "exception-leaves-parallel-region", "with one thread the process would be terminated by an exception inside a parallel region")) return;
  const std::string cfg0 = c.cfg;
  c.cfg = mc::cat(cfg0, " threads ", nt);
  const auto P = perms(nt);
  const size_t a = th || part != 2 ? size_t(c.choose(int(P.size()))) : c.choose(2) ? P.size() - 1 : 0;
  const size_t b = th && part != 2 ? size_t(c.choose(int(P.size()))) : P.size() - 1 - a;  // order of every second region
  long k = 0;
  std::string ord; for (int x : P[a]) ord += std::to_string(x); ord += "/"; for (int x : P[b]) ord += std::to_string(x);
  c.cfg += mc::cat(" order ", ord); c.note();
  const long reg0 = mt::regions;
  const Out got = r.go(nt, [&](const mt::Region& q, long) { if (q.n != nt) return std::vector<int>(); return (k++ & 1) ? P[b] : P[a]; }, direct, 0);
  c.transition(uint64_t(mt::regions - reg0)); c.state(mc::hstr(c.cfg)); c.traces++;
  c.stat("parallel regions", uint64_t(mt::regions - reg0));
  if (!c.check(mt::nraces == 0, "data-race", mt::races.empty() ? "" : mt::races[0])) return;
  if (!c.check(!got.term, "exception-leaves-parallel-region", "the process would be terminated by an exception inside a parallel region")) return;
  // results up to rounding
  if (part == 2) c.stat(ref.ret == 1 ? "converged with skipped trials" : "not converged with skipped trials");
  bool stable = alt.log.size() == ref.log.size();
  if (stable) for (size_t i = 0; i < ref.log.size(); ++i) { const double d = std::fabs(ref.log[i] - alt.log[i]); if (d > 1e-6 * (1 + std::fabs(ref.log[i]))) stable = false; }
  if (ref.small < 1e-7) { c.stat("not compared: at a solution"); return; }
  if (!stable) { c.stat("not compared: sensitive to rounding"); return; }
  c.nontrivial++;
  if (!c.check(got.log.size() == ref.log.size(), "other-course", mc::cat("the log has ", got.log.size(), " entries, ", ref.log.size(), " with one thread"))) return;
  if (getenv("DUMP")) for (size_t i = 0; i < ref.log.size() && i < 120; ++i) printf("%zu %.12g %.12g %.12g\n", i, ref.log[i], got.log[i], alt.log[i]);
  double worst = 0; std::string w;
  for (size_t i = 0; i < ref.log.size(); ++i) {
    const double x = ref.log[i], y = got.log[i];
    if (x == y || (std::isnan(x) && std::isnan(y))) continue;
    const double tol = 1e-9 * (1 + std::fabs(x)) + 1e3 * (std::isfinite(alt.log[i]) ? std::fabs(alt.log[i] - x) : 0);
    const double d = std::fabs(x - y);
    if (!(d <= tol)) { if (w.empty()) w = mc::cat("entry ", i, " of the log is ", y, ", with one thread ", x, " (tolerance ", tol, ")"); }
    worst = std::max(worst, d);
  }
  c.check(w.empty(), "other-result", w);
  if (worst > 0) c.stat("differs by rounding"); else c.stat("identical");
  if (a == 0) c.sample(mc::cat(c.cfg, ": ", mt::regions - reg0, " regions"));
}

int main(int argc, char** argv) {
  crocoddyl::enableMultithreading() = true;
  return mc::main_check(argc, argv, {"C18", "every solve of the configuration space (problems, options, failing trials) compiled with multithreading, run under a controlled OpenMP runtime: every number of threads, every order of the threads (independently for odd and even regions in the thorough tier); footprints of all memory accesses of every region checked for conflicts",
    "T <= 4, 2..4 threads, all orders (reversed in every second region)", "T <= 5, 2..4 threads, all pairs of orders", {"an action model does not throw inside a parallel region (the OpenMP standard, and crocoddyl itself, end the process then)", "accesses inside libcrocoddyl and the C library are not recorded, except memcpy, memmove, memset and free"}},
    [](mc::Ctx& c) { const int s = c.choose(3); if (s == 0) run<SolverCSQP>(c); else if (s == 1) run<SolverSQP>(c); else run<SolverPROXQP>(c); });
}
