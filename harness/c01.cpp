// C01: solve() returning true certifies a KKT point; it returns true exactly at the first reported residual below the tolerance.
#include "mc.hpp"
#include "mon.hpp"
using namespace mon;

enum DF { D_NONE, D_LX, D_LU, D_FX, D_FU, D_LXX, D_GX, D_GU, D_G, D_XNEXT, D_LUU, D_COUNT };

static void poison(crocoddyl::ActionDataAbstract& d, int kind, int node, int T, bool last) {
  const double N = pb::NANV;
  auto v = [&](auto&& m) { if (m.size()) { if (last) m(m.rows() - 1, m.cols() - 1) = N; else m(0, 0) = N; } };
  switch (kind) {
    case D_LX: v(d.Lx); break;
    case D_LU: if (node < T) v(d.Lu); break;
    case D_FX: if (node < T) v(d.Fx); break;
    case D_FU: if (node < T) v(d.Fu); break;
    case D_LXX: v(d.Lxx); break;
    case D_LUU: if (node < T) v(d.Luu); break;
    case D_GX: v(d.Gx); break;
    case D_GU: if (node < T) v(d.Gu); break;
    case D_G: v(d.g); break;
    case D_XNEXT: if (node < T) v(d.xnext); break;
    default: break;
  }
}

template <class S> struct Run {
  static constexpr bool csqp = std::is_same<S, SolverCSQP>::value, prox = std::is_same<S, SolverPROXQP>::value, con = csqp || prox;
  static const char* name() { return csqp ? "CSQP " : prox ? "PROXQP " : "SQP "; }
  mc::Ctx& c; const pb::Prob& p; double tol;
  rec::Recorder r; pb::Built b; S sol;
  std::vector<double> kkts, mine;
  explicit Run(mc::Ctx& c_, const pb::Prob& p_, double t) : c(c_), p(p_), tol(t), b(pb::build(p_, &r)), sol(b.problem) {
    rec::attach(r, sol);
    sol.set_termination_tolerance(tol);
    if constexpr (csqp) { sol.set_eps_abs(1e-10); sol.set_eps_rel(0); sol.set_max_qp_iters(c.thorough ? 2000 : 700); }
    if constexpr (prox) { sol.set_max_qp_iters(c.thorough ? 1000 : 200); sol.set_eps_abs(std::min(1e-9, tol * 1e-2)); sol.set_eps_rel(0); }
    if constexpr (!prox)
      sol.setCallbacks({callback([&](crocoddyl::SolverAbstract&, const std::string&) {
        c.transition();
        kkts.push_back(sol.get_KKT());
        const pb::Eval e = pb::evaluate(p, sol.get_xs(), sol.get_us());
        mine.push_back(e.finite ? mon::kkt(sol, p, e, pb::linearise(p, sol.get_xs(), sol.get_us())) : pb::NANV);
      })});
  }
  void alphas(const std::vector<double>& a) { std::streambuf* o = std::cerr.rdbuf(nullptr); sol.set_alphas(a); std::cerr.rdbuf(o); }
  int solve(const Traj& xs, const Traj& us, size_t N) {
    r.start(p.T()); kkts.clear(); mine.clear();
    try { return sol.solve(xs, us, N, false, pb::NANV); } catch (std::exception&) { return -1; }
  }
  // the returned point, judged from the problem alone
  void certified(const char* where, bool stat_too = true) {
    const Traj &xs = sol.get_xs(), &us = sol.get_us();
    const double d0 = maxabs({xs[0]}, {pb::Model::embed(p.x0, p.circle)});
    c.check(d0 <= (p.circle ? 1e-14 : 0), "certified-with-wrong-x0", mc::cat(where, " by ", d0));  // the circle rounds
    const pb::Eval e = pb::evaluate(p, xs, us);
    if (!c.check(e.finite, "certified-non-finite", mc::cat(where, " xs ", pb::show(xs), " us ", pb::show(us)))) return;
    const double slack = 1e-9 + 1e-6 * tol;
    c.check(e.gapinf <= tol + slack, "certified-with-gap", mc::cat(where, " gap ", e.gapinf, " tol ", tol));
    if (con) c.check(e.coninf <= tol + slack, "certified-with-violation", mc::cat(where, " violation ", e.coninf, " tol ", tol));
    if (!stat_too) return;
    const pb::Lin L = pb::linearise(p, xs, us);
    const double st = pb::stationarity(p, xs, us, 1e3 * tol + 1e-6);
    double scale = 1 + rec::lagmax(sol);
    c.check(st <= pb::kkt_gain(p, L) * tol * 1.001 + 1e-7 * scale, "certified-not-stationary", mc::cat(where, " residual ", st, " allowed ", pb::kkt_gain(p, L) * tol, " tol ", tol, " xs ", pb::show(xs), " us ", pb::show(us)));
  }
  void judge(int ok, size_t N, bool extra, bool faulty) {
    if constexpr (!prox) {
      const size_t n = kkts.size();
      for (size_t i = 0; i < n; ++i) {
        const bool last = i + 1 == n;
        if (!last || ok != 1) c.check(!(kkts[i] <= tol), "continued-below-tolerance", mc::cat("iteration ", i, " KKT ", kkts[i]));
        // the verdict against the residual recomputed here (outside a band of rounding)
        if (!faulty && !std::isnan(mine[i])) {
          const double band = 1e-8 * (1 + std::fabs(mine[i]));
          if (mine[i] < tol - band) c.check(last && ok == 1, "converged-but-not-reported", mc::cat("iteration ", i, " residual ", mine[i]));
          if (mine[i] > tol + band) c.check(!(last && ok == 1), "reported-but-not-converged", mc::cat("iteration ", i, " residual ", mine[i]));
        }
      }
      if (ok == 1) c.check(n > 0 && kkts.back() <= tol, "true-without-residual", mc::cat(n, " callbacks"));
      c.check(n <= N + (extra ? 1 : 0), "too-many-iterations", "");
    } else {
      (void)N; (void)extra; (void)faulty;
      if (ok == 1) c.check(sol.get_KKT() <= tol, "true-above-tolerance", mc::cat(sol.get_KKT()));
      if (ok == 0 && N > 0 && r.its.size() < N) c.stat("stopped early");
    }
  }
};

// everything is flat and consistent but for one source of residual: the verdict hangs on that one alone
template <class S> static void single(mc::Ctx& c) {
  typedef Run<S> R;
  pb::Shape s;
  s.T = 1 + c.choose(c.thorough ? 4 : 3); s.n = 1 + c.choose(c.thorough ? 3 : 2);
  const int mpat = c.choose(2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 1 + (t + 1) % 2);
  const int src = c.choose(R::con ? 4 : 3);  // a gap, the cost of the state, the cost of the control, a constraint row
  const int node = src == 0 || src == 1 ? 1 + c.choose(s.T) : src == 2 ? c.choose(s.T) : c.choose(s.T + 1);
  s.rows.assign(size_t(s.T) + 1, {});
  const int rowkind = src == 3 ? c.choose(4) : 0;
  const int other = src == 3 ? c.choose(3) : 0;  // a second, unbounded row: none, after, before
  if (src == 3) {
    s.rows[size_t(node)] = {rowkind == 0 ? int(pb::UPPER) : rowkind == 1 ? int(pb::LOWER) : rowkind == 2 ? int(pb::EQUAL) : int(pb::TWO)};
    if (other) s.rows[size_t(node)].insert(s.rows[size_t(node)].begin() + (other == 1), int(pb::FREE));
  }
  const int nl = c.choose(2);
  if (nl) { s.nlf = 0.5; if (src == 3) s.nlg = 0.3; }
  s.circle = nl == 1 && c.flag();
  s.variant = c.choose(c.thorough ? 8 : 4); s.curv = 1e-4; s.dev = 0.3;
  const int comp = src == 3 ? 0 : c.choose(src == 2 ? s.m[size_t(node)] : s.n);
  const double sign = c.flag() ? -1 : 1;
  const bool extra = !R::prox && c.flag();
  const size_t N = c.pick(std::vector<size_t>{1, 0, 25});
  if (N == 0 && !extra) return;
  const int ls = c.choose(2);
  c.shard();
  c.cfg = mc::cat(R::name(), s.str(), " single source ", src, " node ", node, " component ", comp, " sign ", sign, " extra ", extra, " N", N, " ls", ls);
  pb::Prob p = pb::make(s);
  for (int t = 0; t <= s.T; ++t) { pb::Node& k = t < s.T ? p.run[size_t(t)] : p.term; k.q.setZero(); k.r.setZero(); }
  Traj xs, us;
  pb::Node& k = node < s.T ? p.run[size_t(node)] : p.term;
  pb::guess(p, 2, s.variant, xs, us, 0.5);
  if (src == 0) {  // the tail of the guess is shifted by a roll-out from a state that is off the trajectory
    VectorXd x = p.x0;
    for (int t = 0; t < s.T; ++t) {
      x = p.run[size_t(t)].f(x, us[size_t(t)]);
      if (t + 1 == node) x[comp] += sign;
      xs[size_t(t + 1)] = pb::Model::embed(x, p.circle);
    }
  }
  if (src == 1) { k.Q(comp, comp) += 1; k.q[comp] = sign; }
  if (src == 2) { k.R(comp, comp) += 1; k.r[comp] = sign; }
  if (src == 3 && k.ng()) { k.lb[other == 2] += sign; k.ub[other == 2] += sign; }
  R r(c, p, 1e-2);
  r.sol.set_use_filter_line_search(ls == 0);
  if constexpr (!R::prox) r.sol.set_extra_iteration_for_last_kkt(extra);
  const int ok = r.solve(xs, us, N);
  c.traces++;
  r.judge(ok, N, extra, false);
  if (ok == 1) { c.nontrivial++; r.certified("solve", false); c.stat("certified"); } else c.stat("not certified");
  c.check(ok != -1, "exception", "");
  if (!r.mine.empty() && !(r.mine[0] < 1e-2)) c.stat("single sources above the tolerance");
  c.state(mc::mix(mc::hdbl(r.sol.get_KKT()), r.r.its.size()));
  c.sample(c.cfg);
}

template <class S> static void run(mc::Ctx& c) {
  typedef Run<S> R;
  if (c.flag()) return single<S>(c);
  const bool th = c.thorough;
  constexpr bool con = R::con, prox = R::prox, csqp = R::csqp;
  const int part = c.choose(3);  // 0 options and guesses, 1 failing trials, 2 non-finite evaluations
  pb::Shape s;
  s.T = 1 + c.choose(part == 2 ? 2 : 3); s.n = 1 + c.choose(2);
  const int mpat = c.choose(part == 2 ? 2 : 3);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 1 + (t + 1) % 2 : t % 3);
  if (mpat == 2) { bool z = true; for (int m : s.m) z = z && m == 0; if (z) return; }
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  if (con && part == 0) for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[size_t(c.choose(th ? 4 : s.T == 3 ? 2 : 3))]);
  else if (con) { const int rp = c.choose(2); for (int t = 0; t <= s.T; ++t) s.rows.push_back(rp ? CLS[size_t(1 + t % 2)] : CLS[t == s.T ? 3 : 0]); }
  else s.rows.assign(size_t(s.T) + 1, {});
  const int nl = c.choose(part == 0 ? 3 : 2);
  if (nl) { s.nlf = 0.5; s.nlx = 0.6; s.nlu = 0.2; s.nlg = con ? 0.3 : 0; s.hs = nl == 2 ? 0.5 : 1; }
  s.circle = part == 0 && nl == 1 && c.flag();
  s.variant = c.choose(th ? 3 : 1);
  s.dev = 0.3;
  const pb::Prob p = pb::make(s);
  Traj xs, us;
  if (part) c.shard();
  if (part == 0) {
    const double tol = c.pick(std::vector<double>{1e-6, 1e-2});
    const bool extra = !prox && c.flag();
    const size_t N = c.pick(std::vector<size_t>{25, 1, 2, 0});
    if (N == 0 && !extra) return;
    const int ls = c.choose(2);
    const int al = th ? c.choose(3) : (ls == 0 ? c.choose(2) : 1);
    const int gk = c.choose(4);  // zeros, open gaps, roll-out, the solution itself
    const bool again = (th || gk == 1) && c.flag();
    c.shard();
    c.cfg = mc::cat(R::name(), s.str(), " tol ", tol, " extra ", extra, " N", N, " ls", ls, " alphas", al, " guess", gk, " again", again);
    R k(c, p, tol);
    if (al) k.alphas(al == 1 ? std::vector<double>{1, 0.5} : std::vector<double>{1});
    k.sol.set_use_filter_line_search(ls == 0);
    if constexpr (!prox) k.sol.set_extra_iteration_for_last_kkt(extra);
    if (gk < 3) pb::guess(p, gk, s.variant, xs, us, 1.0);
    else {
      pb::guess(p, 0, s.variant, xs, us, 1.0);
      R o(c, p, tol * 1e-2);
      if (o.solve(xs, us, 60) != 1) { c.stat("no reference solution"); return; }
      xs = o.sol.get_xs(); us = o.sol.get_us();
    }
    if (again) { Traj ax, au; pb::guess(p, 1, s.variant + 5, ax, au, 0.7); if (k.solve(ax, au, 3) == 1) k.certified("first solve"); }
    const int ok = k.solve(xs, us, N);
    c.traces++;
    k.judge(ok, N, extra, false);
    if (ok == 1) { c.nontrivial++; k.certified("solve"); c.stat("certified"); } else c.stat("not certified");
    c.check(ok != -1, "exception", "");
    c.state(mc::mix(mc::hdbl(k.sol.get_KKT()), k.r.its.size()));
  } else if (part == 1) {
    // the first trials fail in every combination
    const int bits = 5; const int mask = c.choose(1 << bits), kind = c.choose(3);
    const bool extra = !prox && c.flag(); const int ls = c.choose(2);
    c.cfg = mc::cat(R::name(), s.str(), " failing trials ", mask, " kind ", kind, " extra ", extra, " ls", ls);
    R k(c, p, 1e-6);
    k.alphas({1, 0.5});
    k.sol.set_use_filter_line_search(ls == 0);
    if constexpr (!prox) k.sol.set_extra_iteration_for_last_kkt(extra);
    pb::guess(p, 1, s.variant, xs, us, 1.0);
    int trial = -1; size_t iter = 0; int left = 0;
    k.r.fault = [&](long, int t, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) {
      if (k.r.its.empty() || !k.r.its.back().dir) return;
      if (iter != k.r.its.size()) { iter = k.r.its.size(); left = 2; }
      if (t == 0) { --left; if (left >= 0) ++trial; }
      if (left < 0 || trial >= bits || !(mask >> trial & 1) || t != trial % (s.T + 1)) return;
      if (kind == 0) d.cost = pb::NANV;
      if (kind == 1) { if (t < s.T) d.xnext[d.xnext.size() - 1] = pb::NANV; else d.cost = pb::NANV; }
      if (kind == 2) throw std::runtime_error("model");
    };
    const int ok = k.solve(xs, us, 25);
    c.traces++;
    // a failing evaluation after an all-rejected line search would be an evaluation of the iterate itself
    k.judge(ok, 25, extra, false);
    if (ok == 1) { c.nontrivial++; k.certified("solve"); c.stat("certified"); } else c.stat("not certified");
    c.state(mc::mix(mc::hdbl(k.sol.get_KKT()), k.r.its.size()));
  } else {
    // one derivative or value is not a number, at one iteration (or from then on), node and entry
    const int kind = 1 + c.choose(D_COUNT - 1);
    const bool last = c.flag(), persist = c.flag();
    const int at = c.choose(3), node = c.choose(s.T + 1);
    const bool near = c.flag();
    const bool eqg = csqp ? c.flag() : true;
    c.cfg = mc::cat(R::name(), s.str(), " NaN kind ", kind, " last ", last, " persist ", persist, " iteration ", at, " node ", node, " start near ", near, " eqg ", eqg);
    if ((kind == D_GX || kind == D_GU || kind == D_G) && p.node(node).ng() == 0) return;
    R k(c, p, near ? 1e-2 : 1e-6);
    if constexpr (csqp) { k.sol.set_equality_qp_initial_guess(eqg); k.sol.set_max_qp_iters(100); }
    if constexpr (prox) k.sol.set_max_qp_iters(20);  // the backend does not stop on NaN
    if constexpr (!prox) k.sol.set_extra_iteration_for_last_kkt(true);
    pb::guess(p, near ? 0 : 1, s.variant, xs, us, 1.0);
    bool poisoned = false; size_t hits = 0;
    auto hit = [&](size_t it, int t, crocoddyl::ActionDataAbstract& d) {
      if (t != node || !(persist ? it >= size_t(at) : it == size_t(at))) return;
      poison(d, kind, t, s.T, last); ++hits;
    };
    // values too are poisoned in the derivatives call, which comes last before the solver looks at them
    k.r.dfault = [&](long, int t, crocoddyl::ActionDataAbstract& d, const VectorXd&, const VectorXd&) { hit(k.r.its.size() - 1, t, d); };
    const int ok = k.solve(xs, us, 6);
    c.traces++;
    poisoned = hits > 0 && (persist ? k.r.its.size() - 1 >= size_t(at) : k.r.its.size() - 1 == size_t(at));
    const bool matters = (kind == D_LX || kind == D_FX || kind == D_LXX) ? !(prox && node == 0) : (kind == D_GX ? !(node == 0) : (kind == D_LXX || kind == D_LUU ? false : true)) && !(node == s.T && (kind == D_LU || kind == D_FU || kind == D_GU || kind == D_XNEXT)) && !((kind == D_LU || kind == D_FU || kind == D_GU) && node < s.T && p.run[size_t(node)].m == 0);
    if (hits) c.nontrivial++;
    if (ok == 1) {
      const bool resid = kind != D_LXX && kind != D_LUU;  // the residual itself needs the poisoned number
      c.check(!(poisoned && matters && resid && !(node == s.T && kind == D_FX)), "certified-from-non-finite-data", mc::cat("KKT ", k.sol.get_KKT()));
      k.certified("after NaN");
      c.stat("certified");
    } else c.stat(ok == -1 ? "exception" : "not certified");
    c.state(mc::mix(mc::hdbl(k.sol.get_KKT()), mc::mix(k.r.its.size(), hits)));
  }
  c.sample(c.cfg);
}
static void body(mc::Ctx& c) {
  switch (c.choose(3)) { case 0: run<SolverSQP>(c); break; case 1: run<SolverCSQP>(c); break; default: run<SolverPROXQP>(c); break; }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C01",
    "stateless enumeration of real solves (options and guesses, failing trial steps, non-finite evaluations); every solve that returns true is judged from the problem alone (start state, finiteness, gaps, violation, existence of multipliers), every verdict against the residuals shown to the callbacks and recomputed here",
    "3 solvers, T<=3, nx<=2, nodes without control, 2-3 row patterns per node, 3 nonlinearity levels, manifold; tolerance {1e-6,1e-2}, iteration limits {0,1,2,25}, extra iteration, filter/merit, 2 step lists, 4 guesses (one optimal), second solve; every subset of the first 5 trials failing in 3 ways; one NaN in 10 quantities x entry x node x iteration, transient or persistent; problems with one single source of residual (each gap, state or control cost, constraint row, component, sign)",
    "as quick with 4 row patterns per node, 3 number tables and 3 step lists", {"cost models with positive curvature"}}, body);
}
