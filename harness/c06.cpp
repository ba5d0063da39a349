// C06 (filter) / C07 (merit): the accepted step of every line search is the first acceptable one.
#include "mc.hpp"
#include "adv.hpp"
#include "rec.hpp"
using namespace adv;
#ifndef PROP
#define PROP 6
#endif

static const std::vector<std::vector<double>> ALPHAS = {{1, 0.5}, {1, 0.5, 0.25}, {1}, {0.5, 0.25}};

struct Cfg { size_t al; size_t fs1, fs2; size_t iters; int two; double md, mc; double coef; int early; };

// answers: the first `lim` points visited are free, later ones improve strictly
template <class S> static void body_for(mc::Ctx& c) {
  const bool th = c.thorough;
  constexpr bool con = Traits<S>::con;
  Cfg k;
  k.al = size_t(c.choose(th ? 4 : 3));
  k.md = 1; k.mc = 1; k.coef = 10; k.fs1 = k.fs2 = 1; k.two = 0; k.early = 0;
  k.iters = 3;
  int levels;   // number of levels of each component
  int lim;
  if (PROP == 6) {
    // 0: one solve, filter size fs;  1: a second solve after a change of filter size
    k.two = c.choose(2);
    k.fs1 = c.pick(std::vector<size_t>{1, 0, 2, 3});
    k.fs2 = k.two ? c.pick(std::vector<size_t>{1, 0, 2, 3}) : k.fs1;
    if (k.two) k.iters = 2 + size_t(k.fs1 > 2 || k.fs2 > 2);
    levels = con ? 2 : 3;
    lim = k.two ? 2 : 4;
    if (th) lim += 1;
    if (Traits<S>::proxqp) { lim = k.two ? (th ? 2 : 1) : (th ? 4 : 3); }
    if (k.two && k.al >= (th ? 2 : 1)) return;
  } else {
    k.md = c.pick(std::vector<double>{0.5, 0, 8, -1});
    if (con) k.mc = c.pick(std::vector<double>{0.5, 0, 4, -1});
    if (!Traits<S>::csqp && (k.md < 0 || k.mc < 0)) return;  // negative weights are a convention of SolverCSQP
    if (Traits<S>::csqp && (k.md < 0 || k.mc < 0)) k.coef = c.pick(std::vector<double>{10, 0.125});
    levels = 3; lim = con ? 3 : 4;
    if (th) lim += 1;
    if (Traits<S>::proxqp) lim = th ? 3 : 2;
    k.two = c.choose(2);  // 1: the weights are set after a first solve with the default ones
    if (k.two) { lim = th ? 2 : 1; if (k.al >= (th ? 2 : 1)) return; }
  }
  const int lc = PROP == 7 && con ? 3 : levels, lg = PROP == 7 && con && !th ? 2 : levels, ln = PROP == 7 && con ? 2 : levels;
  const int nplain = con ? lc * lg * ln : lc * lg;
  c.shard();
  c.cfg = mc::cat(Traits<S>::name(), " alphas#", k.al, " fs", k.fs1, "->", k.fs2, " two", k.two, " mu ", k.md, ",", k.mc, " coef", k.coef);
  Rig<S> rig;
  Env& e = rig.env;
  S& sol = *rig.sol;
  rig.set_alphas(ALPHAS[k.al]);
  int budget = lim;
  bool fresh = true;  // the guess of a solve is a finite point of middle level
  // non-finite answers: NaN cost, NaN gap, NaN constraint, and with short step lists infinite and huge costs too
  std::vector<int> faults = {COST_NAN, GAP_NAN};
  if (con) faults.push_back(CON_NAN);
  if (k.al == 2) { faults.push_back(COST_INF); faults.push_back(COST_HUGE); }
  const int nfault = int(faults.size());
  std::string hist;
  e.answer = [&](int ord, double x1) {
    int a;
    if (fresh) a = nplain / 2;
    else if (budget > 0) { --budget; a = c.choose(nplain + nfault); }
    else a = -1;
    Pt p; p.fault = NONE; p.luu = 1; p.lu = -(1 + 0.0937 * ord);
    double cost, gap, cn = 0;
    if (a < 0) {  // everything improves from here on
      cost = -1.0 - ord; gap = 0.25; cn = 0;
    } else if (a < nplain) {
      cost = a % lc; gap = 0.5 + 0.5 * ((a / lc) % lg);
      if (con) cn = (a / lc / lg) * 1.0;
    } else {
      // non-finite trials that would otherwise be the best point seen
      cost = -5; gap = 0.25; cn = 0;
      p.fault = faults[size_t(a - nplain)];
    }
    fresh = false;
    p.cost = cost; p.X = x1 + gap; p.g = cn;
    if (p.fault == COST_NAN) p.cost = pb::NANV;
    if (p.fault == COST_INF) p.cost = pb::INF;
    if (p.fault == COST_HUGE) p.cost = 1e31;
    if (p.fault == GAP_NAN) p.X = pb::NANV;
    if (p.fault == CON_NAN) p.g = pb::NANV;
    hist += mc::cat(" p", ord, "=", p.cost, "/", gap, "/", p.g, p.fault == GAP_NAN ? "(gap nan)" : "");
    c.transition();
    return p;
  };
  auto run = [&](double u0, double x1, size_t iters, size_t fs, double md, double mcn) {
    fresh = true;
    rig.solve(u0, x1, iters);
    // replay of the acceptance rule over the recorded iterates
    const std::vector<It> its = e.its;
    struct Ent { double c, g, n; };
    std::vector<Ent> past;
    for (size_t i = 0; i < its.size() && i < iters; ++i) {
      const It& it = its[i];
      if (!it.dir) { c.check(false, "no-trial", mc::cat("iteration ", i, hist)); return; }
      const Val cur = val(it.pt, it.x1);
      past.push_back({cur.cost, cur.gap, cur.con});
      double nu = i + 1 < its.size() ? its[i + 1].u : rig.u(), nx = i + 1 < its.size() ? its[i + 1].x1 : rig.x1();
      const bool last = i + 1 >= its.size();
      // expected step
      double acc = 0; bool amb = false;
      double au = it.u, ax = it.x1;
      for (double a : e.alphas) {
        const double step = a * it.dx, stepu = a * it.du;
        const double tx = it.x1 + step, tu = it.u + stepu;
        auto f = e.memo.find(Env::key(tu));
        if (f == e.memo.end()) { c.check(false, "step-not-tried", mc::cat("iteration ", i, " step length ", a, hist)); return; }
        const Val v = val(f->second, tx);
        if (!finite(v)) { c.stat("non-finite trials"); continue; }
        bool ok;
        if (PROP == 6) {
          ok = true;
          for (size_t m = 0; m < std::min(fs, past.size()); ++m) {
            const Ent& q = past[past.size() - 1 - m];
            auto le = [&](double x, double y) { if (Traits<S>::proxqp && x != y && std::fabs(x - y) < 1e-6) amb = true; return x <= y; };
            bool d1 = le(q.c, v.cost), d2 = le(q.g, v.gap), d3 = le(q.n, v.con);
            if (d1 && d2 && d3) { ok = false; }
          }
        } else {
          double wd = md, wc = mcn;
          if (Traits<S>::csqp && (md < 0 || mcn < 0)) wd = wc = k.coef * it.lam;
          const double m0 = cur.cost + wd * cur.gap + wc * cur.con, m1 = v.cost + wd * v.gap + wc * v.con;
          if (m0 != m1 && std::fabs(m0 - m1) < 1e-6 * (1 + std::fabs(m0))) amb = true;
          if (wd == k.coef * it.lam && std::fabs(m0 - m1) < 1e-6 * (1 + std::fabs(m0))) amb = true;
          ok = m0 > m1;
        }
        if (amb) break;
        if (ok) { acc = a; au = tu; ax = tx; break; }
      }
      if (amb) { c.stat("ambiguous comparisons skipped"); return; }
      c.traces++;
      if (acc == 0) c.stat("all rejected"); else c.stat(mc::cat("accepted ", acc));
      if (acc == 0 || acc < e.alphas[0]) c.nontrivial++;
      c.check(std::fabs(nu - au) < 1e-9 && std::fabs(nx - ax) < 1e-9, acc == 0 ? "accepted-unacceptable-step" : "wrong-step",
              mc::cat("iteration ", i, ": expected step length ", acc, " (u=", au, ", x1=", ax, "), got u=", nu, ", x1=", nx, " | points cost/gap/con:", hist));
      c.state(mc::mix(mc::mix(mc::hdbl(cur.cost), mc::hdbl(cur.gap)), mc::mix(mc::hdbl(cur.con), mc::mix(i, mc::hdbl(acc)))));
      if (last) break;
    }
    c.sample(c.cfg + hist);
  };
  if (PROP == 6) {
    sol.set_use_filter_line_search(true);
    sol.set_filter_size(k.fs1);
    run(0, 0, k.iters, k.fs1, 0, 0);
    if (k.two) {
      sol.set_filter_size(k.fs2);
      budget = lim + (Traits<S>::proxqp ? 1 : 0);
      run(100, 0, k.iters, k.fs2, 0, 0);
    }
  } else {
    sol.set_use_filter_line_search(false);
    if (k.two) { sol.set_mu_dynamic(1); if constexpr (con) sol.set_mu_constraint(1); run(0, 0, 2, 1, 1, 1); budget = lim + 1; }
    sol.set_mu_dynamic(k.md);
    if constexpr (con) sol.set_mu_constraint(k.mc);
    if constexpr (Traits<S>::csqp) sol.set_lag_mul_inf_norm_coef(k.coef);
    run(k.two ? 100 : 0, 0, k.iters, 1, k.md, k.mc);
  }
}

// Part 2: real nonlinear problems with several nodes, where every term of the trial's cost, gap and constraint norm counts.
template <class S> static void real_for(mc::Ctx& c) {
  const bool th = c.thorough;
  constexpr bool con = Traits<S>::con;
  pb::Shape s;
  s.T = 1 + c.choose(3);
  s.n = 1 + c.choose(2);
  const int mpat = c.choose(th ? 3 : 2);
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : mpat == 1 ? 1 + (t + 1) % 2 : (t + 1) % 3);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[con ? size_t(c.choose(t == s.T || t == 0 ? 4 : th ? 4 : 2)) : 0]);
  c.shard();
  s.variant = c.choose(con ? (th ? 3 : 1) : 4);
  s.circle = c.flag();
  const int nl = c.choose(th ? 3 : 2);
  if (nl == 0) { s.nlf = 0.9; s.nlx = 1.5; s.nlg = 0.8; s.hs = 0.3; }
  if (nl == 1) { s.nlf = 0.5; s.nlx = 0.7; s.nlg = 0.4; s.hs = 0.15; }
  if (nl == 2) { s.nlf = 1.5; s.nlx = 3.0; s.nlg = 1.5; }
  s.dev = 0.2;
  const size_t fs = PROP == 6 ? c.pick(std::vector<size_t>{1, 2, 4}) : 1;
  const double md = PROP == 7 ? c.pick(std::vector<double>{1, 5}) : 1, mcn = PROP == 7 && con ? c.pick(std::vector<double>{1, 5}) : 1;
  const bool neg = PROP == 7 && Traits<S>::csqp && md == 5 && mcn == 5;
  const Prob p = pb::make(s);
  c.cfg = mc::cat("real ", Traits<S>::name(), " ", s.str(), " fs", fs, " mu", neg ? -1 : md, ",", mcn);
  rec::Recorder r;
  auto b = pb::build(p, &r);
  S sol(b.problem);
  rec::attach(r, sol);
  sol.set_termination_tolerance(-1);
  sol.set_use_filter_line_search(PROP == 6);
  if (PROP == 6) sol.set_filter_size(fs);
  sol.set_mu_dynamic(neg ? -1 : md);
  if constexpr (con) sol.set_mu_constraint(mcn);
  if constexpr (Traits<S>::csqp) sol.set_max_qp_iters(100);
  if constexpr (Traits<S>::proxqp) { sol.set_eps_abs(1e-8); sol.set_eps_rel(0); }
  Traj xs, us;
  pb::guess(p, 1, s.variant, xs, us, 1.5);
  const size_t N = 4;
  r.start(s.T);
  sol.solve(xs, us, N, false, pb::NANV);
  const auto alphas = sol.get_alphas();
  struct Ent { double c, g, n; };
  std::vector<Ent> past;
  for (size_t i = 0; i < r.its.size() && i < N; ++i) {
    const rec::It& it = r.its[i];
    if (!c.check(it.dir, "no-trial", mc::cat("iteration ", i))) return;
    const pb::Eval e = pb::evaluate(p, it.xs, it.us);
    if (!e.finite || e.cost > 1e6) return;
    past.push_back({e.cost, e.gap1, e.con1});
    if (pb::MatrixXd(it.dx.back()).size() == 0) return;
    double big = 0; for (auto& v : it.dx) big = std::max(big, v.size() ? v.cwiseAbs().maxCoeff() : 0); for (auto& v : it.du) big = std::max(big, v.size() ? v.cwiseAbs().maxCoeff() : 0);
    if (big < 1e-3) { c.stat("converged"); return; }
    const Traj& nx = i + 1 < r.its.size() ? r.its[i + 1].xs : sol.get_xs();
    const Traj& nu = i + 1 < r.its.size() ? r.its[i + 1].us : sol.get_us();
    Traj ax = it.xs, au = it.us; double acc = 0; bool amb = false;
    for (double a : alphas) {
      Traj tx = rec::step_x(p, b, it.xs, it.dx, a), tu = rec::step_u(it.us, it.du, a);
      const pb::Eval v = pb::evaluate(p, tx, tu);
      if (!v.finite || v.cost >= 1e30) continue;
      auto near = [&](double q, double w) { return std::fabs(q - w) < 1e-8 * (1 + std::fabs(q)); };
      bool ok = true;
      if (PROP == 6) {
        for (size_t m = 0; m < std::min(fs, past.size()); ++m) {
          const Ent& q = past[past.size() - 1 - m];
          const bool zg = q.g == 0 && v.gap1 == 0, zn = q.n == 0 && v.con1 == 0;  // exact zeros are exact ties
          if (near(q.c, v.cost) || (near(q.g, v.gap1) && !zg) || (near(q.n, v.con1) && !zn)) amb = true;
          if (q.c <= v.cost && q.g <= v.gap1 && q.n <= v.con1) ok = false;
        }
      } else {
        double wd = md, wc = mcn;
        if (!con) wc = 0;
        if (neg) wd = wc = 10 * it.lam;
        const double m0 = e.cost + wd * e.gap1 + wc * e.con1, m1 = v.cost + wd * v.gap1 + wc * v.con1;
        if (near(m0, m1)) amb = true;
        ok = m0 > m1;
      }
      if (amb) break;
      if (ok) { acc = a; ax = tx; au = tu; break; }
    }
    if (amb) { c.stat("ambiguous comparisons skipped"); return; }
    c.traces++; c.transition();
    c.stat(acc == 0 ? "real: all rejected" : acc == 1 ? "real: full step" : "real: shorter step");
    if (acc != 1) c.nontrivial++;
    c.check(maxabs(nx, ax) < 1e-8 && maxabs(nu, au) < 1e-8, "wrong-step-real", mc::cat("iteration ", i, ": expected step length ", acc, ", next iterate ", pb::show(nx), pb::show(nu), " expected ", pb::show(ax), pb::show(au)));
    c.state(mc::mix(mc::hdbl(e.cost), mc::mix(mc::hdbl(acc), i)));
  }
}
static void body(mc::Ctx& c) {
  switch (c.choose(6)) {
    case 0: body_for<SolverSQP>(c); break; case 1: body_for<SolverCSQP>(c); break; case 2: body_for<SolverPROXQP>(c); break;
    case 3: real_for<SolverSQP>(c); break; case 4: real_for<SolverCSQP>(c); break; default: real_for<SolverPROXQP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {PROP == 6 ? "C06" : "C07",
    "stateless exploration of the real line searches against an adversarial environment that decides cost, gap and constraint violation (or a non-finite value) of every point when it is first visited; the accepted step is compared with the acceptance rule applied to the recorded iterates",
    PROP == 6 ? "3 solvers; up to 3 step-length lists; filter sizes {0,1,2,3} and all changes between two solves; 3 levels of cost x gap (SQP) or 2 levels of cost x gap x constraint, plus 4-5 non-finite answers, at each of the first 4 points visited (2 per solve with two solves; 3 for PROXQP); 3 iterations"
              : "3 solvers; up to 3 step-length lists; weights {0.5,0,8,neg} x {0.5,0,4,neg}; 3 levels per component plus non-finite answers at the first 3-4 points; 3 iterations; weights set before or after an earlier solve",
    PROP == 6 ? "as quick with one more free point per solve and 4 step-length lists" : "as quick with one more free point and 4 step-length lists",
    {"after the free points every further point improves on everything seen", "comparisons closer than 1e-6 that are not exact ties are skipped for PROXQP, whose direction is only accurate to the QP tolerance"}}, body);
}
