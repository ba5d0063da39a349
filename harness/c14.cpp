// C14: after any update of the shooting problem, solve() gives what a newly built solver gives on the updated problem.
#include "mc.hpp"
#include "hist.hpp"

enum Op { U_X0, U_BOUNDS, U_CLASS, U_PARAM, U_RUN, U_RUN_NU, U_RUN_NG, U_TERM, U_TERM_NG, U_SHIFT, U_SHIFT_NU, U_SHIFT_NG, U_UNDO_NU, U_N };
static const char* OPN[] = {"x0", "bounds", "row-class", "parameters", "running", "running-nu", "running-ng", "terminal", "terminal-ng", "shift", "shift-nu", "shift-ng", "all-nodes-nu"};

static pb::Node other(const pb::Shape& s, int t, int m, const std::vector<int>& rows, int variant) {
  pb::Shape q = s; q.variant = variant;
  if (t < s.T) q.m[size_t(t)] = m; 
  q.rows[size_t(t)] = rows;
  pb::Prob p = pb::make(q);
  return p.node(t);
}
template <class S> struct World {
  pb::Shape s; pb::Prob p; Rig<S> k; int version = 0;
  World(const pb::Shape& s_, const pb::Prob& p_) : s(s_), p(p_), k(p) {}
  std::shared_ptr<pb::Model> model(const pb::Node& n, int t) { auto m = std::make_shared<pb::Model>(k.b.state, n, t, p.circle); m->hooks = &k.f; return m; }
  void put(int t, const pb::Node& n, bool viaterm = false) {
    auto m = model(n, t);
    k.b.models[size_t(t)] = m;
    if (t == p.T()) p.term = n; else { p.run[size_t(t)] = n; s.m[size_t(t)] = n.m; }
    if (viaterm) k.b.problem->set_terminalModel(m); else k.b.problem->updateModel(size_t(t), m);
  }
  void shift(const pb::Node& n) {
    auto m = model(n, p.T() - 1);
    for (int t = 0; t + 1 < p.T(); ++t) { k.b.models[size_t(t)] = k.b.models[size_t(t) + 1]; k.b.models[size_t(t)]->id = t; p.run[size_t(t)] = p.run[size_t(t) + 1]; s.m[size_t(t)] = s.m[size_t(t) + 1]; s.rows[size_t(t)] = s.rows[size_t(t) + 1]; }
    p.run.back() = n; s.m.back() = n.m; k.b.models[size_t(p.T()) - 1] = m;
    k.b.problem->circularAppend(std::static_pointer_cast<crocoddyl::ActionModelAbstract>(m));
  }
  std::vector<int> grown(const std::vector<int>& r) const { std::vector<int> o = r; if (o.size() >= 2) o.pop_back(); else o.push_back(o.empty() ? pb::UPPER : pb::TWO); return o; }
  // false if the update does not apply
  bool apply(int op, int t) {
    const int v = 11 + 3 * version++, T = p.T();
    const bool con = p.ngs() > 0;
    const std::vector<int> rt = s.rows[size_t(t)];
    switch (op) {
      case U_X0: p.x0 = pb::gvec(p.n(), 77, v, 0.8); k.b.problem->set_x0(pb::Model::embed(p.x0, p.circle)); return true;
      case U_BOUNDS: case U_CLASS: {
        pb::Node& n = t == T ? p.term : p.run[size_t(t)];
        if (!n.ng()) return false;
        for (int i = 0; i < n.ng(); ++i) {
          if (op == U_BOUNDS) { n.lb[i] -= 0.05 * (1 + i); n.ub[i] -= 0.05 * (1 + i); }
          else if (n.lb[i] == n.ub[i]) { n.lb[i] = -pb::INF; }
          else if (std::isfinite(n.lb[i]) && std::isfinite(n.ub[i])) { n.ub[i] = n.lb[i] = 0.5 * (n.lb[i] + n.ub[i]); }
          else if (std::isfinite(n.ub[i])) { n.lb[i] = n.ub[i] - 0.5; }
          else { n.lb[i] = -pb::INF; n.ub[i] = pb::INF; }
        }
        auto& m = k.b.models[size_t(t)]; m->nd.lb = n.lb; m->nd.ub = n.ub; m->set_g_lb(n.lb); m->set_g_ub(n.ub);
        return true; }
      case U_PARAM: for (int i = 0; i <= T; ++i) { pb::Node& n = i == T ? p.term : p.run[size_t(i)]; n.q = pb::gvec(p.n(), 78 + i, v, 0.8); n.c = pb::gvec(p.n(), 90 + i, v, 0.3); n.nlx *= 1.5; auto& m = k.b.models[size_t(i)]; m->nd.q = n.q; m->nd.c = n.c; m->nd.nlx = n.nlx; } return true;
      case U_RUN: if (t == T) return false; put(t, other(s, t, s.m[size_t(t)], rt, v)); return true;
      case U_RUN_NU: if (t == T) return false; put(t, other(s, t, s.m[size_t(t)] == 1 ? 2 : s.m[size_t(t)] == 2 ? 0 : 1, rt, v)); return true;
      case U_RUN_NG: if (t == T || !con) return false; s.rows[size_t(t)] = grown(rt); put(t, other(s, t, s.m[size_t(t)], s.rows[size_t(t)], v)); return true;
      case U_TERM: if (t != T) return false; put(T, other(s, T, 0, rt, v), version % 2); return true;
      case U_TERM_NG: if (t != T || !con) return false; s.rows[size_t(t)] = grown(rt); put(T, other(s, T, 0, s.rows[size_t(t)], v), version % 2); return true;
      case U_SHIFT: if (t) return false; shift(other(s, T - 1, s.m.back(), s.rows[size_t(T) - 1], v)); return true;
      case U_SHIFT_NU: if (t) return false; shift(other(s, T - 1, s.m.back() == 1 ? 2 : s.m.back() == 2 ? 0 : 1, s.rows[size_t(T) - 1], v)); return true;
      case U_SHIFT_NG: { if (t || !con) return false; auto g = grown(s.rows[size_t(T) - 1]); pb::Node n = other(s, T - 1, s.m.back(), g, v); shift(n); s.rows[size_t(T) - 1] = g; return true; }
      case U_UNDO_NU: if (t) return false; for (int i = 0; i < T; ++i) put(i, other(s, i, 3 - std::min(2, std::max(1, s.m[size_t(i)])), s.rows[size_t(i)], v)); return true;
      default: return false;
    }
  }
};

template <class S> static void run(mc::Ctx& c) {
  const bool th = c.thorough;
  pb::Shape s;
  s.T = 1 + c.choose(th ? 3 : 2); s.n = 1 + c.choose(2);
  const int mpat = th || s.T == 2 ? c.choose(2) : 0;
  for (int t = 0; t < s.T; ++t) s.m.push_back(mpat == 0 ? 1 : 2 - t % 2);
  static const std::vector<std::vector<int>> CLS = {{}, {pb::UPPER}, {pb::LOWER, pb::TWO}, {pb::EQUAL}};
  const int rp = Tr<S>::con ? 1 + c.choose(2) : 0;
  for (int t = 0; t <= s.T; ++t) s.rows.push_back(CLS[rp == 0 ? 0 : rp == 1 ? 1 : size_t(t == s.T ? 3 : 2)]);
  s.nlf = 0.6; s.nlx = 0.8; s.nlu = 0.3; s.nlg = Tr<S>::con ? 0.3 : 0; s.hs = 0.4;
  s.circle = s.n == 2;
  s.dev = 0.3;
  const pb::Prob p0 = pb::make(s);
  Opt o;
  if constexpr (!std::is_same<S, SolverDDP>::value) o.ls = c.choose(Tr<S>::csqp && th ? 3 : 2);
  if constexpr (Tr<S>::extra) { if (th || !Tr<S>::csqp) o.extra = c.flag(); }
  if constexpr (Tr<S>::csqp) { const int v = c.choose(3); o.eqg = v != 1; o.rrho = v == 2; if (!th) o.extra = v == 1; }
  const int before = c.choose(3);  // solve before the first update: none, a short one, a converged one
  const int len = 1 + c.choose(th && !Tr<S>::prox ? 3 : !th && Tr<S>::prox && s.n == 2 ? 1 : 2);
  std::vector<std::pair<int, int>> ops;
  const int op0 = c.choose(U_N);
  ops.emplace_back(op0, c.choose(s.T + 1));
  c.shard();
  static const std::vector<int> SECOND = {U_X0, U_CLASS, U_RUN_NU, U_RUN_NG, U_TERM_NG, U_SHIFT, U_SHIFT_NU};
  for (int i = 1; i < len; ++i) { const int op = c.pick(SECOND); ops.emplace_back(op, op == U_TERM_NG ? s.T : op == U_CLASS || op == U_RUN_NU || op == U_RUN_NG ? c.choose(s.T) : 0); }
  const bool between = len > 1 && c.flag();
  const int gk = th ? c.choose(3) : 1 + c.choose(2);
  std::ostringstream h; for (auto& e : ops) h << OPN[e.first] << "@" << e.second << " ";
  c.cfg = mc::cat(Tr<S>::name(), s.str(), " ls", o.ls, " extra", o.extra, " eqg", o.eqg, " rrho", o.rrho, " before", before, " between", between, " guess", gk, " updates: ", h.str());
  World<S> w(s, p0); w.k.opts(o);
  auto solve = [&](World<S>& a, int g, size_t N) { Traj xs, us; if (g < 2) pb::guess(a.p, g, 0, xs, us, 0.9); return a.k.solve(xs, us, N); };
  if (before) solve(w, 1, before == 1 ? 2 : 30);
  bool first = true;
  for (auto& e : ops) {
    if (between && !first) solve(w, 1, 2);
    first = false;
    if (!w.apply(e.first, e.second)) return;
    c.transition();
  }
  Rig<S> fresh(w.p); fresh.opts(o);
  Traj xs, us; if (gk < 2) pb::guess(w.p, gk, 0, xs, us, 0.9);
  const int r0 = fresh.solve(xs, us, 4);
  const Log l0 = fresh.result(r0);
  const int r1 = w.k.solve(xs, us, 4);
  bool sizes = w.k.s->get_us().size() == size_t(s.T) && w.k.s->get_xs().size() == size_t(s.T) + 1;
  for (int t = 0; sizes && t < s.T; ++t) sizes = w.k.s->get_us()[size_t(t)].size() == w.p.run[size_t(t)].m;
  c.check(sizes, "sizes", "");
  const Log l1 = w.k.result(r1);
  c.traces++; c.nontrivial++;
  const std::string d = diff(l0, l1);
  c.check(d.empty(), mc::cat("differs-from-fresh ", Tr<S>::name()), mc::cat(d, " (returned ", r0, " / ", r1, ")"));
  c.state(mc::mix(l1.empty() ? 0 : mc::hdbl(l1.back()), uint64_t(r1 + 2)));
  c.stat(r1 == 1 ? "converged" : r1 == 0 ? "not converged" : "exception");
  c.stat(mc::cat("last update ", OPN[ops.back().first])); c.stat(mc::cat("solver ", Tr<S>::name()));
  c.sample(c.cfg);
}
static void body(mc::Ctx& c) {
  switch (c.choose(5)) {
    case 0: run<SolverSQP>(c); break;
    case 1: run<SolverCSQP>(c); break;
    case 2: run<SolverDDP>(c); break;
    case 3: run<SolverFDDP>(c); break;
    default: run<SolverPROXQP>(c); break;
  }
}
int main(int a, char** v) {
  return mc::main_check(a, v, {"C14",
    "stateless enumeration of sequences of problem updates (and solves between them) on one solver object, followed by a solve whose complete log has to equal, bit for bit, that of a new solver on the updated problem",
    "5 solvers; T<=2, nx<=2, 2 control and 2 row patterns, manifold; sequences of 1 or 2 updates out of 13 kinds at every node (x0, bounds, row classes, parameters, running and terminal models of the same or other dimensions, horizon shifts), solves before and between; 2 guesses; updates in pairs for SolverPROXQP with nx=1 only",
    "T<=3, sequences of up to 3 updates (2 for SolverPROXQP), 3 guesses, adaptive merit", {"SolverCSQP with reset_y set", "the horizon keeps its length (crocoddyl's set_runningModels cannot change it)"}}, body);
}
