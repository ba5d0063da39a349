// Enumerated family of problems: structure (dimensions, row classes, shapes) is
// enumerated, numbers come from a fixed table of generic values so that every
// term of every formula matters.
#pragma once
#include "problem.hpp"

namespace pb {

// generic value in (-1, 1), a multiple of 1/64, never 0
inline double val(int a, int b, int c, int v) {
  unsigned h = 2166136261u;
  for (int x : {a + 3, b + 17, c + 29, v + 101}) { h = (h ^ static_cast<unsigned>(x)) * 16777619u; h ^= h >> 13; }
  h *= 0x5bd1e995u; h ^= h >> 15;
  int k = static_cast<int>(h % 125u) - 62;
  if (k == 0) k = 63;
  return k / 64.0;
}
inline MatrixXd gmat(int r, int c, int id, int v, double s = 1) { MatrixXd m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = s * val(id, i, j, v); return m; }
inline VectorXd gvec(int n, int id, int v, double s = 1) { VectorXd m(n); for (int i = 0; i < n; ++i) m[i] = s * val(id, i, 77, v); return m; }

// Row classes
enum Row { TWO = 0, UPPER = 1, LOWER = 2, EQUAL = 3, FREE = 4, NEAREQ = 5 };

struct Shape {
  int T = 1, n = 1;
  std::vector<int> m;                     // T entries
  std::vector<std::vector<int>> rows;     // T + 1 entries, classes
  int variant = 0;
  double nlf = 0, nlx = 0, nlu = 0, nlg = 0, hs = 1;
  double curv = 1;       // factor on the quadratic cost
  double dev = 0.25;     // width of the boxes around the reference values
  bool circle = false;
  std::string str() const {
    std::ostringstream o; o << "T" << T << " n" << n << " m"; for (int x : m) o << x;
    o << " rows"; for (auto& r : rows) { o << ":"; for (int x : r) o << "2ULEFN"[x]; }
    o << " v" << variant;
    if (nlf != 0) o << " nlf" << nlf; if (nlx != 0) o << " nlx" << nlx; if (nlu != 0) o << " nlu" << nlu; if (nlg != 0) o << " nlg" << nlg; if (hs != 1) o << " hs" << hs; if (curv != 1) o << " curv" << curv;
    if (circle) o << " circle";
    return o.str();
  }
};

inline void set_bounds(Node& k, int i, int cls, double ref, double w, int v) {
  switch (cls) {
    case TWO: k.lb[i] = ref - w * (0.3 + 0.5 * std::fabs(val(i, 1, 5, v))); k.ub[i] = ref + w * (0.3 + 0.5 * std::fabs(val(i, 2, 5, v))); break;
    case UPPER: k.ub[i] = ref + 0.2 * w; break;
    case LOWER: k.lb[i] = ref - 0.2 * w; break;
    case EQUAL: k.lb[i] = ref; k.ub[i] = ref; break;
    case FREE: break;
    case NEAREQ: k.lb[i] = ref - 2e-7; k.ub[i] = ref + 2e-7; break;
  }
}

inline Prob make(const Shape& s) {
  Prob p;
  p.circle = s.circle;
  const int v = s.variant;
  p.x0 = gvec(s.n, 900, v, 0.5);
  VectorXd x = p.x0;
  for (int t = 0; t <= s.T; ++t) {
    const bool term = t == s.T;
    const int m = term ? 0 : s.m[static_cast<size_t>(t)];
    const int ng = s.rows.empty() ? 0 : static_cast<int>(s.rows[static_cast<size_t>(t)].size());
    // the terminal model has the control dimension of the first node, as crocoddyl models do
    Node k = Node::zero(s.n, term ? (s.m.empty() ? 0 : s.m[0]) : m, ng);
    const int mm = k.m;
    const int b = 50 * t;
    k.A = MatrixXd::Identity(s.n, s.n) + gmat(s.n, s.n, b + 1, v, 0.3);
    k.B = gmat(s.n, mm, b + 2, v, 0.8);
    for (int i = 0; i < std::min(s.n, mm); ++i) k.B(i, i) += 0.6;
    k.c = gvec(s.n, b + 3, v, 0.3);
    MatrixXd M = gmat(s.n + mm, s.n + mm, b + 4, v, 0.6);
    MatrixXd W = s.curv * (M * M.transpose() + 0.3 * MatrixXd::Identity(s.n + mm, s.n + mm));
    k.Q = W.topLeftCorner(s.n, s.n);
    k.S = W.topRightCorner(s.n, mm);
    k.R = W.bottomRightCorner(mm, mm);
    k.q = gvec(s.n, b + 5, v, 0.8);
    k.r = gvec(mm, b + 6, v, 0.8);
    k.c0 = 0.125 * (t + 1);
    k.nlf = s.nlf; k.nlx = s.nlx; k.nlu = s.nlu; k.nlg = s.nlg; k.hs = s.hs;
    k.Gx = gmat(ng, s.n, b + 7, v, 1.0);
    k.Gu = gmat(ng, mm, b + 8, v, 1.0);
    k.h = gvec(ng, b + 9, v, 0.3);
    // bounds are placed around the values on a reference roll-out, so that the problem is feasible
    VectorXd uref = gvec(mm, b + 10, v, 0.4);
    VectorXd g = k.g(x, uref, term);
    for (int i = 0; i < ng; ++i) set_bounds(k, i, s.rows[static_cast<size_t>(t)][static_cast<size_t>(i)], g[i], s.dev, v + 7 * t);
    if (!term) { x = k.f(x, uref); p.run.push_back(k); } else p.term = k;
  }
  return p;
}

// Initial guesses: 0 zeros (manifold zero), 1 generic open-gap guess, 2 roll-out of generic controls
inline void guess(const Prob& p, int kind, int v, Traj& xs, Traj& us, double scale = 0.5) {
  xs.clear(); us.clear();
  VectorXd x = p.x0;
  for (int t = 0; t < p.T(); ++t) {
    const Node& k = p.run[static_cast<size_t>(t)];
    VectorXd u = kind == 0 ? VectorXd(VectorXd::Zero(k.m)) : gvec(k.m, 700 + t, v, scale);
    us.push_back(u);
    if (t == 0) xs.push_back(Model::embed(p.x0, p.circle));
    else if (kind == 0) xs.push_back(Model::embed(VectorXd::Zero(p.n()), p.circle));
    else if (kind == 1) xs.push_back(Model::embed(gvec(p.n(), 600 + t, v, scale), p.circle));
    else xs.push_back(Model::embed(x, p.circle));
    x = k.f(x, u);
  }
  if (kind == 0) xs.push_back(Model::embed(VectorXd::Zero(p.n()), p.circle));
  else if (kind == 1) xs.push_back(Model::embed(gvec(p.n(), 699, v, scale), p.circle));
  else xs.push_back(Model::embed(x, p.circle));
}

}  // namespace pb
