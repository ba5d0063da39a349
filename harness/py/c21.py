"""C21: the solvers written in Python against the reference semantics and against the C++ solvers.

Every solve is replayed by an explicit model: exact QP solutions (active-set enumeration on the stacked QP), the line search
rules on exactly evaluated trials, the termination test.  The model knows when a decision is too close to call and stops there.
"""
import io, itertools, math, os, sys, time, warnings
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import mcpy, pybuild
PKG = os.environ.get("C20_PKG") or pybuild.build(os.environ["MC_SCRATCH"], os.environ["MC_PREFIX"])
sys.path.insert(0, PKG); sys.path.insert(0, pybuild.REPO + "/python")
import numpy as np
import crocoddyl, mim_solvers, probe
import csqp, sqp, sqp_cpp
warnings.filterwarnings("ignore")
# OSQP picks the period of its adaptive rho from wall-clock measurements: fixed here, so that a run is a function of its input
import osqp
UNSOLVED = [0]  # QPs on which OSQP itself ran out of iterations
_osetup, _osolve = osqp.OSQP.setup, osqp.OSQP.solve
def _setup(self, *a, **k): return _osetup(self, *a, **dict(dict(adaptive_rho_interval=50), **k))
def _qpsolve(self):
    r = _osolve(self)
    if r.info.status_val in (osqp.constant("OSQP_MAX_ITER_REACHED"), osqp.constant("OSQP_SOLVED_INACCURATE")) and r.info.iter >= 4000: UNSOLVED[0] += 1
    return r
osqp.OSQP.setup, osqp.OSQP.solve = _setup, _qpsolve
TWO, UPPER, LOWER, EQUAL, FREE, NEAREQ = range(6)

def spec(T=2, n=1, m=None, rows=None, nlf=0.0, nlx=0.0, nlu=0.0, nlg=0.0, variant=0, circle=False):
    return dict(T=T, n=n, variant=variant, circle=circle, m=m or [1] * T, rows=rows or [[] for _ in range(T + 1)], nlf=nlf, nlx=nlx, nlu=nlu, nlg=nlg, nh=False)
# eigenpy hands matrices with one row or one column to Python as vectors, which these solvers do not take: n, nu >= 2, ng in {0, 2, ...}
def free_specs(th):
    out = []
    for T, n, m in [(1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 2, 3)] + ([(2, 3, 2), (4, 2, 2)] if th else []):
        for variant in range(2):
            for nl in [dict(), dict(nlf=0.3), dict(nlx=2.0), dict(nlf=0.5, nlx=0.5, nlu=1.0)]:
                out.append(spec(T, n, [m] * T, variant=variant, **nl))
    out.append(spec(2, 2, [2, 2], circle=True, nlf=0.3)); out.append(spec(3, 2, [2] * 3, circle=True, nlf=0.3, nlx=0.4))
    return out
def con_specs(th):
    out = []
    R = [[UPPER, LOWER], [TWO, TWO], [EQUAL, UPPER], [FREE, TWO], [NEAREQ, LOWER], [EQUAL, EQUAL], [TWO, UPPER, LOWER]]
    for r in R:  # one node at a time, then pairs
        for t in range(3):
            rows = [[], [], []]; rows[t] = r
            for nl in [dict(), dict(nlf=0.3, nlx=0.3, nlg=0.3)]: out.append(spec(2, 2, [2, 2], rows=rows, **nl))
    for i, (a, b) in enumerate(itertools.product(R if th else R[:3], repeat=2)):
        for v in (0, 1): out.append(spec(2, 2, [2, 2], rows=[[], a, b], nlf=0.2, nlg=0.2, variant=v))
        out.append(spec(2, 2, [2, 2], rows=[a, [], b], nlu=0.2, variant=i % 2))
    for r in R[:2]: out.append(spec(1, 2, [2], rows=[r, []], nlf=0.2)); out.append(spec(1, 2, [3], rows=[[], r], nlf=0.2)); out.append(spec(3, 2, [2] * 3, rows=[[], r, r, []], nlf=0.3))
    out.append(spec(2, 2, [2, 2], rows=[R[0], R[1], []], circle=True, nlf=0.3))
    out.append(spec(2, 2, [2, 2])); out.append(spec(2, 2, [2, 2], nlf=0.3))  # no constraint at all
    out.append(spec(2, 2, [2, 2], rows=[[], [FREE, FREE], []], nlx=0.6))  # never violated: the filter hangs on cost and gaps
    return out
CPP = {"SQP": "SQP", "SQP_CPP": "SQP", "StagewiseQP": "CSQP", "ProxQP": "CSQP", "OSQP": "CSQP", "CustomOSQP": "CSQP", "StagewiseQPKKT": "CSQP"}
KINDS = list(CPP)
EPS = {"SQP": 1e-9, "SQP_CPP": 1e-9, "StagewiseQP": 1e-8, "ProxQP": 1e-9, "OSQP": 1e-8, "CustomOSQP": 1e-8, "StagewiseQPKKT": 1e-8}

def make(kind, problem, o):
    if kind == "SQP": s = sqp.SQP(problem, use_filter_line_search=o["filter"], with_callbacks=o["print"]); s.mu = o["mu"]; s.extra_iteration_for_last_kkt = o["extra"]
    elif kind == "SQP_CPP": s = sqp_cpp.SQP_CPP(problem, use_filter_line_search=o["filter"], with_callbacks=o["print"]); s.mu = o["mu"]
    else:
        s = csqp.CSQP(problem, kind, use_filter_line_search=o["filter"], with_callbacks=o["print"], qp_with_callbacks=o["print"])
        s.mu1, s.mu2 = o["mu"], o["mu2"]; s.extra_iteration_for_last_kkt = o["extra"]
        s.eps_abs, s.eps_rel, s.max_qp_iters = EPS[kind], 0.0, 4000
    s.filter_size, s.termination_tolerance = o["size"], o["tol"]
    return s

class Close(Exception): pass
def leq(a, b):
    """a <= b, if that can be told"""
    if a == 0.0 and b >= 0.0: return True   # norms that vanish exactly
    if abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b)): return None
    return a <= b
def conj(vs):
    vs = list(vs)
    if any(v is False for v in vs): return False
    if any(v is None for v in vs): raise Close()
    return True
class Model:
    """What a solve has to do, from exact QP solutions."""
    def __init__(self, p, o, constrained):
        self.p, self.o, self.con = p, o, constrained
        self.st = p.problem.runningModels[0].state
        self.steps = []; self.ends = []
        self.offset = {0: 0.0, 2: -50.0, 3: 50.0}
    def eval(self, xs, us):
        e = self.p.eval(xs, us)
        for k in self.ends:
            d = np.abs(k - xs[-1]).max()
            if 0 < d < 1e-5: raise Close()  # whether this is a new point is a matter of rounding
        if not any((k == xs[-1]).all() for k in self.ends): self.ends.append(xs[-1].copy())
        c = e["cost"] + self.offset[self.p.outcome(xs[-1])]
        m = c + self.o["mu"] * e["gap1"] + (self.o["mu2"] * e["con1"] if self.con else 0.0)
        if not all(map(math.isfinite, (c, m))) or max(abs(c), e["gap1"], e["con1"]) > 1e6: raise Close()
        return dict(cost=c, gap=e["gap1"], con=e["con1"], merit=m, gapinf=e["gapinf"])
    def direction(self, xs, us):
        self.at = self.eval(xs, us)
        q = self.p.qp(xs, us)
        if q is None: raise mcpy.Prune()  # infeasible QP
        self.q = q
        self.kkt = max(q["stat"], self.at["gapinf"], self.at["con"] if self.con else 0.0)
        if max(map(lambda v: np.abs(v).max(), q["dx"] + q["du"])) > 1e4: raise Close()
        if abs(self.kkt - self.o["tol"]) < 1e-2 * self.o["tol"]: raise Close()
        return self.kkt < self.o["tol"]
    def solve(self, xs, us, maxiter):
        o = self.o
        xs, us = [x.copy() for x in xs], [u.copy() for u in us]
        xs[0] = self.p.problem.x0.copy()
        self.xs, self.us = xs, us; self.rejected = 0
        mem = []
        for it in range(maxiter):
            if self.direction(xs, us): return True
            mem = (mem + [dict(self.at)])[-o["size"]:]
            for k in range(10):
                a = 0.5 ** k
                tx = [self.st.integrate(x, a * d) for x, d in zip(xs, self.q["dx"])]; tu = [u + a * d for u, d in zip(us, self.q["du"])]
                e = self.eval(tx, tu)
                if o["filter"]: ok = not any([conj([leq(m["cost"], e["cost"]), leq(m["gap"], e["gap"])] + ([leq(m["con"], e["con"])] if self.con else [])) for m in reversed(mem)])
                else: ok = not conj([leq(self.at["merit"], e["merit"])])
                self.rejected += not ok
                if ok: xs, us = tx, tu; self.xs, self.us = xs, us; break
            else:
                if not o["filter"]: return False
            self.alpha = a
        if o["extra"]: return self.direction(xs, us)
        return False

def dist(a, b): return max([0.0] + [float(np.abs(x - y).max()) if len(x) else 0.0 for x, y in zip(a, b)])
def sdist(st, a, b): return max(float(np.abs(st.diff(x, y)).max()) for x, y in zip(a, b))

SPECS = {}
def specs(kind, th):
    k = (CPP[kind] == "SQP", th)
    if k not in SPECS: SPECS[k] = free_specs(th) if k[0] else con_specs(th)
    return SPECS[k]
PATTERNS = {k: [p for m in range(k + 1) for p in itertools.product([0, 2, 3], repeat=m)] for k in (0, 1, 2, 3, 4)}

def stdvec(v):
    w = crocoddyl.StdVec_VectorX()
    for x in v: w.append(x)
    return w
def slack(s, kind):
    """what the stagewise ADMM may leave in the multipliers: it stops on the primal residual and on the change of the
    projections; with relaxation alpha the stationarity of the QP then holds up to (alpha - 1) |rho C' (C x - z)|"""
    if kind not in ("StagewiseQP", "StagewiseQPKKT"): return 0.0
    rho = [np.abs(np.asarray(s.rho_vec_boyd))] if kind == "StagewiseQPKKT" and hasattr(s, "rho_vec_boyd") else [np.abs(np.asarray(v)) for v in getattr(s, "rho_vec", [])]
    return 2 * EPS[kind] * min(1e6, max([v.max() for v in rho if v.size] + [0.0]))
def solve_one(c, kind, p, s, model, xs, us, maxiter, where, o, form=0):
    """runs the model and the implementation; returns whether the comparison went to the end"""
    args = {0: (list(xs), list(us)), 1: (stdvec(xs), stdvec(us)), 2: (None, None), 3: ([], [])}[form]
    keep = [None if a is None else [x.copy() for x in a] for a in args]
    ident = [[id(x) for x in a] if isinstance(a, list) else None for a in args]
    close = False; UNSOLVED[0] = 0
    if form >= 2:
        xs = [p.problem.x0.copy() for _ in xs]; us = [np.zeros(len(u)) for u in us]
    try: want = model.solve(xs, us, maxiter)
    except Close: close = True
    out = io.StringIO(); so = sys.stdout; sys.stdout = out
    try: got = s.solve(args[0], args[1], maxiter) if form < 2 else s.solve(init_xs=args[0], init_us=args[1], maxiter=maxiter)
    except Exception as e:
        if isinstance(e, (mcpy.Prune, mcpy.Skip)): raise
        sys.stdout = so
        c.check(close, "exception:%s" % kind, "%s: %s: %s" % (where, type(e).__name__, e)); return False
    finally: sys.stdout = so
    for a, k, i in zip(args, keep, ident):
        if a is not None: c.check(len(a) == len(k) and (i is None or [id(x) for x in a] == i) and all(np.array_equal(x, y) for x, y in zip(a, k)), "arguments:%s" % kind, "%s: the caller's guess was changed" % where)
    c.transition()
    if close: c.stat("too close to call"); return False
    if UNSOLVED[0]: c.stat("OSQP out of iterations"); return False
    c.traces(); c.state((kind, tuple(np.round(np.concatenate(model.xs + model.us), 6))))
    tol = 2e-5 if CPP[kind] == "CSQP" else 1e-6
    st = model.st
    scale = 1 + max(np.abs(v).max() for v in model.q["dx"] + model.q["du"]) if maxiter else 1.0
    sl = slack(s, kind)
    if bool(got) != want and maxiter and abs(model.kkt - o["tol"]) <= sl: c.stat("verdict within the accuracy of the ADMM"); return False
    c.check(bool(got) == want and isinstance(got, (bool, np.bool_)), "verdict:%s" % kind, lambda: "%s: returns %s, expected %s (KKT %.3g, expected %.3g)" % (where, got, want, getattr(s, "KKT", float("nan")), model.kkt))
    X, U = list(s.xs), list(s.us)
    c.check(len(X) == len(model.xs) and len(U) == len(model.us) and sdist(st, X, model.xs) <= tol * 10 and dist(U, model.us) <= tol * 10, "trajectory:%s" % kind,
            lambda: "%s: us %s instead of %s, xs differ by %.3g" % (where, [list(u) for u in U], [list(u) for u in model.us], sdist(st, X, model.xs)))
    if maxiter or o["extra"]:
        e = model.at
        c.check(abs(s.cost - e["cost"]) <= tol * 10 * (1 + abs(e["cost"])), "cost:%s" % kind, lambda: "%s: %.10g instead of %.10g" % (where, s.cost, e["cost"]))
        c.check(abs(s.gap_norm - e["gap"]) <= tol * 10, "gap-norm:%s" % kind, lambda: "%s: %.10g instead of %.10g" % (where, s.gap_norm, e["gap"]))
        if CPP[kind] == "CSQP": c.check(abs(s.constraint_norm - e["con"]) <= tol * 10, "constraint-norm:%s" % kind, lambda: "%s: %.10g instead of %.10g" % (where, s.constraint_norm, e["con"]))
        c.check(abs(s.merit - e["merit"]) <= tol * 100 * (1 + abs(e["merit"])), "merit:%s" % kind, lambda: "%s: %.10g instead of %.10g" % (where, s.merit, e["merit"]))
        c.check(dist(s.dx, model.q["dx"]) <= tol * scale, "dx:%s" % kind, lambda: "%s: %s instead of %s" % (where, [list(v) for v in s.dx], [list(v) for v in model.q["dx"]]))
        c.check(dist(s.du, model.q["du"]) <= tol * scale, "du:%s" % kind, lambda: "%s: %s instead of %s" % (where, [list(v) for v in s.du], [list(v) for v in model.q["du"]]))
        c.check(abs(s.KKT - model.kkt) <= tol * 10 * scale * (1 + model.kkt) + sl, "KKT:%s" % kind, lambda: "%s: %.10g instead of %.10g" % (where, s.KKT, model.kkt))
    return True

def body_auto(c, kind, con, sp, i, th):
    """CSQP with a negative penalty parameter: the merit function takes its weight from the multipliers."""
    if not con or kind not in ("ProxQP", "StagewiseQP", "OSQP") or not th and i % (9 if kind == "ProxQP" else 30) != 4: raise mcpy.Prune()
    mu = c.pick([(-1.0, 10.0), (10.0, -1.0), (-1.0, -1.0)]); pat = c.pick(PATTERNS[3 if th else 2]); g = (c.pick([1, 2]), 1.0)
    o = dict(filter=False, print=False, mu=mu[0], mu2=mu[1], extra=c.flag(), size=1, tol=1e-4)
    c.note("%s on %s, guess %s, trial outcomes %s, %s" % (kind, sp, g, pat, o))
    a, b = probe.Problem(sp), probe.Problem(sp)
    a.pattern(list(pat)); b.pattern(list(pat))
    s = make(kind, a.problem, o); m = Model(b, o, con); m.o = dict(o, mu=0.0, mu2=0.0)
    xs, us = map(list, a.guess(*g))
    calls = []; calc, tryStep = s.calc, s.tryStep
    def mycalc(r=True):
        n = max([np.abs(v).max() for v in list(s.lag_mul) + list(s.y) if len(v)])
        calc(r); calls.append(("calc", 1.01 * n, s.merit, [np.array(x) for x in s.xs], [np.array(u) for u in s.us], 1.0))
    def mytry(alpha): tryStep(alpha); calls.append(("try", 1.01 * s.lag_mul_inf_norm, s.merit_try, [np.array(x) for x in s.xs_try], [np.array(u) for u in s.us_try], alpha))
    s.calc, s.tryStep = mycalc, mytry
    so = sys.stdout; sys.stdout = io.StringIO()
    try: s.solve(list(xs), list(us), 3)
    except Exception as e:
        if isinstance(e, (mcpy.Prune, mcpy.Skip)): raise
        sys.stdout = so; c.check(False, "exception:%s" % kind, "%s: %s" % (type(e).__name__, e)); return
    finally: sys.stdout = so
    close, last, w, done = False, None, 0.0, True
    try:
        for what, weight, merit, x, u, alpha in calls:
            e = m.eval(x, u)
            if what == "calc": w = weight
            ref = e["cost"] + w * (e["gap"] + e["con"])
            c.check(abs(merit - ref) <= 1e-6 * (1 + abs(ref)), "auto-merit:%s" % kind, lambda: "%s: merit %.10g, expected %.10g" % (what, merit, ref))
            if what == "calc":
                if last and not close: c.check(done and dist(u, last[1]) <= 1e-9 and sdist(m.st, x, last[0]) <= 1e-9, "auto-step:%s" % kind, "the iterate is not the first trial with less merit")
                at, expect, done, close = ref, 1.0, False, False
            else:
                c.check(not done and alpha == expect, "auto-alpha:%s" % kind, lambda: "trial of step length %g, expected %g" % (alpha, expect))
                expect /= 2; ok = leq(at, ref)
                if ok is None: raise Close()
                if not ok: done = True
                last = (x, u)
    except Close: c.stat("too close to call")
    c.transition(len(calls)); c.traces(); c.nontrivial()
    c.stat("multiplier weights")

def body(c):
    th = c.thorough
    mode = c.choose(4)
    kind = c.pick(KINDS); con = CPP[kind] == "CSQP"
    S = specs(kind, th); i = c.choose(len(S)); c.shard()
    sp = S[i]
    slow = kind in ("CustomOSQP", "StagewiseQPKKT"); P = mcpy.Prune
    if mode == 3: return body_auto(c, kind, con, sp, i, th)
    if mode == 0:   # directions and metrics at an enumerated guess, no line search beyond the first iteration
        if not th and slow and i % 3: raise P()
        g = (c.choose(3), 0.3) if not th else (c.choose(3), c.pick([0.3, 1.5]))
        maxiter, pat = 1, ()
        o = dict(filter=c.flag(), print=c.flag(), mu=1.0, mu2=10.0, extra=False, size=1, tol=c.pick([1e-4, 30.0]))
        if not th and con and (o["print"] + o["filter"] + (o["tol"] > 1) > 1 or g[0] != 1 and (o["print"] or o["filter"] or o["tol"] > 1)): raise P()
        form, again = c.choose(4), False
        if form and (g[0] != 1 or o["filter"] or o["tol"] > 1 or o["print"]): raise P()
    elif mode == 1:  # line search: every pattern of trial outcomes
        never = con and sp["rows"][1] == [FREE, FREE] and not slow
        if not th and not never and (i % 12 != 1 if not con else i % 14 != 3 if kind == "ProxQP" else i % 30 != 7 if kind == "StagewiseQP" else True): raise P()
        pat = c.pick(PATTERNS[4 if th else 3]); g = (c.pick([1, 2]), 1.0); maxiter = c.pick([2, 4])
        o = dict(filter=c.flag(), print=False, mu=c.pick([1.0, 7.0]), mu2=c.pick([1.0, 7.0]) if con else 0.0, extra=c.flag() if kind != "SQP_CPP" else False, size=1, tol=1e-4)
        if o["filter"]:
            if o["mu"] > 1 or o["mu2"] > 1: raise P()
            o["size"] = c.pick([1, 2, 3])
        form, again = 0, False
        if not th and con and (len(pat) > (2 if kind == "ProxQP" else 1) or maxiter > 2 and o["extra"]): raise P()
    else:            # whole solves, and a second one from the state the first one left
        if not th and con and (i % 30 != 5 if slow else i % 12 != 1 if kind == "StagewiseQP" else i % 2 == 0): raise P()
        pat = (); g = (c.choose(3), c.pick([0.3, 1.5])); maxiter = c.pick([0, 3, 8]); form = 0
        o = dict(filter=c.flag(), print=c.flag(), mu=1.0, mu2=10.0, extra=c.flag() if kind != "SQP_CPP" else False, size=1, tol=1e-4)
        again = c.flag()
        if o["extra"] and not maxiter: raise P()  # the penalties of the ADMM are set up by the first iteration
        if not th and (o["print"] != (i % 3 == 1) or con and (o["extra"] and g[0] == 0 or slow and (g[0] == 2 or maxiter == 8))): raise P()
        if not th and con and (again and (g[1] > 1 or maxiter == 8) or o["extra"] and maxiter == 8): raise P()
    c.note("%s on %s, guess %s, maxiter %d, trial outcomes %s, %s, arguments in form %d%s" % (kind, sp, g, maxiter, pat, o, form, ", solved twice" if again else ""))
    a, b = probe.Problem(sp), probe.Problem(sp)
    a.pattern(list(pat)); b.pattern(list(pat))
    tt = time.process_time()
    s = make(kind, a.problem, o); model = Model(b, o, con)
    xs, us = map(list, a.guess(*g))
    full = solve_one(c, kind, a, s, model, xs, us, maxiter, "solve", o, form)
    if mode == 0 and full and not o["tol"] > 1 and maxiter:
        pass
    if full and mode == 0:
        # the multipliers solve the QP as well
        x0, u0 = ([a.problem.x0.copy() for _ in xs], [np.zeros(len(u)) for u in us]) if form >= 2 else (xs, us)
        y = [np.asarray(v) for v in s.y] if con else [np.zeros(0) for _ in xs]
        r = a.residuals(x0, u0, list(s.dx), list(s.du), [np.asarray(v) for v in s.lag_mul], y)
        tol = 1e-4 if con else 1e-6
        for k in ("stat", "dyn", "feas", "comp"):
            c.check(r[k] <= tol * (1 + model.kkt) + slack(s, kind), "qp-%s:%s" % (k, kind), lambda: "residual %.3g of the QP solution" % r[k])
    if full and model.rejected: c.nontrivial()
    if full and not pat and mode == 2 and not again:  # the C++ solver comes to the same result
        d = probe.Problem(sp); q = probe.make(CPP[kind], d.problem)
        f = dict(termination_tolerance=o["tol"], use_filter_line_search=o["filter"], mu_dynamic=o["mu"], extra_iteration_for_last_kkt=o["extra"])
        if con: f.update(mu_constraint=o["mu2"], eps_abs=1e-9, eps_rel=0.0, max_qp_iters=4000)
        for k, v in f.items(): probe.set(CPP[kind], q, k, v)
        ok, r = probe.call(CPP[kind], q, "solve", [xs, us, maxiter])
        xq, uq = list(probe.get(CPP[kind], q, "xs")), list(probe.get(CPP[kind], q, "us"))
        c.check(ok and r == s_result(model), "cpp-verdict:%s" % kind, lambda: "the C++ solver returns %s" % r)
        c.check(sdist(model.st, xq, list(s.xs)) <= 1e-3 and dist(uq, list(s.us)) <= 1e-3, "cpp-trajectory:%s" % kind, lambda: "us %s, C++ %s" % ([list(u) for u in s.us], [list(u) for u in uq]))
        c.stat("compared with C++")
    if again and full:
        m2 = Model(b, o, con); m2.ends = list(model.ends)
        xs2, us2 = map(list, a.guess(1, 0.7))
        if solve_one(c, kind, a, s, m2, xs2, us2, maxiter, "second solve", o): c.stat("second solves")
    c.stat("%s %d" % (kind, mode))
    if os.environ.get("C21_TIME"): c.stat("ms %s %d" % (kind, mode), int(1000 * (time.process_time() - tt)))
def s_result(m): return m.verdict
_solve = Model.solve
def _keep(self, *a):
    self.verdict = _solve(self, *a); return self.verdict
Model.solve = _keep
sys.exit(mcpy.main("C21",
    "every problem of the enumeration with every Python solver and QP backend: all guesses, line searches, filter sizes, argument forms and tolerances; every pattern of trial outcomes up to the bound; whole solves, second solves; each run is replayed by an explicit model with exact QP solutions, whole solves also by the C++ solver",
    "T <= 3, n = 2, nu <= 3, up to 6 constraint rows of 7 kinds at each node; patterns of up to 3 trial outcomes out of 3 (2 with constraints); whole solves of 0, 3, 8 iterations; the slower backends on every third to twentieth problem",
    "T <= 4, n <= 3, all pairs of row kinds, patterns of up to 4 trial outcomes, every backend on every problem",
    ["evaluations are finite", "all nodes have the same number of controls; states and controls of dimension >= 2 and no node with exactly one constraint row (eigenpy hands one-row and one-column matrices to Python as vectors, for which these solvers raise exceptions)", "QP tolerances 1e-8: what is compared is what the backends solve exactly", "decisions closer than 1e-6 are not compared", "HPIPM is not installed and not covered"],
    body, T0))
