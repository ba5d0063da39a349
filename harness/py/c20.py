"""C20: the Python bindings against the C++ solvers.

Every Python-driven solver has a twin that is created, configured, run and read by direct C++ calls (probe.cpp); both see
identical problems, so everything observable has to be identical bit by bit.
"""
import gc, itertools, os, struct, sys, time
T0 = time.time()
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE); sys.dont_write_bytecode = True
import mcpy
PKG = os.environ.get("C20_PKG")
if not PKG:
    import pybuild
    PKG = pybuild.build(os.environ["MC_SCRATCH"], os.environ["MC_PREFIX"])
sys.path.insert(0, PKG)
import numpy as np
import crocoddyl, mim_solvers, probe

NAMES = ["SQP", "CSQP", "PROXQP", "FDDP", "DDP"]
READ = {n: list(probe.readable(n)) for n in NAMES}
WRITE = {n: list(probe.writable(n)) for n in NAMES}
TWO, UPPER, LOWER, EQUAL, FREE, NEAREQ = range(6)
INF = float("inf")

def spec(T=2, n=1, m=None, rows=None, nlf=0.0, nlx=0.0, nlu=0.0, nlg=0.0, variant=0, circle=False, nh=False):
    return dict(T=T, n=n, variant=variant, circle=circle, m=m or [1] * T, rows=rows or [[] for _ in range(T + 1)], nlf=nlf, nlx=nlx, nlu=nlu, nlg=nlg, nh=nh)
FREEP = [spec(T=2, n=1), spec(T=2, n=2, m=[2, 1], nlf=0.3, nlx=0.2, variant=1), spec(T=1, n=2, m=[0], nlf=0.2), spec(T=3, n=1, nlf=0.5, nlu=0.3)]
CONP = [spec(T=2, n=1, rows=[[UPPER], [TWO], []], nlf=0.2), spec(T=2, n=2, m=[2, 1], rows=[[LOWER], [EQUAL], [TWO]], nlf=0.3, nlx=0.2, nlg=0.2, variant=1),
        spec(T=1, n=1, m=[1], rows=[[TWO, LOWER], [UPPER]], nlf=0.3), spec(T=3, n=1, rows=[[], [UPPER], [], [TWO]], nlf=0.4, nlu=0.2)]
def problems(name): return CONP if name in ("CSQP", "PROXQP") else FREEP

def canon(v):
    if v is None: return None
    if isinstance(v, (bool, np.bool_)): return ("b", bool(v))
    if isinstance(v, (int, np.integer)): return ("i", int(v))
    if isinstance(v, (float, np.floating)): return ("f", struct.pack("d", v) if v == v else b"nan")
    if isinstance(v, np.ndarray):
        a = np.array(v, dtype=float); s = [k for k in a.shape if k != 1] if a.size == 1 else list(a.shape)
        if len(s) == 2 and 1 in s: s = [a.size]  # eigenpy returns one-row and one-column matrices in either form
        return ("a", tuple(s) if a.size else (0,), np.ascontiguousarray(a).tobytes())
    return ("l", tuple(canon(x) for x in v))
def show(v):
    if isinstance(v, (float, int, str, bool)) or v is None: return repr(v)
    if isinstance(v, np.ndarray): return np.array2string(v, precision=17, threshold=20).replace("\n", " ")
    try: return "[" + ", ".join(show(x) for x in v) + "]"
    except TypeError: return repr(v)

def cls(name): return getattr(mim_solvers, "Solver" + name)
class Pair:
    def __init__(self, name, sp, pattern=(), wrap=None):
        self.name = name
        self.pa, self.pb = probe.Problem(sp), probe.Problem(sp)
        self.pa.pattern(list(pattern)); self.pb.pattern(list(pattern))
        self.wrapped = wrap(self.pa.problem) if wrap else self.pa.problem
        self.P = cls(name)(self.wrapped)
        self.Q = probe.make(name, self.pb.problem)
    def same(self, c, where, skip=()):
        ok = True
        for a in READ[self.name]:
            if a in skip: continue
            p, q = getattr(self.P, a), probe.get(self.name, self.Q, a)
            if a in UNSET: q = probe.get(self.name, self.P, a)
            c.checks += 1
            if canon(p) != canon(q):
                d = probe.get(self.name, self.P, a)
                kind = "read" if canon(d) == canon(q) else "differs"
                c.fail("%s:%s.%s" % (kind, self.name, a), "%s: Python reads %s, the C++ solver in the same situation has %s, this solver has %s" % (where, show(p), show(q), show(d)))
                ok = False
        return ok
    def digest(self): return canon([probe.get(self.name, self.P, a) for a in ("xs", "us", "cost", "KKT", "iter", "stepLength", "preg")])
    # the same call on both sides: same exception status, same result
    def both(self, c, where, py, method, args):
        ok, r = probe.call(self.name, self.Q, method, args)
        try: s, ex = py(), None
        except Exception as e: s, ex = None, e
        c.check((ex is None) == ok, "raise:%s.%s" % (self.name, method), "%s: the C++ call %s, Python %s" % (where, "succeeds" if ok else "throws", "succeeds" if ex is None else "raises %s: %s" % (type(ex).__name__, ex)))
        if ok and ex is None:
            c.check(canon(s) == canon(r) or (r is None and canon(s) == canon(None)), "result:%s.%s" % (self.name, method), "%s: Python returns %s, C++ %s" % (where, show(s), show(r)))
        if ex is not None: c.check(not isinstance(ex, SystemError), "raise-kind:%s.%s" % (self.name, method), repr(ex))
        return ok and ex is None

# ---- A: options -----------------------------------------------------------------------------------------------------
def alphabet(name, attr):
    if attr in ("xs", "us"): return ["good", "short", "empty"] if name in ("CSQP", "PROXQP") else ["good"]  # elsewhere crocoddyl's own attribute
    if attr == "alphas": return [[1.0], [1.0, 0.3, 0.1], [0.1, 1.0], [0.5, 0.5], []]
    if attr in ("filter_size",): return [1, 2, 3]
    if attr == "eps_abs" and name == "PROXQP": return [1e-3, 1e-9]  # the backend spends seconds on a tolerance it cannot reach
    if attr in ("max_qp_iters",): return [0, 1, 200]
    if attr in ("rho_update_interval",): return [1, 7, 0]
    if attr in ("adaptive_rho_tolerance",): return [1, 9, 0]
    if attr in ("use_filter_line_search", "extra_iteration_for_last_kkt", "reset_y", "reset_rho", "update_rho_with_heuristic", "remove_reg", "with_qp_callbacks", "equality_qp_initial_guess", "with_callbacks"): return [True, False]
    v = {"max_solve_time": [INF, 12345.5, -1.0], "termination_tolerance": [1e-3, 1e-12, 0.0, -1.0], "reg_incFactor": [2.0, 1.0, 0.5], "reg_decFactor": [3.0, 1.0, 0.5],
         "reg_min": [1e-5, 0.0, -1.0], "reg_max": [1e3, 0.0, -1.0], "th_stepDec": [0.25, 1.0, 0.0, -0.5, 1.5], "th_stepInc": [0.125, 0.0, 1.0, -0.5, 1.5], "sigma": [1e-3, 1e-5, 0.0],
         "alpha": [1.0, 1.8, 0.0, 2.5], "preg": [1e-4, 0.0, -1.0], "dreg": [1e-3, 0.0, -1.0], "rho_sparse": [0.5, 0.0, -1.0], "eps_abs": [1e-3, 1e-9, 0.0, -1.0], "eps_rel": [1e-3, 1e-9, 0.0, -1.0],
         "th_stop": [1e-3, 0.0, -1.0], "th_gapTol": [1e-3, 0.0, -1.0], "th_acceptStep": [0.01, 0.0, -1.0, 1.5], "th_grad": [1e-3, 0.0, -1.0], "th_acceptNegStep": [0.5, 0.0, -1.0],
         "mu_dynamic": [3.0, 0.0, -1.0], "mu_constraint": [7.0, 0.0, -1.0], "lag_mul_inf_norm_coef": [2.0, 0.0, -1.0]}
    return v.get(attr, [0.25, 0.0, -1.0])
def settings(name):
    return [(a, v) for a in WRITE[name] for v in alphabet(name, a)]
SET = {n: settings(n) for n in NAMES}
UNSET = ("d",)  # crocoddyl leaves it uninitialised until the expected improvement is computed

def apply(c, pr, attr, v, where):
    if attr in ("xs", "us"):
        xs, us = pr.pa.guess(1, 0.5)
        v = {"xs": xs, "us": us}[attr] if v == "good" else ({"xs": xs, "us": us}[attr][:-1] if v == "short" else [])
    ok = probe.set(pr.name, pr.Q, attr, v)
    try: setattr(pr.P, attr, v); ex = None
    except Exception as e: ex = e
    c.check((ex is None) == ok, "set-raise:%s.%s" % (pr.name, attr), "%s = %s: C++ %s, Python %s" % (attr, show(v), "accepts" if ok else "throws", "accepts" if ex is None else "raises %s: %s" % (type(ex).__name__, ex)))
    if ok and ex is None:
        c.check(canon(getattr(pr.P, attr)) == canon(probe.get(pr.name, pr.P, attr)), "readback:%s.%s" % (pr.name, attr), "%s = %s reads back as %s" % (attr, show(v), show(getattr(pr.P, attr))))
        if attr not in ("xs", "us"): c.check(canon(probe.get(pr.name, pr.P, attr)) == canon(v), "in-force:%s.%s" % (pr.name, attr), "%s = %s puts %s in force" % (attr, show(v), show(probe.get(pr.name, pr.P, attr))))
    c.transition()
    return ok and ex is None

def solve_both(c, pr, maxiter, where, guess=(1, 1.0), feas=False, reg=None):
    xs, us = pr.pa.guess(*guess)
    a = [xs, us, maxiter, feas] + ([reg] if reg is not None else [])
    pr.both(c, where, lambda: pr.P.solve(*a), "solve", a)
    c.transition(); c.traces()
    pr.same(c, where)
    c.state(pr.digest())

def options(c):
    name = c.pick(NAMES); S = SET[name]
    i = c.choose(len(S) + 1); c.shard()
    j = c.choose(len(S) + 1) if i < len(S) else 0
    if i < len(S) and j < len(S) and S[i][0] == S[j][0] and i == j: raise mcpy.Prune()
    if not c.thorough and i < len(S) and j < i: raise mcpy.Prune()
    pk = c.choose(4 if c.thorough else 2)
    if not c.thorough and i < len(S) and j < len(S) and pk != (i + j) % 2: raise mcpy.Prune()  # pairs: the problems alternate
    chosen = [S[k] for k in (i, j) if k < len(S)]
    c.note("options of %s on problem %d: %s" % (name, pk, chosen))
    pr = Pair(name, problems(name)[pk])
    pr.same(c, "just created")
    for a, v in chosen:
        apply(c, pr, a, v, "")
        pr.same(c, "after %s = %s" % (a, v))
    solve_both(c, pr, 2 if name == "PROXQP" else 3, "solve after %s" % (chosen,))
    for a, v in chosen:
        if a not in ("xs", "us", "preg", "dreg", "lag_mul") and not (name == "PROXQP" and a == "max_qp_iters"):
            c.check(canon(getattr(pr.P, a)) == canon(probe.get(name, pr.Q, a)), "kept:%s.%s" % (name, a), "")
    if len(chosen) == 2: c.nontrivial()

# ---- B: the arguments of solve() -----------------------------------------------------------------------------------
KEYS = ["init_xs", "init_us", "maxiter", "isFeasible", "regInit"]
def arguments(c):
    name = c.pick(NAMES); c.shard()
    pk = c.choose(4)
    n = c.choose(6)           # arguments given
    npos = c.choose(n + 1)    # of which positional
    form = c.choose(3)        # list, StdVec, tuple of arrays
    xk = c.choose(6) if n >= 1 else 0  # guess: zeros, gaps, roll-out, empty, too short, wrong dimension
    uk = c.choose(4) if n >= 2 else 0
    mi = c.pick([0, 1, 4]) if n >= 3 else 100
    fe = c.flag() if n >= 4 else False
    rg = c.pick([1e-4, 0.0, float("nan")]) if n >= 5 else None
    if not c.thorough:
        if pk > 1 and (n < 3 or form or npos not in (0, n)): raise mcpy.Prune()
        if form and (npos not in (0, n) or n > 3): raise mcpy.Prune()
        if n >= 4 and (npos not in (0, 2, n) or xk > 3 or uk == 3 or pk > 1): raise mcpy.Prune()
    c.note("%s.solve on problem %d: %d arguments, %d positional, container %d, xs %d us %d maxiter %s isFeasible %s regInit %s" % (name, pk, n, npos, form, xk, uk, mi, fe, rg))
    pr = Pair(name, problems(name)[pk])
    xs, us = pr.pa.guess(min(xk, 2), 1.0)
    xs, us = list(xs), list(us)
    if xk == 3: xs = []
    if xk == 4: xs = xs[:-1]
    if xk == 5: xs[-1] = np.zeros(len(xs[-1]) + 1)
    if uk == 1: us = []
    if uk == 2: us = us[:-1]
    if uk == 3: us[0] = np.zeros(len(us[0]) + 1)
    args = [xs, us, mi, fe, rg][:n]
    def conv(l):
        if form == 1:
            v = crocoddyl.StdVec_VectorX()
            for x in l: v.append(x)
            return v
        return l if form == 0 else [np.asfortranarray(x) for x in l]
    pargs = [conv(a) if i < 2 else a for i, a in enumerate(args)]
    keep = [canon(a) for a in pargs[:2]]
    pr.both(c, "solve", lambda: pr.P.solve(*pargs[:npos], **{k: v for k, v in zip(KEYS[npos:n], pargs[npos:])}), "solve", args)
    c.check(keep == [canon(a) for a in pargs[:2]], "arguments-changed:%s" % name, "solve() changed the caller's guess")
    pr.same(c, "after solve")
    c.transition(); c.traces(); c.state(pr.digest())
    # usable afterwards
    solve_both(c, pr, 3, "solve after solve")
    if n > 2: c.nontrivial()

# ---- C: sequences of calls ------------------------------------------------------------------------------------------
def operations(name):
    o = [("dir", lambda P: P.computeDirection(True), "computeDirection", [True]), ("dirF", lambda P: P.computeDirection(False), "computeDirection", [False]),
         ("try1", lambda P: P.tryStep(1.0), "tryStep", [1.0]), ("try.5", lambda P: P.tryStep(0.5), "tryStep", [0.5]), ("try", lambda P: P.tryStep(), "tryStep0", []),
         ("stop", lambda P: P.stoppingCriteria(), "stoppingCriteria", []), ("exp", lambda P: P.expectedImprovement(), "expectedImprovement", []),
         ("diff", lambda P: P.calcDiff(), "calcDiff", []), ("fwd", lambda P: P.forwardPass(0.5), "forwardPass", [0.5]), ("bwd", lambda P: P.backwardPass(), "backwardPass", []),
         ("candF", None, "setCandidate", None), ("candT", None, "setCandidate", None), ("solve", None, "solve", None)]
    if name in ("SQP", "FDDP", "DDP"): o.append(("dir0", lambda P: P.computeDirection(), "computeDirection0", []))
    if name == "FDDP": o.append(("upd", lambda P: P.updateExpectedImprovement() and None, "updateExpectedImprovement", []))
    if name in ("CSQP", "PROXQP"): o += [("calcT", lambda P: P.calc(True), "calc", [True]), ("calcF", lambda P: P.calc(False), "calc", [False])]
    if name == "CSQP":
        o += [("lag", lambda P: P.update_lagrangian_parameters(2), "update_lagrangian_parameters", [2]), ("bwc", lambda P: P.backwardPass_without_constraints(), "backwardPass_without_constraints", []),
              ("bwr", lambda P: P.backwardPass_without_rho_update(), "backwardPass_without_rho_update", []), ("rho25", lambda P: P.update_rho_vec(25), "update_rho_vec", [25]), ("rho3", lambda P: P.update_rho_vec(3), "update_rho_vec", [3]),
              ("kkt", lambda P: P.checkKKTConditions(), "checkKKTConditions", [])]
    return o
OPS = {n: operations(n) for n in NAMES}
def sequences(c):
    name = c.pick(NAMES); pk = c.choose(4 if c.thorough else 2); start = c.choose(2); first = c.choose(len(OPS[name]))
    c.shard()
    depth = 3 if c.thorough else 2
    pr = Pair(name, problems(name)[pk])
    names = ["start%d" % start]; loose = False
    c.note("%s problem %d: %s ..." % (name, pk, names))
    xs, us = pr.pa.guess(1, 1.0)
    if start == 0:
        a = [xs, us, False]
        pr.both(c, "setCandidate", lambda: pr.P.setCandidate(*a), "setCandidate", a)
        pr.both(c, "computeDirection", lambda: pr.P.computeDirection(True), "computeDirection", [True])
    else: solve_both(c, pr, 1, "solve(maxiter=1)")
    for k in range(depth):
        o = OPS[name][first if k == 0 else c.choose(len(OPS[name]))]
        # calc() leaves the elimination of the last direction behind: what is computed from both before a new direction is meaningless
        if loose and o[2].startswith(("backwardPass_", "update_lag", "computeDirection0")) or loose and o[0] in ("dirF", "fwd", "kkt"): raise mcpy.Prune()
        if o[2] == "calc" or o[0] == "diff": loose = True
        if o[0] in ("dir", "solve"): loose = False
        names.append(o[0]); c.note("%s problem %d: %s" % (name, pk, names))
        if o[2] == "setCandidate":
            g = pr.pa.guess(2 if o[0] == "candT" else 1, 0.7); a = [g[0], g[1], o[0] == "candT"]
            pr.both(c, o[0], lambda: pr.P.setCandidate(*a), "setCandidate", a)
        elif o[2] == "solve":
            g = pr.pa.guess(1, 0.4); a = [g[0], g[1], 2]
            pr.both(c, o[0], lambda: pr.P.solve(*a), "solve", a)
        else: pr.both(c, o[0], lambda: o[1](pr.P), o[2], o[3])
        c.transition()
    c.traces()
    pr.same(c, "after %s" % names); c.state(pr.digest()); c.nontrivial()

# ---- D: callbacks ---------------------------------------------------------------------------------------------------
class Err(Exception): pass
class PyCb(mim_solvers.CallbackAbstract):
    def __init__(self, name, raises=-1):
        super().__init__(); self.name, self.raises, self.rows = name, raises, []
    def __call__(self, solver, solver_type):
        r = {a: canon(getattr(solver, a)) for a in READ[self.name]}
        r["#"], r["type"] = probe.tick(), solver_type
        self.rows.append(r)
        if len(self.rows) - 1 == self.raises: raise Err("callback")
# what the logger's columns mean
COLUMN = {"us": "us", "xs": "xs", "fs": "fs", "iter": "iter", "cost": "cost", "merit": "merit", "preg": "preg", "dreg": "dreg", "step": "stepLength",
          "gap_norm": "gap_norm", "constraint_norm": "constraint_norm", "qp_iter": "qp_iters", "KKT": "KKT"}
EXPECT = {"CSQP": list(COLUMN), "SQP": ["us", "xs", "fs", "iter", "cost", "merit", "preg", "dreg", "step", "KKT"]}
EXPECT["DDP"] = EXPECT["FDDP"] = [k for k in EXPECT["SQP"] if k != "merit"]
KINDS = ["log", "py", "cpp", "verb"]
ORDERS = [p for k in (1, 2, 3, 4) for p in itertools.permutations(KINDS, k)]
def callbacks(c):
    name = c.pick(["SQP", "CSQP", "FDDP", "DDP"]); order = c.pick(ORDERS if c.thorough else [o for o in ORDERS if len(o) < 4 or o[0] == "cpp"])
    c.shard()
    pk = c.choose(4 if c.thorough else 2)
    pat = c.pick(PATTERNS[3 if c.thorough else 2])
    mode = c.choose(4)  # plain, second solve appends, a Python callback raises, the C++ callback throws
    if mode == 2 and "py" not in order or mode == 3 and "cpp" not in order: raise mcpy.Prune()
    at = c.choose(3) if mode > 1 else -1
    opt = c.choose(2)
    if not c.thorough and len(order) > 2 and (opt or pk or len(pat) > 1): raise mcpy.Prune()
    c.note("%s callbacks %s on problem %d, trial outcomes %s, mode %d at %d, option set %d" % (name, order, pk, pat, mode, at, opt))
    pr = Pair(name, problems(name)[pk], pat)
    if opt:
        for s in (pr.P, pr.Q):
            if name != "DDP": probe.set(name, s, "use_filter_line_search", name not in ("SQP", "CSQP"))
            probe.set(name, s, "extra_iteration_for_last_kkt", True) if "extra_iteration_for_last_kkt" in WRITE[name] else None
    cbs, log, py, cpp = [], None, None, None
    for k in order:
        if k == "log": log = mim_solvers.CallbackLogger(); cbs.append(log)
        elif k == "py": py = PyCb(name, at if mode == 2 else -1); cbs.append(py)
        elif k == "cpp": cpp = probe.Recorder(name); cpp.raises = at if mode == 3 else -1; cbs.append(cpp)
        else: cbs.append(mim_solvers.CallbackVerbose())
    ref = probe.Recorder(name)
    ref.raises = at if mode > 1 else -1
    pr.Q.setCallbacks([ref])
    pr.P.setCallbacks(cbs)
    c.check(len(pr.P.getCallbacks()) == len(cbs), "getCallbacks", "")
    del cbs; gc.collect(0)
    xs, us = pr.pa.guess(1, 1.0)
    maxiter = 3
    try: r, ex = pr.P.solve(xs, us, maxiter), None
    except Exception as e: r, ex = None, e
    ok, q = probe.call(name, pr.Q, "solve", [xs, us, maxiter])
    c.check((ex is None) == ok, "callback-raise:%s" % name, "with the C++ callback solve() %s, with Python callbacks %r" % ("succeeds" if ok else "throws", ex))
    raised = mode > 1 and len(ref.rows) > at
    if raised and mode == 2 and ex is not None: c.check(type(ex) is Err, "callback-exception-type", repr(ex)); c.nontrivial()
    if raised and mode == 3 and ex is not None: c.check(isinstance(ex, RuntimeError), "callback-exception-type", repr(ex)); c.nontrivial()
    if ok and ex is None: c.check(r == q, "callback-result:%s" % name, "%s %s" % (r, q))
    pr.same(c, "after solve with callbacks")
    if mode == 1:
        xs2, us2 = pr.pa.guess(0, 1.0)
        pr.both(c, "second solve", lambda: pr.P.solve(xs2, us2, maxiter), "solve", [xs2, us2, maxiter]); c.nontrivial()
    rows = list(ref.rows)
    def n(kind): # calls a callback of this kind receives: those after the raising one miss the last round
        return len(rows) - (1 if raised and order.index(kind) > order.index({2: "py", 3: "cpp"}[mode]) else 0)
    c.transition(len(rows)); c.traces(); c.state(pr.digest()); c.stat("rows", len(rows))
    if log is not None:
        d = log.convergence_data
        if rows and n("log"):
            c.check(set(d) >= set(EXPECT[name]), "logger-columns:%s" % name, "%s" % sorted(set(EXPECT[name]) - set(d)))
        for k, v in d.items():
            c.check(len(v) == n("log"), "logger-rows:%s" % name, "column %s has %d rows, the solver reported %d times" % (k, len(v), n("log")))
            if k in COLUMN:
                for i in range(min(len(v), len(rows))):
                    c.check(canon(v[i]) == canon(rows[i][COLUMN[k]]), "logger:%s.%s" % (name, k), lambda: "row %d: logged %s, the solver reported %s" % (i, show(v[i]), show(rows[i][COLUMN[k]])))
    for kind, got, cn in (("py", py.rows if py else None, lambda x: x), ("cpp", list(cpp.rows) if cpp else None, canon)):
        if got is None: continue
        c.check(len(got) == n(kind), "calls:%s" % kind, "%d calls instead of %d" % (len(got), n(kind)))
        for i in range(min(len(got), len(rows))):
            c.check(got[i]["type"] == rows[i]["type"], "callback-type:%s" % name, "%s instead of %s" % (got[i]["type"], rows[i]["type"]))
            for a in READ[name]:
                if a in UNSET: continue
                c.checks += 1
                if cn(got[i][a]) != canon(rows[i][a]): c.fail("callback-sees:%s.%s" % (name, a), "call %d of the %s callback sees another value of %s than the C++ callback of the twin" % (i, kind, a))
    if py and cpp:
        first, second = (py.rows, list(cpp.rows)) if order.index("py") < order.index("cpp") else (list(cpp.rows), py.rows)
        seq = [x["#"] for p in itertools.zip_longest(first, second) for x in p if x is not None]
        c.check(seq == sorted(seq), "callback-order", "%s" % seq)
    # usable afterwards, with other callbacks
    pr.P.setCallbacks([]); pr.Q.setCallbacks([])
    cnt = [len(x) for x in ([log.convergence_data.get("KKT", [])] if log else []) + ([py.rows] if py else [])]
    solve_both(c, pr, 3, "solve after callbacks")
    c.check(cnt == [len(x) for x in ([log.convergence_data.get("KKT", [])] if log else []) + ([py.rows] if py else [])], "callbacks-removed", "removed callbacks are still called")
PATTERNS = {k: [p for m in range(k + 1) for p in itertools.product(range(5), repeat=m)] for k in (1, 2, 3)}

# ---- E: action models written in Python -----------------------------------------------------------------------------
class PyModel(crocoddyl.ActionModelAbstract):
    """Forwards to a C++ model, so that its numbers are the same, and keeps its own record of the calls."""
    def __init__(self, inner, t, log, fail):
        super().__init__(inner.state, inner.nu, inner.nr, inner.ng, inner.nh)
        self.inner, self.t, self.log, self.fail_at = inner, t, log, fail
        self.g_lb, self.g_ub = inner.g_lb, inner.g_ub
    def bump(self, kind, x, u):
        self.log.append((kind, self.t, canon(np.array(x)), canon(np.array(u) if u is not None else np.zeros(0))))
        if self.fail_at[0] >= 0:
            self.fail_at[0] -= 1
            if self.fail_at[0] < 0: raise Err("model")
    def calc(self, d, x, u=None):
        self.bump("calc", x, u); probe.model_calc(self.inner, d.inner, x, u)
        i = d.inner; d.cost = i.cost
        if u is not None: d.xnext = i.xnext
        if self.ng: d.g = i.g
    def calcDiff(self, d, x, u=None):
        self.bump("diff", x, u); probe.model_diff(self.inner, d.inner, x, u)
        i = d.inner; n, m, g = self.state.ndx, self.nu, self.ng
        def mat(a, r, k): return np.array(a).reshape(r, k)  # eigenpy hands out one-row matrices as vectors
        d.Lx = i.Lx; d.Lxx = mat(i.Lxx, n, n)
        if g: d.Gx = mat(i.Gx, g, n)
        if u is not None:
            d.Fx = mat(i.Fx, n, n)
            if m: d.Fu = mat(i.Fu, n, m); d.Lu = i.Lu; d.Luu = mat(i.Luu, m, m); d.Lxu = mat(i.Lxu, n, m)
            if g and m: d.Gu = mat(i.Gu, g, m)
    def createData(self): return PyData(self)
class PyData(crocoddyl.ActionDataAbstract):
    def __init__(self, model): super().__init__(model); self.inner = probe.model_data(model.inner)
def models(c):
    name = c.pick(NAMES); pk = c.choose(4); pat = c.pick(PATTERNS[3 if c.thorough else 2]); c.shard()
    mode = c.pick([0, 2, 3])  # plain; Python evaluation k raises; second solve
    k = c.choose(14 if c.thorough else 9) if mode == 2 else 0
    if mode == 2 and len(pat) > (1 if c.thorough else 0): raise mcpy.Prune()
    if 4 in pat: raise mcpy.Prune()  # Python exceptions end the solve, see mode 2
    opt = c.choose(2) if name != "DDP" else 0
    c.note("%s with Python models on problem %d, trial outcomes %s, mode %d evaluation %d, option %d" % (name, pk, pat, mode, k, opt))
    log, fail = [], [-1]
    def wrap(p):
        ms = [PyModel(m, t, log, fail) for t, m in enumerate(list(p.runningModels) + [p.terminalModel])]
        return crocoddyl.ShootingProblem(p.x0, ms[:-1], ms[-1])
    pr = Pair(name, problems(name)[pk], pat, wrap)
    if opt:
        for s in (pr.P, pr.Q): probe.set(name, s, "use_filter_line_search", not probe.get(name, s, "use_filter_line_search"))
    xs, us = pr.pa.guess(1, 1.0); xs, us = list(xs), list(us)
    fail[0] = k if mode == 2 else -1
    del log[:]
    pr.pa.start(); pr.pb.start()
    def logs(where):
        la, lb = list(pr.pa.log()), list(pr.pb.log())
        ca, cb = [(a[0], a[1], canon(a[2]), canon(a[3])) for a in la], [(a[0], a[1], canon(a[2]), canon(a[3])) for a in lb]
        c.transition(len(cb)); c.traces()
        d = next((i for i in range(min(len(ca), len(cb))) if ca[i] != cb[i]), min(len(ca), len(cb)))
        c.check(ca == cb, "model-calls:%s" % name, lambda: "%s: evaluation %d differs (%d and %d evaluations): %s, C++ %s" % (where, d, len(ca), len(cb), la[d:d + 1], lb[d:d + 1]))
        c.check([o[:3] for o in log] == [a[:3] for a in ca], "model-log:%s" % name, where)
        return la
    try: r, ex = pr.P.solve(xs, us, 3), None
    except Exception as e: r, ex = None, e
    fired = fail[0] < 0
    if mode == 2:
        pr.pa.log(); pr.pb.log()
        if fired: c.check(type(ex) is Err, "model-exception:%s" % name, "the exception raised by evaluation %d of the Python model ended as %r, result %s" % (k, ex, r)); c.nontrivial()
        fail[0] = -1
        # usable afterwards: a fresh solver gives the same answer from the same guess
        f = Pair(name, problems(name)[pk], pat)
        for s in (pr.P, f.P):
            for a in ("reset_y", "reset_rho"):
                if a in WRITE[name]: probe.set(name, s, a, True)
            if opt: probe.set(name, s, "use_filter_line_search", probe.get(name, pr.P, "use_filter_line_search"))
            if name != "PROXQP": probe.set(name, s, "preg", 0.0); probe.set(name, s, "dreg", 0.0)
        pr.pa.pattern(list(pat))
        try: ra, ea = pr.P.solve(xs, us, 3, False, 1e-9), None
        except Exception as e: ra, ea = None, e
        try: rb, eb = f.P.solve(xs, us, 3, False, 1e-9), None
        except Exception as e: rb, eb = None, e
        c.check(ra == rb and type(ea) is type(eb), "usable:%s" % name, "after an exception in a model solve() gives %s %r, a fresh solver %s %r" % (ra, ea, rb, eb))
        for a in ("xs", "us", "cost", "KKT", "iter"):
            c.check(canon(getattr(pr.P, a)) == canon(getattr(f.P, a)), "usable:%s.%s" % (name, a), lambda: "after an exception: %s, fresh: %s" % (show(getattr(pr.P, a)), show(getattr(f.P, a))))
        c.state(pr.digest())
        return
    ok, q = probe.call(name, pr.Q, "solve", [xs, us, 3])
    logs("solve")
    c.check((ex is None) == ok, "model-raise:%s" % name, "C++ models: solve() %s; the same models through Python: %r" % ("returns %s" % q if ok else "throws", ex))
    if ok and ex is None: c.check(r == q, "model-result:%s" % name, "%s %s" % (r, q))
    pr.same(c, "solve with Python models")
    c.state(pr.digest())
    if mode == 3:
        del log[:]
        xs2, us2 = pr.pa.guess(0, 1.0)
        pr.pa.start(); pr.pb.start()
        pr.both(c, "second solve", lambda: pr.P.solve(xs2, us2, 3), "solve", [xs2, us2, 3]); logs("second solve")
        pr.same(c, "second solve with Python models")
    if pat: c.nontrivial()

# ---- F: objects ---------------------------------------------------------------------------------------------------
def objects(c):
    kind = c.choose(3)
    if kind == 0:  # unsupported equality constraints are rejected at construction
        name = c.pick(NAMES); pk = c.choose(4); c.shard()
        c.note("construct %s with equality constraints, problem %d" % (name, pk))
        p = probe.Problem(dict(problems(name)[pk], nh=True))
        try: probe.make(name, p.problem); cok = True
        except RuntimeError: cok = False
        try: cls(name)(p.problem); ex = None
        except Exception as e: ex = e
        c.check((ex is None) == cok, "construct:%s" % name, "C++ construction %s, Python %r" % ("succeeds" if cok else "throws", ex))
        try: cls(name)(problem=probe.Problem(problems(name)[pk]).problem); kw = True
        except Exception as e: kw = name in ("DDP", "FDDP")
        c.check(kw, "construct-keyword:%s" % name, "")
    elif kind == 1:  # printing callback: precision
        ctor = c.choose(3); v = c.pick([0, 1, 3, 7, -1]); c.shard()
        c.note("CallbackVerbose precision %d set by %d" % (v, ctor))
        try:
            cb = mim_solvers.CallbackVerbose(v) if ctor == 0 else mim_solvers.CallbackVerbose(precision=v) if ctor == 1 else mim_solvers.CallbackVerbose()
            if ctor == 2: c.check(cb.precision == 3, "precision-default", "%s" % cb.precision); cb.precision = v
            ex = None
        except Exception as e: ex = e
        c.check((ex is None) == (v >= 0), "precision-raise", "%d: %r" % (v, ex))
        if ex is None: c.check(cb.precision == v, "precision", "%s" % cb.precision)
    else:  # two solvers and two loggers do not share anything
        name = c.pick(["SQP", "CSQP", "FDDP", "DDP"]); pk = c.choose(4); c.shard()
        c.note("two %s solvers side by side, problem %d" % (name, pk))
        a, b = Pair(name, problems(name)[pk]), Pair(name, problems(name)[pk])
        la, lb = mim_solvers.CallbackLogger(), mim_solvers.CallbackLogger()
        a.P.setCallbacks([la]); b.P.setCallbacks([lb])
        xs, us = a.pa.guess(1, 1.0); a.P.solve(xs, us, 2)
        b.same(c, "another solver was run")
        c.check(not lb.convergence_data, "logger-shared", "")
        n = len(la.convergence_data["KKT"]) if la.convergence_data else 0
        b.P.solve(xs, us, 2)
        c.check((len(la.convergence_data["KKT"]) if la.convergence_data else 0) == n, "logger-shared", "")
    c.transition(); c.traces(); c.state(c.cfg); c.nontrivial()

MODES = [options, arguments, sequences, callbacks, models, objects]
def body(c):
    k = c.choose(len(MODES))
    if os.environ.get("C20_MODE") and k != int(os.environ["C20_MODE"]): raise mcpy.Prune()
    MODES[k](c)
    c.stat(MODES[k].__name__)
sys.exit(mcpy.main("C20",
    "every option value and pair of option settings, every way of passing the arguments of solve(), every sequence of method calls up to the depth, every list of callbacks under every trial outcome pattern and raising point, Python action models under every trial outcome pattern and failing evaluation; each Python-driven solver is compared bit by bit with a C++-driven twin",
    "single options and unordered pairs on 2 problems per solver; argument forms on 4 problems; 2 method calls after a first direction or solve; permutations of <= 3 callback kinds (logger, Python, C++, printing) with trial outcome patterns of length <= 2; Python models with patterns of length <= 2 and a failing evaluation up to the 9th",
    "ordered pairs of options on 4 problems; all argument forms; 3 method calls; all permutations of 4 callback kinds with patterns of length <= 3; Python models with patterns of length <= 3 and a failing evaluation up to the 14th",
    ["crocoddyl's and eigenpy's own bindings are trusted", "the twin is created, configured and read by direct C++ calls"],
    body, T0))
