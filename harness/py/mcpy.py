"""Exhaustive depth-first exploration of choice sequences for checks written in Python (the counterpart of harness/mc.hpp).

A body receives a Ctx and calls choose()/pick()/flag(); every sequence of choices is executed exactly once, split over forked
workers at shard().  Evidence, replay files and known findings have the same form as those of the C++ checks.
"""
import json, mmap, os, signal, struct, sys, time, traceback
VERIF = os.environ.get("VERIF_DIR", os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
TIMEOUT = 120

class Skip(Exception): pass
class Prune(Exception): pass
class Nondet(Exception): pass

class Ctx:
    def __init__(self, thorough, worker=0, nworkers=1, shm=None):
        self.thorough, self.worker, self.nworkers, self.shm = thorough, worker, nworkers, shm
        self.path, self.width, self.pos, self.cfg = [], [], 0, ""
        self.ordinal, self.prefix = -1, None
        self.execs = self.trans = self.ntraces = self.checks = self.nontriv = 0
        self.seen, self.stats, self.samples, self.viols = set(), {}, [], {}
        self.replaying = False
        self.known, self.found, self.stopped = set(), None, False
    def choose(self, n):
        assert n > 0
        if self.pos == len(self.path): self.path.append(0); self.width.append(n)
        elif self.width[self.pos] != n and not self.replaying: raise Nondet()
        v = self.path[self.pos]; self.pos += 1
        return v
    def pick(self, seq): return seq[self.choose(len(seq))]
    def flag(self): return bool(self.choose(2))
    def shard(self):
        if self.replaying or self.nworkers == 1: return
        p = tuple(self.path[:self.pos])
        if p != self.prefix: self.prefix = p; self.ordinal += 1
        if (self.ordinal * 2654435761 >> 7) % self.nworkers != self.worker: raise Skip()
    def note(self, s):
        self.cfg = s
        if self.shm is not None:
            b = s.encode()[:3500]; p = self.path[:900]
            self.shm[0:4 + 4 * len(p)] = struct.pack("i%di" % len(p), len(p), *p)
            self.shm[4096:4096 + len(b) + 1] = b + b"\0"
    def state(self, key): self.seen.add(hash(key))
    def transition(self, n=1): self.trans += n
    def traces(self, n=1): self.ntraces += n
    def nontrivial(self): self.nt = True
    def stat(self, k, n=1): self.stats[k] = self.stats.get(k, 0) + n
    def sample(self, s):
        if len(self.samples) < 6: self.samples.append(s)
    def check(self, cond, key, msg=""):
        self.checks += 1
        if not cond: self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)
    def fail(self, key, msg):
        if self.found is not None and key not in self.known: self.found[0] = 1
        if key not in self.viols: self.viols[key] = {"key": key, "msg": str(msg).replace("\n", " ")[:600], "cfg": self.cfg, "path": self.path[:self.pos]}

def run_one(c, body):
    c.pos, c.nt = 0, False
    try:
        body(c); c.execs += 1; c.nontriv += c.nt
    except Skip: del c.path[c.pos:], c.width[c.pos:]
    except Prune: del c.path[c.pos:], c.width[c.pos:]
    except Nondet: raise
    except Exception as e:  # the check itself must not fall over: what it did not expect is reported
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.execs += 1
        c.fail("exception:" + type(e).__name__, "%s at %s:%d" % (e, os.path.basename(tb.filename), tb.lineno))
        del c.path[c.pos:], c.width[c.pos:]

def explore(c, body):
    t0 = time.time(); grace = float(os.environ.get("MC_GRACE", 120 if c.thorough else 30))
    while True:
        # with a violation at hand the rest of the space is of no interest
        if c.found is not None and c.found[0] and time.time() - t0 > grace: c.stopped = True; break
        signal.alarm(TIMEOUT)
        run_one(c, body)
        while c.path and c.path[-1] + 1 >= c.width[-1]: c.path.pop(); c.width.pop()
        if not c.path: break
        c.path[-1] += 1
    signal.alarm(0)

def known(prop):
    out = {}
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                r = l.split("key=", 1)[1]; k, _, d = r.partition(" "); out[k] = d
    return out

def main(prop, rule, bounds_quick, bounds_thorough, assumptions, body, t0):
    argv = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick"); replay = None
    scratch = os.environ.get("MC_SCRATCH", "/tmp"); nw = int(os.environ.get("MC_WORKERS", "8"))
    i = 0
    while i < len(argv):
        if argv[i] == "--thorough": tier = "thorough"
        elif argv[i] == "--quick": tier = "quick"
        elif argv[i] == "--replay": i += 1; replay = argv[i]
        i += 1
    th = tier == "thorough"
    if replay:
        c = Ctx(th); c.replaying = True
        for l in open(replay):
            if l.startswith("tier "): c.thorough = l.split()[1] == "thorough"
            if l.startswith("choices"): c.path = [int(v) for v in l.split()[1:]]; c.width = [v + 1 for v in c.path]
        run_one(c, body)
        print("replay cfg:", c.cfg)
        for v in c.viols.values(): print("VIOLATION property=%s replay=%s\n  %s: %s" % (prop, replay, v["key"], v["msg"]))
        if not c.viols: print("no violation on replay")
        return 1 if c.viols else 0
    sys.stdout.flush(); sys.stderr.flush()
    shms, pids = [], []
    found = mmap.mmap(-1, 4096)
    for w in range(nw):
        shms.append(mmap.mmap(-1, 8192))
        p = os.fork()
        if p == 0:
            rc = 71
            try:
                dn = os.open(os.devnull, os.O_WRONLY); err = os.dup(2); os.dup2(dn, 1); os.dup2(dn, 2)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                c = Ctx(th, w, nw, shms[w]); c.known, c.found = set(known(prop)), found
                try: explore(c, body); rc = 0
                except Nondet: rc = 70
                except BaseException: os.write(err, traceback.format_exc().encode())
                if rc == 0:
                    json.dump({"n": [c.execs, c.trans, c.ntraces, c.checks, c.nontriv, len(c.seen)], "stats": c.stats, "samples": c.samples, "viols": c.viols, "stopped": c.stopped},
                              open("%s/w%d" % (scratch, w), "w"))
            finally: os._exit(rc)
        pids.append(p)
    tot = [0] * 6; stats, samples, viols, broken, stopped = {}, [], {}, False, False
    ended = {}
    while len(ended) < len(pids):
        q, st = os.wait(); ended[q] = st
        if st: found[0] = 1
    for w, p in enumerate(pids):
        st = ended[p]
        if st != 0:
            b = bytes(shms[w]); n = struct.unpack("i", b[:4])[0]
            v = {"path": list(struct.unpack("%di" % n, b[4:4 + 4 * n])), "cfg": b[4096:].split(b"\0")[0].decode(errors="replace")}
            if os.WIFSIGNALED(st):
                s = os.WTERMSIG(st)
                if s == signal.SIGKILL: print("worker %d was killed" % w, file=sys.stderr); broken = True; continue
                if s == signal.SIGALRM: v["key"], v["msg"] = "hang", "no progress for %d s" % TIMEOUT
                else: v["key"], v["msg"] = "crash", "worker ended with signal %d" % s
            elif os.WEXITSTATUS(st) == 70: broken = True; v["key"], v["msg"] = "nondeterminism", "the same choices led to different behaviour"
            elif os.WEXITSTATUS(st) == 71: broken = True; continue
            else: v["key"], v["msg"] = "crash", "worker ended with status %d" % st
            viols.setdefault(v["key"], v); continue
        r = json.load(open("%s/w%d" % (scratch, w)))
        stopped = stopped or r["stopped"]
        tot = [a + b for a, b in zip(tot, r["n"])]
        for k, v in r["stats"].items(): stats[k] = stats.get(k, 0) + v
        samples = (samples + r["samples"])[:6]
        for k, v in r["viols"].items(): viols.setdefault(k, v)
        os.unlink("%s/w%d" % (scratch, w))
    wall = time.time() - t0
    kn = known(prop); bad = 0
    os.makedirs(VERIF + "/replay", exist_ok=True); os.makedirs(VERIF + "/evidence", exist_ok=True)
    for k in sorted(viols):
        v = viols[k]
        if k in kn: print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[k], k)); continue
        rp = "%s/replay/%s-%d.txt" % (VERIF, prop, bad); bad += 1
        with open(rp, "w") as o: o.write("property %s\ntier %s\nkey %s\nmsg %s\ncfg %s\nchoices %s\n" % (prop, tier, k, v["msg"], v["cfg"], " ".join(map(str, v["path"]))))
        print("VIOLATION property=%s replay=%s\n  %s: %s\n  cfg: %s" % (prop, rp, k, v["msg"], v["cfg"]))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": tot[5], "transitions": tot[1], "executions": tot[0], "traces_validated_against_impl": tot[2], "assertions_evaluated": tot[3],
                       "executions_nontrivial": tot[4], "exhaustive": not stopped and not broken, "rule": rule, "bounds": bounds_thorough if th else bounds_quick,
                       "stats": stats, "samples": samples},
          "assumptions": assumptions, "wall_s": wall, "violations": bad}
    json.dump(ev, open("%s/evidence/%s.json" % (VERIF, prop), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d traces compared, %d assertions, %.1f s" % (prop, tier, tot[0], tot[5], tot[1], tot[2], tot[3], wall))
    if os.environ.get("MC_STATS"):
        for k in sorted(stats): print("   %s = %d" % (k, stats[k]))
    if bad: return 1
    if broken: print("the check itself failed"); return 2
    if not tot[0] or not tot[3]: print("nothing was explored"); return 2
    return 0
