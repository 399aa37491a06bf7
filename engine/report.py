"""Running a check: obligations, solver accounting, evidence, exit codes, known findings."""
import os, sys, json, time, traceback, multiprocessing, re, random
import z3
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Inconclusive(Exception):
    """the check cannot decide (not a verdict)"""


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.queries, self.solver_s = 0, 0.0
        self.obl, self.disch = 0, 0
        self.samples, self.assumptions, self.notes, self.bounds = [], [], [], []
        self.functions, self.stubs = set(), []
        self.witnesses = 0
        self.validated = 0
        self.viol = []
        self.found = []
        self.extra = {}
        self.rng = random.Random(seed)
        self.deadline = self.t0 + (800 if tier == "quick" else 14000)

    thorough = property(lambda s: s.tier == "thorough")

    # ------------------------------------------------------------ solver
    def sat(self, solver, timeout=60, *assume):
        """'sat' / 'unsat'; unknown is inconclusive"""
        solver.set("timeout", int(timeout * 1000))
        t = time.time()
        r = solver.check(*assume)
        self.queries += 1
        self.solver_s += time.time() - t
        if r == z3.unknown:
            raise Inconclusive("solver gave no answer: " + solver.reason_unknown())
        return str(r)

    def absorb(self, st):
        self.queries += st["queries"]
        self.solver_s += st["solver_s"]
        self.obl += st["obl"]
        self.disch += st["disch"]
        self.witnesses += st["witnesses"]
        self.validated += st["validated"]
        self.functions |= set(st["functions"])
        for k, v in st.get("extra", {}).items():
            self.extra[k] = self.extra.get(k, 0) + v

    def counters(self):
        return dict(queries=self.queries, solver_s=self.solver_s, obl=self.obl, disch=self.disch,
                    witnesses=self.witnesses, validated=self.validated, functions=sorted(self.functions),
                    extra={k: v for k, v in self.extra.items() if isinstance(v, (int, float))})

    def ok(self, n=1):
        self.obl += n
        self.disch += n

    # ------------------------------------------------------------ violations
    def known(self):
        """findings listed in KNOWN_FINDINGS.txt for this property: [(key, text)]"""
        out = []
        p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def violation(self, key, what, replay):
        """a counterexample that was replayed on the real code"""
        for k, text in self.known():
            if k == key:
                if k not in self.found:
                    self.found.append(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
                return
        self.viol.append(dict(key=key, what=what, replay=replay))

    def write(self, extra_cov=None):
        d = os.path.join(HERE, "evidence")
        os.makedirs(d, exist_ok=True)
        cov = dict(explanation="obligations discharged by SMT queries over the symbolic execution of the listed functions' "
                               "LLVM IR, regenerated from /repo in this run",
                   obligations=self.obl, discharged=self.disch, solver_queries=self.queries,
                   solver_seconds=round(self.solver_s, 3), functions_encoded=sorted(self.functions), bounds=self.bounds,
                   vacuity_witnesses=self.witnesses, encodings_validated_against_native=self.validated,
                   stubs=self.stubs, samples=self.samples[:12], notes=self.notes)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="other", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        json.dump(ev, open(os.path.join(d, self.pid + ".json"), "w"), indent=1, default=str)
        if self.viol:
            p = os.path.join(d, self.pid + ".replay.json")
            json.dump(self.viol, open(p, "w"), indent=1, default=str)
            return p

    def finish(self):
        p = self.write()
        for v in self.viol[:5]:
            print("  " + v["what"])
        if self.viol:
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, HERE)))
            return 1
        if not self.obl or self.disch < self.obl:
            print("INCONCLUSIVE property=%s %d of %d obligations discharged" % (self.pid, self.disch, self.obl))
            return 2
        if not self.witnesses:
            print("INCONCLUSIVE property=%s nothing showed that the assertions are reachable" % self.pid)
            return 2
        print("OK property=%s tier=%s obligations=%d queries=%d solver=%.1fs functions=%d wall=%.1fs" % (
            self.pid, self.tier, self.obl, self.queries, self.solver_s, len(self.functions), time.time() - self.t0))
        return 0


def run(pid, tier, seed, fn):
    ck = Check(pid, tier, seed)
    try:
        fn(ck)
        return ck.finish()
    except Inconclusive as e:
        if ck.viol:
            return ck.finish()
        print("INCONCLUSIVE property=%s %s" % (pid, e))
    except Exception:
        traceback.print_exc()
        if ck.viol:
            return ck.finish()
        print("INCONCLUSIVE property=%s internal error" % pid)
    try:
        ck.write()
    except Exception:
        pass
    return 2


# ---------------------------------------------------------------- parallel map over forked workers
def pmap(ck, fn, items, nproc=None):
    """fn(worker_check, item) -> picklable; counters of the workers are added to ck"""
    nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(items)))
    if nproc <= 1 or len(items) <= 1:
        return [fn(ck, i) for i in items]
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    nxt = ctx.Value("i", 0)

    def work():
        w = Check(ck.pid, ck.tier, ck.seed)
        w.deadline = ck.deadline
        while True:
            with nxt.get_lock():
                k = nxt.value
                nxt.value += 1
            if k >= len(items):
                break
            try:
                r = ("ok", fn(w, items[k]))
            except Inconclusive as e:
                r = ("inc", "%s: %s" % (items[k], e))
            except Exception as e:
                r = ("err", "%s: %s\n%s" % (items[k], e, traceback.format_exc()[-1500:]))
            q.put((k, r))
        q.put((None, w.counters()))
        q.close()
        q.join_thread()
        os._exit(0)
    ps = [ctx.Process(target=work) for _ in range(nproc)]
    for p in ps:
        p.start()
    out, left = {}, nproc
    import queue
    while left:
        try:
            k, r = q.get(timeout=5)
        except queue.Empty:
            if all(not p.is_alive() for p in ps) and q.empty():
                break       # ended from outside (memory); their items count as undecided
            if time.time() > ck.deadline + 60:
                for p in ps:
                    p.kill()
                raise Inconclusive("time limit")
            continue
        if k is None:
            ck.absorb(r)
            left -= 1
        else:
            out[k] = r
    for p in ps:
        p.join()
    res, bad = [], []
    for k in range(len(items)):
        s, v = out.get(k, ("err", "no result for %s" % (items[k],)))
        if s != "ok":
            bad.append(v)
        res.append(v if s == "ok" else None)
    ck.problems = bad
    return res


# ---------------------------------------------------------------- linear real arithmetic over monomials
def decide_zero(ck, cas, diff, tol, label="", chunk=400):
    """Is |sum v_i m_i| <= tol * sum g_i |m_i| for all real values of the monomials?  Returns list of offending
    monomial texts (empty: proved)."""
    bad = []
    items = list(diff.items())
    for k in range(0, max(len(items), 1), chunk):
        part = items[k:k + chunk]
        s = z3.SolverFor("QF_LRA")
        ms = [z3.Real("m%d" % i) for i in range(len(part))]
        ab = [z3.Real("a%d" % i) for i in range(len(part))]
        for m, a in zip(ms, ab):
            s.add(a >= m, a >= -m)
        lhs = z3.Sum([q(c.real) * m for (_, c), m in zip(part, ms)]) if part else z3.RealVal(0)
        rhs = z3.Sum([q(tol * c.imag) * a for (_, c), a in zip(part, ab)]) if part else z3.RealVal(0)
        s.add(lhs > rhs)
        if ck.sat(s) == "sat":
            mo = s.model()
            for (mid, c), m in zip(part, ms):
                v = mo[m]
                if v is not None and abs(c.real) > tol * c.imag:
                    bad.append("%.12g*%s" % (c.real, cas.mshow(mid)))
            bad = bad or ["?"]
    return bad


def q(x):
    from fractions import Fraction
    return z3.RealVal(str(Fraction(x)))
