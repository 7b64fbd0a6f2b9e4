"""Path exploration: decisions, path conditions, solver, budget."""
import time
import z3
z3.z3.Z3_DEBUG = False


class Ctl(BaseException):
    """control exceptions of the engine; guest code never sees them"""


class Infeasible(Ctl):
    pass


class Unsupported(Ctl):
    pass


class Inconclusive(Ctl):
    pass


class TickLimit(Ctl):
    pass


class PathEnd(Ctl):
    """harness asked to stop this path (assume false / known region)"""


class Cex(Ctl):
    def __init__(self, label, values):
        Ctl.__init__(self, label)
        self.label = label
        self.values = values


class Stats:
    FIELDS = ('paths', 'branches', 'queries', 'sat', 'unsat', 'unknown', 'assertions', 'proved_trivially',
              'solver_s', 'infeasible', 'concretized', 'ticklimit')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.functions = {}
        self.conc_sites = {}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        for k, v in d['functions'].items():
            self.functions[k] = self.functions.get(k, 0) + v
        for k, v in d['conc_sites'].items():
            self.conc_sites[k] = self.conc_sites.get(k, 0) + v

    def dump(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['functions'] = self.functions
        d['conc_sites'] = self.conc_sites
        return d


class Engine:
    def __init__(self):
        self.solver = z3.SolverFor('QF_FPBV')
        self.solver.set('timeout', 30000)
        self.stack = []       # constraints asserted in the solver
        self.stats = Stats()
        self.max_ticks = 200000
        self.conc_limit = 100
        self.on = False
        self.reals = False
        self.aborting = False
        self.reset_path([])

    # -- one path
    def reset_path(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []         # prefixes still to explore, found on this path
        self.pc = []
        self.known = {}
        self.model = None
        self.inputs = []       # (name, kind, data)
        self.input_names = {}
        self.observed = []
        self.ticks = 0
        self.max_ticks = 200000
        self.aborting = False
        self.region = None
        self.fresh_n = 0
        self.nconc = 0
        self.keep = []
        self.deadline = None
        self.cexes = []
        self.reached = set()

    def fresh(self, base, sort):
        self.fresh_n += 1
        return z3.Const('%s!%d' % (base, self.fresh_n), sort)

    def use_reals(self):
        """from here on, a solver that also decides linear arithmetic over integers and reals"""
        if not self.reals:
            self.reals = True
            self.solver = z3.Solver()
            self.solver.set('timeout', 60000)
            self.stack = []

    # -- solver
    def sync(self):
        st, pc = self.stack, self.pc
        i = 0
        n = min(len(st), len(pc))
        while i < n and (st[i] is pc[i] or st[i].eq(pc[i])):
            i += 1
        if i < len(st):
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in pc[i:]:
            self.solver.push()
            self.solver.add(c)
            st.append(c)

    def check(self, *extra):
        """satisfiability of pc and extra; 'unknown' is retried once without increments"""
        self.sync()
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(*extra)
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', 120000)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            self._m = s
        else:
            self._m = self.solver
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            self.stats.sat += 1
            return True
        if r == z3.unsat:
            self.stats.unsat += 1
            return False
        self.stats.unknown += 1
        raise Inconclusive('solver answered unknown: %s' % self._m.reason_unknown())

    def get_model(self):
        if self.model is None:
            if not self.check():
                raise Infeasible()
            self.model = self._m.model()
        return self.model

    def assume(self, c):
        """add a constraint (already known or required to hold)"""
        if self.aborting:
            raise PathEnd('aborting')
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        self.pc.append(c)
        if self.model is not None:
            if not z3.is_true(self.model.eval(c, True)):
                self.model = None
                self.get_model()

    def branch(self, c):
        """decide a z3 Bool on this path; forks when both sides are feasible"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        v = self.known.get(k)
        if v is not None:
            return v
        if self.aborting:
            raise PathEnd('aborting')
        nc = z3.simplify(z3.Not(c))
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            forced = d >= 2
            r = bool(d & 1)
            self.taken.append(d)
            self.keep.append((c, nc))
            if not forced:
                self.pc.append(c if r else nc)
                self.model = None
            self.known[k] = r
            self.known[nc.get_id()] = not r
            return r
        self.stats.branches += 1
        m = self.get_model()
        side = z3.is_true(m.eval(c, True))
        other = nc if side else c
        if self.check(other):
            # both feasible
            om = self._m.model()
            self.alts.append(self.taken + [0 if side else 1])
            d = 1 if side else 0
            self.pc.append(c if side else nc)
        else:
            d = 3 if side else 2
        self.taken.append(d)
        self.pos += 1
        self.keep.append((c, nc))
        self.known[k] = side
        self.known[nc.get_id()] = not side
        return side

    def choose(self, n):
        """nondeterministic choice of 0..n-1, recorded as bits of the decision list"""
        if n <= 1:
            return 0
        if self.aborting:
            raise PathEnd('aborting')
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            return d - 100
        self.stats.branches += 1
        for i in range(n - 1, 0, -1):
            self.alts.append(self.taken + [100 + i])
        self.taken.append(100)
        self.pos += 1
        return 0

    def note_concretize(self, what):
        self.stats.concretized += 1
        self.nconc += 1
        self.stats.conc_sites[what] = self.stats.conc_sites.get(what, 0) + 1

    def concretize_bv(self, e, signed=True, what='int'):
        """enumerate the values of a bit-vector term by forking"""
        n = 0
        while True:
            s = z3.simplify(e)
            if z3.is_bv_value(s):
                return s.as_signed_long() if signed else s.as_long()
            if self.pos < len(self.prefix):
                # replay: same sequence of equality decisions; recompute candidate from recorded value
                v = self.prefix_value()
            else:
                m = self.get_model()
                mv = m.eval(e, True)
                v = mv.as_signed_long() if signed else mv.as_long()
                self.pending_value = v
            n += 1
            if n == 1:
                self.note_concretize(what)
            if n > self.conc_limit:
                raise Inconclusive('too many values to enumerate: %s' % what)
            if self.decide_value(e, v):
                return v

    # values chosen by models are recorded in the decision list so that replays are deterministic
    def prefix_value(self):
        d = self.prefix[self.pos]
        assert isinstance(d, tuple), d
        return d[1]

    def decide_value(self, e, v):
        c = z3.simplify(e == v)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.taken.append(d)
            r = bool(d[0] & 1)
            if d[0] < 2:
                cc = c if r else z3.simplify(z3.Not(c))
                self.pc.append(cc)
                self.keep.append(cc)
                self.model = None
            return r
        self.stats.branches += 1
        if self.check(z3.Not(c)):
            self.alts.append(self.taken + [(0, v)])
            d = (1, v)
            self.pc.append(c)
            if self.model is not None and not z3.is_true(self.model.eval(c, True)):
                self.model = None
        else:
            d = (3, v)
        self.taken.append(d)
        self.pos += 1
        return True

    def tick(self):
        self.ticks += 1
        if self.ticks > self.max_ticks:
            raise TickLimit()
        if self.deadline and not self.ticks & 1023 and time.process_time() > self.deadline:
            raise Inconclusive('path time limit')


E = Engine()
