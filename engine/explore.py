"""Exploration of harness cases: depth-first by re-execution, shared between worker processes."""
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import random
import sys
import threading
import time
import traceback
from collections import deque
import core
from core import E, Cex, Ctl, Infeasible, Inconclusive, PathEnd, TickLimit, Unsupported
import rt
import world
import stubs
import api

sys.setrecursionlimit(6000)


def run_path(module, case, prefix, quick, known, limit):
    """one execution; -> dict"""
    E.reset_path(prefix)
    E.stats.paths += 1
    w = world.new_world()
    s = api.S(quick, known)
    r = {'end': 'ok', 'cex': [], 'detail': None}
    E.deadline = time.process_time() + limit
    E.on = True
    try:
        try:
            hm = w.load(module)
            rt.call(rt.getattr_(hm, case), s)
        except Cex as c:
            r['end'] = 'cex'
            E.cexes.append((c.label, c.values))
        except TickLimit:
            r['end'] = 'ticklimit'
            E.cexes.append(('terminates', s.values(E.get_model())))
        except Ctl:
            raise
        except RecursionError:
            r['end'] = 'exc'
            r['detail'] = 'RecursionError'
            E.cexes.append(('exception RecursionError', s.values(E.get_model())))
        except BaseException as e:
            r['end'] = 'exc'
            r['detail'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-14:])[-3000:]
            E.cexes.append(('exception ' + type(e).__name__, s.values(E.get_model())))
    except (PathEnd, Infeasible) as e:
        r['end'] = 'cut'
        if isinstance(e, Infeasible):
            E.stats.infeasible += 1
    except Unsupported as e:
        r['end'] = 'unsupported'
        r['detail'] = str(e)
    except Inconclusive as e:
        r['end'] = 'inconclusive'
        r['detail'] = str(e)
    r['cex'] = E.cexes
    r['nconc'] = E.nconc
    return r, s


def witness(s):
    try:
        m = E.get_model()
        return {'values': s.values(m), 'observed': [[l, api.canon(v)] for l, v in E.observed], 'region': E.region}
    except Ctl:
        return None


def worker(conn, module, quick, known, seed, limit, rate):
    import gc
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    gc.freeze()
    gc.set_threshold(50000, 20, 100)
    world.SRC.front.jy = LazyJy()
    E.stats = core.Stats()
    rng = random.Random('%s.%s' % (seed, os.getpid() if False else 0))
    seen = {}
    try:
        while True:
            job = conn.recv()
            if job is None:
                break
            case, prefixes, slice_s = job
            t0 = time.time()
            stack = list(prefixes)
            out = {'case': case, 'cex': [], 'wit': [], 'ends': {}, 'details': {}, 'paths': 0, 'regions': {}, 'reached': set(),
                   'bad': []}
            while stack:
                pfx = stack.pop()
                r, s = run_path(module, case, pfx, quick, known, limit)
                stack.extend(E.alts)
                out['paths'] += 1
                e = r['end']
                out['ends'][e] = out['ends'].get(e, 0) + 1
                if r['detail'] and e in ('unsupported', 'inconclusive'):
                    out['details'][r['detail']] = out['details'].get(r['detail'], 0) + 1
                for label, vals in r['cex']:
                    out['cex'].append((label, vals, r['detail']))
                if E.region:
                    out['regions'][E.region] = out['regions'].get(E.region, 0) + 1
                out['reached'] |= E.reached
                if e == 'ok':
                    k = seen[case] = seen.get(case, 0) + 1
                    if k <= 3 or rng.random() < rate:
                        wt = witness(s)
                        if wt is not None:
                            out['wit'].append(wt)
                elif e in ('unsupported', 'inconclusive') and len(out['bad']) < 3:
                    try:
                        out['bad'].append(s.values(E.get_model()))
                    except Ctl:
                        pass
                if time.time() - t0 > slice_s or len(stack) > 400:
                    break
            out['left'] = stack
            out['spent'] = time.time() - t0
            out['stats'] = E.stats.dump()
            E.stats = core.Stats()
            conn.send(out)
    except (EOFError, KeyboardInterrupt, BrokenPipeError):
        pass
    except BaseException:
        try:
            conn.send({'crash': traceback.format_exc()})
        except Exception:
            pass
    finally:
        world.SRC.front.jy.close()
        os._exit(0)


def cpu_of(pid):
    """seconds of processor time a child has used"""
    try:
        with open('/proc/%d/stat' % pid) as f:
            v = f.read().rpartition(')')[2].split()
        return (int(v[11]) + int(v[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 0.0


class LazyJy:
    jy = None

    def ask(self, req):
        import front
        if self.jy is None:
            self.jy = front.Jy()
        return self.jy.ask(req)

    def close(self):
        if self.jy:
            self.jy.close()


class CaseState:
    def __init__(self, name):
        self.name = name
        self.queue = deque([[[]]])
        self.busy = 0
        self.spent = 0.0
        self.paths = 0
        self.ends = {}
        self.details = {}
        self.regions = {}
        self.reached = set()
        self.left = 0
        self.wit = 0


class Run:
    """explores all cases of a harness within a wall-clock budget"""

    def __init__(self, module, cases, quick, known, seed, budget, jobs, replayer, limit=20, rate=0.02):
        self.module, self.quick, self.known, self.seed = module, quick, known, seed
        self.cases = {c: CaseState(c) for c in cases}
        self.budget = budget
        self.jobs = jobs
        self.replayer = replayer
        self.stats = core.Stats()
        self.limit = limit
        self.rate = rate
        self.crashes = []
        self.timed_out = False

    def go(self):
        ctx = mp.get_context('fork')
        self.conns = []
        self.procs = []
        for i in range(self.jobs):
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker, args=(b, self.module, self.quick, self.known, self.seed + i, self.limit, self.rate),
                            daemon=True)
            p.start()
            b.close()
            self.conns.append(a)
            self.procs.append(p)
        self.replayer.start()
        idle = list(self.conns)
        running = {}
        t_end = time.time() + self.budget
        try:
            while True:
                over = time.time() > t_end
                if self.replayer.confirmed:
                    break
                while idle and time.time() < t_end + 150:
                    # on a busy machine some cases may not have had their turn
                    c = self.pick(over)
                    if c is None:
                        break
                    job = c.queue.popleft()
                    c.busy += 1
                    k = idle.pop()
                    # short slices while there is little to share
                    k.send((c.name, job, 0.3 if idle or len(c.queue) < 2 else 1.5))
                    running[k] = c
                if not running:
                    break
                if time.time() > t_end + self.limit + (180 if self.starved() else 15):
                    self.timed_out = True
                    break
                for k in mpc.wait(list(running), timeout=0.5):
                    c = running.pop(k)
                    try:
                        out = k.recv()
                    except EOFError:
                        out = {'crash': 'worker ended (memory?)'}
                    if 'crash' in out:
                        self.crashes.append('%s: %s' % (c.name, out['crash']))
                        c.busy -= 1
                        continue
                    idle.append(k)
                    self.absorb(c, out)
        finally:
            for c in self.cases.values():
                c.left = sum(len(j) for j in c.queue) + (c.busy if c.busy else 0)
                if c.left:
                    self.timed_out = True
            for k in self.conns:
                try:
                    k.send(None)
                except Exception:
                    pass
            t = time.time()
            for p in self.procs:
                p.join(max(0.05, 1 - (time.time() - t)))
                if p.is_alive():
                    p.kill()

    def starved(self):
        return any(not c.ends.get('ok') for c in self.cases.values())

    def pick(self, over=False):
        best = None
        for c in self.cases.values():
            if over and (c.ends.get('ok') or c.paths > 200):
                continue
            if c.queue and (best is None or c.spent + c.busy < best.spent + best.busy):
                best = c
        return best

    def absorb(self, c, out):
        c.busy -= 1
        c.spent += out['spent']
        c.paths += out['paths']
        for f in ('ends', 'details', 'regions'):
            d = getattr(c, f)
            for k, v in out[f].items():
                d[k] = d.get(k, 0) + v
        c.reached |= out['reached']
        self.stats.merge(out['stats'])
        left = out['left']
        # shallow prefixes (large subtrees) first, in chunks
        if left:
            n = max(1, min(8, len(left)))
            chunks = [left[i::n] for i in range(n)]
            for ch in chunks:
                c.queue.append(ch)
        for label, vals, detail in out['cex']:
            self.replayer.add_cex(c.name, label, vals, detail)
        for wt in out['wit']:
            self.replayer.add_witness(c.name, wt)
        for v in out['bad']:
            self.replayer.add_witness(c.name, {'values': v, 'observed': None, 'region': None})


class Replayer:
    """replays counterexamples and path witnesses on the real code, in a thread with its own Jython"""

    def __init__(self, module, quick, known, maxwit, jy_factory):
        self.module, self.quick, self.known = module, quick, sorted(known)
        self.maxwit = maxwit
        self.factory = jy_factory
        self.cex = deque()
        self.wit = deque()
        self.tried = {}
        self.failed = []      # counterexamples the real code does not show
        self.confirmed = []
        self.mismatch = []
        self.validated = 0
        self.samples = []
        self.stop = False
        self.per_case = {}
        self.lock = threading.Condition()
        self.error = None
        self.thread = None
        self.busy = None

    def start(self):
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def add_cex(self, case, label, vals, detail):
        k = (case, label)
        n = self.tried[k] = self.tried.get(k, 0) + 1
        if n <= 4:
            with self.lock:
                self.cex.append((case, label, vals, detail))
                self.lock.notify()

    def add_witness(self, case, wt):
        n = self.per_case.get(case, 0)
        with self.lock:
            self.per_case[case] = n + 1
            if n < 3:
                self.wit.appendleft((case, wt))
            elif len(self.wit) < 3 * self.maxwit:
                self.wit.append((case, wt))
            self.lock.notify()

    def finish(self, deadline):
        with self.lock:
            self.stop = True
            self.lock.notify()
        self.thread.join(max(1, deadline - time.time()))
        while self.thread.is_alive() and (self.cex or self.busy == 'cex') and time.time() < deadline + 200:
            self.thread.join(1)

    def request(self, jy, case, vals):
        return jy.ask({'op': 'run', 'module': self.module, 'case': case, 'values': vals, 'quick': self.quick,
                       'known': self.known})

    def timed(self, case, vals, secs=45, wall=400):
        """a replay that may hang: it does when it has used this much processor time (or waited this long for nothing)"""
        box = {}
        proc = self.jy.p
        done = threading.Event()
        start = cpu_of(proc.pid)
        t_end = time.time() + wall

        def watch():
            while not done.wait(0.5):
                if cpu_of(proc.pid) - start > secs or time.time() > t_end:
                    if not done.is_set():
                        box['hang'] = True
                        proc.kill()
                    return
        t = threading.Thread(target=watch, daemon=True)
        t.start()
        try:
            return self.request(self.jy, case, vals)
        except Exception:
            if box.get('hang'):
                self.jy = self.factory()
                return {'fail': 'terminates', 'exc': None, 'stop': None, 'observed': [], 'region': None, 'hang': True}
            raise
        finally:
            done.set()

    def loop(self):
        try:
            self.jy = self.factory()
            while True:
                with self.lock:
                    while not self.cex and not self.wit and not self.stop:
                        self.lock.wait(1)
                    if self.cex:
                        item, kind = self.cex.popleft(), 'cex'
                    elif self.stop and (self.validated >= self.maxwit or not self.wit):
                        break
                    elif self.wit and self.validated < self.maxwit:
                        item, kind = self.wit.popleft(), 'wit'
                    elif self.wit:
                        self.wit.clear()
                        continue
                    else:
                        continue
                self.busy = kind
                if kind == 'cex':
                    case, label, vals, detail = item
                    r = self.timed(case, vals)
                    if r.get('error'):
                        self.error = r['error']
                    elif r['fail'] or r['exc']:
                        self.confirmed.append({'case': case, 'label': label, 'values': vals, 'real': r, 'detail': detail})
                        break
                    else:
                        self.failed.append({'case': case, 'label': label, 'values': vals, 'real': r, 'detail': detail})
                else:
                    case, wt = item
                    r = self.timed(case, wt['values'])
                    if r.get('error'):
                        self.error = r['error']
                        continue
                    if r['fail'] or r['exc']:
                        self.confirmed.append({'case': case, 'label': r['fail'] or 'exception ' + r['exc'],
                                               'values': wt['values'], 'real': r, 'detail': 'shown by a path witness'})
                        break
                    if wt['observed'] is None:
                        continue
                    if r['stop'] and not wt['region']:
                        self.mismatch.append({'case': case, 'values': wt['values'], 'real': r, 'engine': wt['observed']})
                    elif r['observed'] != wt['observed']:
                        self.mismatch.append({'case': case, 'values': wt['values'], 'real': r['observed'],
                                              'engine': wt['observed']})
                    else:
                        self.validated += 1
                        if len(self.samples) < 12:
                            self.samples.append({'case': case, 'inputs': wt['values'], 'observed': wt['observed']})
        except Exception:
            self.error = traceback.format_exc()
        finally:
            try:
                self.jy.close()
            except Exception:
                pass
