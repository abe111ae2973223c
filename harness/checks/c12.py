"""C12: concurrent modelling calls do not disturb each other.

Controlled scheduling of the real code.  The threads run under a trace
function; at every source line executed in the package (and in the filter
library) the running thread may be preempted.  All schedules with a bounded
number of preemptions are executed, each in a process of its own (forked from
one in which nothing was called before, hence including the first use of each
filter), and every thread must get exactly the result of its call alone.
"""
import os
import sys
import threading
import warnings
import numpy as np
import ops
import libdlf
import scipy.interpolate   # noqa  (imported by first calls)
import scipy.integrate   # noqa
import scipy.special   # noqa
import scipy.fft   # noqa
from common import REPO
from forkrun import forked

LEVEL = 'model_checking'
TECHNIQUE = ('stateless exploration of the real code under a controlled '
             'thread scheduler (sys.settrace, preemption possible at every '
             'executed source line or byte code): all schedules of 2 and 3 '
             'threads up to a preemption bound, each in a fresh forked '
             'process; the sequential calls are the oracle')
NOTE = ('pairs and triples of filter loads and modelling calls, with '
        'separate and with shared argument objects; preemption bound 1-3 by '
        'source line, 1 by byte code for the filter loads.')
WARM = 'cf'
RULE = ('a state is the pair of source positions of preempted and running '
        'thread at a context switch; non-trivial if both have started and '
        'not finished')
BOUNDS = {'quick': 'preemption bound 1 at every executed line and byte code, '
          '2 at the first visit of every line, for filter loads; bound 1 at '
          'the first visit of every line for 10 pairs of modelling calls',
          'thorough': 'as quick, and bound 3 (lines, 2 threads), 2 (lines, 3 '
          'threads; byte codes, 2 threads) at first visits for filter loads; '
          'bound 1 at first visits of every line for all pairs of 16 '
          'calls and 14 pairs with 7 more; bound 2 at first entries of functions for 10 pairs'}
ASSUMPTIONS = ['the interpreter switches threads only between byte codes '
               '(compiled kernels and numpy calls run as one step)']
LIB = os.path.dirname(os.path.abspath(libdlf.__file__)) + os.sep
PKG = os.path.join(REPO, 'empymod') + os.sep
_FILES = {}


def mine(fn):
    if fn not in _FILES:
        _FILES[fn] = os.path.abspath(fn).startswith((PKG, LIB))
    return _FILES[fn]


class Sched:
    """Runs calls in threads along a list of segments (thread, steps)."""

    def __init__(self, calls, segs, level, occ):
        self.calls, self.segs, self.level = calls, list(segs), level
        self.occ = occ              # only the first occ visits of a line
        self.seen = [{} for _ in calls]
        self.tid = {}
        n = len(calls)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False]*n
        self.res = [None]*n
        self.steps = [0]*n
        self.where = ['start']*n
        self.switch = []
        self.free = False
        self.cur, self.left = None, 0
        self.fin = threading.Event()
        self.progress = 0
        self.lock = threading.Lock()

    def advance(self):
        """Choose the next thread (called by the running thread)."""
        while self.segs:
            t, k = self.segs.pop(0)
            if not self.done[t]:
                break
        else:
            rest = [t for t in range(len(self.calls)) if not self.done[t]]
            if not rest:
                self.fin.set()
                return None
            t, k = rest[0], None
        self.switch.append((t, tuple(self.where), tuple(self.done)))
        self.cur, self.left = t, k
        return t

    def point(self, t, code, pos):
        self.progress += 1
        if self.free:
            return
        if self.occ:
            key = (code, pos)
            n = self.seen[t][key] = self.seen[t].get(key, 0)+1
            if n > self.occ:
                return
        self.steps[t] += 1
        if self.left is None:
            return
        if self.left > 0:
            self.left -= 1
            return
        # preempt before this line
        self.where[t] = (os.path.basename(code.co_filename), pos)
        n = self.advance()
        if n != t:
            self.sem[n].release()
            self.sem[t].acquire()

    def tracer(self, t):
        fun = self.level == 'call'

        def local(frame, event, arg):
            if event == 'line':
                self.point(t, frame.f_code, frame.f_lineno)
            return local

        def glob(frame, event, arg):
            if not mine(frame.f_code.co_filename):
                return None
            if fun:
                self.point(t, frame.f_code, frame.f_lineno)
                return None
            return local
        return glob

    def monitor(self):
        """Byte-code level: one monitoring tool for all threads."""
        mon = sys.monitoring

        def instruction(code, offset):
            if not mine(code.co_filename):
                return mon.DISABLE
            t = self.tid.get(threading.get_ident())
            if t is not None and not self.done[t]:
                self.point(t, code, offset)
        mon.use_tool_id(2, 'verif')
        mon.register_callback(2, mon.events.INSTRUCTION, instruction)
        mon.set_events(2, mon.events.INSTRUCTION)

    def body(self, t):
        self.sem[t].acquire()
        fn, a = self.calls[t]
        self.tid[threading.get_ident()] = t
        try:
            if self.level != 'opcode':
                sys.settrace(self.tracer(t))
            try:
                r = ('ok', [np.array(x) for x in fn(a)])
            finally:
                sys.settrace(None)
        except BaseException as e:  # noqa
            r = (f'{type(e).__name__}: {e}', [])
        self.res[t] = r
        self.done[t] = True
        self.where[t] = 'end'
        if not self.free:
            n = self.advance()
            if n is not None:
                self.sem[n].release()
        elif all(self.done):
            self.fin.set()

    def run(self):
        if self.level == 'opcode':
            self.monitor()
        th = [threading.Thread(target=self.body, args=(t,), daemon=True)
              for t in range(len(self.calls))]
        for x in th:
            x.start()
        self.sem[self.advance()].release()
        last, idle = -1, 0
        while not self.fin.wait(0.5):
            # a thread blocked in a lock held by a preempted one: let all run
            idle = idle+1 if self.progress == last else 0
            last = self.progress
            if idle == 4 and not self.free:
                self.free = True
                for s in self.sem:
                    s.release()
            if idle > 120:
                return 'deadlock'
        return None


def execute(names, shared, segs, level, occ=0):
    """One schedule in a forked process."""
    def child():
        sys.stdout = open(os.devnull, 'w')
        warnings.simplefilter('ignore')
        calls, made = [], {}
        for n in names:
            a = made.get(n) if shared else None
            if a is None:
                a = made[n] = ops.OPS[n]['make']()
            calls.append((ops.OPS[n]['call'], a))
        s = Sched(calls, segs, level, occ)
        dead = s.run()
        return s.res, s.steps, s.switch, dead
    return forked(child)


_ALONE = {}


def alone(name, level, occ=0):
    key = (name, level, occ)
    if key not in _ALONE:
        r, st, _, _ = execute([name], False, [(0, None)], level, occ)
        _ALONE[key] = (r[0], st[0])
    return _ALONE[key]


def same(a, b):
    return (a[0] == b[0] and len(a[1]) == len(b[1]) and all(
        x.shape == y.shape and x.dtype == y.dtype and
        np.array_equal(x, y, equal_nan=x.dtype.kind in 'fc')
        for x, y in zip(a[1], b[1])))


# -------------------------------------------------------------------- cases
LOADS = [('filt', 'filt'), ('filt', 'filtF'), ('filtF', 'filtF'),
         ('filt', 'bad-filt'), ('tools', 'tools')]
QPAIRS = [('dip-f', 'dip-f', 1), ('dip-f', 'filt', 0), ('bip-j', 'dip-lap', 0),
          ('ft-cos0', 'ft-cos-1', 0), ('hook', 'dip-splined', 0),
          ('ana-fs', 'dip-filtobj', 0), ('dip-lagged', 'dip-lagged', 1),
          ('dipk', 'bad-ab', 0), ('gpr', 'gpr', 1), ('tmte', 'dipk', 0)]
TNAMES = ['dip-f', 'dip-lap', 'dip-splined', 'dip-lagged', 'bip-j',
          'loop', 'ana-fs', 'ana-dhs', 'dipk', 'ipq', 'tmte', 'hook',
          'filt', 'io', 'bad-htarg', 'bad-hook']
# more expensive ones: with themselves and with the first of the above
TSLOW = ['dip-qwe', 'ft-cos-1', 'ft-fftlog0', 'ft-fft0', 'wave', 'bip', 'gpr']


def cases(tier):
    q = tier == 'quick'
    out = []

    def add(p, sh, bound, level, occ, parts):
        for part in range(parts):
            out.append({'ops': p, 'shared': sh, 'bound': bound,
                        'level': level, 'occ': occ, 'part': [part, parts]})
    for p in LOADS:
        for sh in (0, 1):
            add(p, sh, 1, 'line', 0, 1)
        add(p, 0, 2, 'line', 1, 8)
        add(p, 0, 1, 'opcode', 0, 4)
    for p in (('filt', 'filt', 'filt'), ('filt', 'filtF', 'filt')):
        add(p, 0, 1 if q else 2, 'line', 1, 1 if q else 16)
    if q:
        for a, b, s in QPAIRS:
            add((a, b), s, 1, 'line', 1, 4)
    else:
        for p in LOADS[:2]:
            add(p, 0, 3, 'line', 1, 64)
        add(LOADS[0], 0, 2, 'opcode', 1, 64)
        for i, a in enumerate(TNAMES):
            for b in TNAMES[i:]:
                add((a, b), int(a == b), 1, 'line', 1, 4)
        for a in TSLOW:
            for b in (a, 'dip-f'):
                add((a, b), int(a == b), 1, 'line', 1, 8)
        for a, b, s in QPAIRS:
            add((a, b), s, 2, 'call', 1, 8)
    return out


def schedules(n, lens, bound):
    """All schedules with up to `bound` preemptions: (thread, steps)..."""
    def rec(prefix, used, last):
        # the current thread runs to its end, the others follow in order
        for t in range(n):
            if t != last:
                yield prefix+[(t, None)]
        if used == bound:
            return
        for t in range(n):
            if t == last:
                continue
            for k in range(1, lens[t]-sum(x[1] for x in prefix
                                          if x[0] == t)):
                yield from rec(prefix+[(t, k)], used+1, t)
    yield from rec([], 0, None)


def run_case(c, R):
    names, level, occ = list(c['ops']), c['level'], c['occ']
    base = [alone(n, level, occ) for n in names]
    R.note('points', max(b[1] for b in base))
    part, parts = c.get('part', [0, 1])
    for i, segs in enumerate(schedules(len(names), [b[1] for b in base],
                                       c['bound'])):
        if i % parts != part:
            continue
        res, steps, switch, dead = execute(names, c['shared'], segs, level,
                                          occ)
        R.ev()
        R.trace()
        R.tr(sum(steps))
        for t, where, done in switch:
            R.state((tuple(names), t, where), 'start' not in where and
                    'end' not in where)
        if dead:
            R.fail('deadlock', f'{names} schedule {segs}')
            continue
        for k, (n, b, r) in enumerate(zip(names, base, res)):
            if not same(r, b[0]):
                R.fail(f'thread {n}', f'threads {names}, schedule {segs}, '
                       f'switches at {[s[1] for s in switch]}: thread {k} '
                       f'({n}) got {str(r)[:300]} instead of '
                       f'{str(b[0])[:300]}')
        R.outcome(tuple(steps))
