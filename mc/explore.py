"""
Systematic exploration of a harness.

A *harness* is a function ``fn(c)`` that closes the system: every source of nondeterminism (which
configuration, which operation comes next, which cell value, which answer the environment gives,
where the fault strikes) is asked from the chooser ``c``.  The harness runs the real csvw code and,
in lock-step, a reference model, and calls ``c.fail`` when they disagree.

The explorer enumerates *all* executions of the harness: depth-first over the tree of choices, with
the number of *deviations* (picking something else than the first, simplest option at a choice point
not marked ``free``) bounded by ``bound``, and the bound iterated 0, 1, 2, ...  Nothing is sampled.
"""
import os
import sys
import json
import time
import shutil
import signal
import hashlib
import tempfile
import traceback
import warnings
import collections
import concurrent.futures

EXEC_TIMEOUT = 90


class Mismatch(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg
        super().__init__('{}: {}'.format(key, msg))


class Hang(BaseException):
    pass


class HarnessError(BaseException):
    """The harness itself is broken (diverged while replaying, ...): never reported as violation."""


def digest(obj):
    return hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest()


class Ctx:
    """What a harness sees of the explorer."""

    def __init__(self, prefix, scratch, known, tier):
        self.prefix = prefix
        self.points = []  # (n options, free)
        self.choices = []
        self.labels = []
        self._scratch = scratch
        self._dir = None
        self.known = known
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.known_hits = {}
        self.traces = 0
        self.ops = 0
        self.sample = None

    # -- nondeterminism -------------------------------------------------------------------------
    def choose(self, label, options, free=False):
        """Pick one of `options`; the first one is the default, others cost a deviation."""
        n = len(options)
        if n == 0:
            raise HarnessError('no options at ' + label)
        i = len(self.choices)
        k = self.prefix[i] if i < len(self.prefix) else 0
        if k >= n:
            raise HarnessError('diverged: choice {} of {} at {}'.format(k, n, label))
        self.points.append((n, free))
        self.choices.append(k)
        self.labels.append(label)
        return options[k]

    def every(self, label, options):
        """Pick one of `options`, at no cost, i.e. all of them are explored at every bound."""
        return self.choose(label, options, free=True)

    def flag(self, label, default=False):
        return self.choose(label, [default, not default])

    # -- bookkeeping ----------------------------------------------------------------------------
    def state(self, *obj):
        """A canonical state the execution passes through (configuration, model state)."""
        self.states.add(digest(obj))

    def outcome(self, *obj):
        """What was observed; the number of distinct outcomes guards against vacuity."""
        self.outcomes.add(digest(obj))

    def tick(self, n=1):
        """An inner step: one more operation of the real code compared with the model."""
        self.ops += n

    def trace(self, n=1):
        """An inner, complete trace (where a harness enumerates a dense domain in a plain loop)."""
        self.traces += n

    def describe(self, obj):
        self.sample = obj

    @property
    def dir(self):
        if self._dir is None:
            self._dir = os.path.join(self._scratch, 'x')
            if os.path.exists(self._dir):
                shutil.rmtree(self._dir)
            os.mkdir(self._dir)
        import pathlib
        return pathlib.Path(self._dir)

    # -- verdicts -------------------------------------------------------------------------------
    def fail(self, key, msg):
        """Implementation and model disagree. `key` identifies the failing input or history."""
        if key in self.known:
            self.known_hits[key] = msg
            return True
        raise Mismatch(key, msg)

    def check(self, cond, key, msg=''):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)

    def equal(self, got, expected, key, ctx=''):
        if type(got) != type(expected) and not isinstance(got, type(expected)) or got != expected:
            return self.fail(key, '{} got {!r}, expected {!r}'.format(ctx, got, expected))


class Harness:
    def __init__(self, name, fn, quick, thorough=None, doc=''):
        """`quick`, `thorough`: the deviation bound per tier (None: all choices are free)."""
        self.name, self.fn = name, fn
        self.bounds = {'quick': quick, 'thorough': quick if thorough is None else thorough}
        self.doc = doc or (fn.__doc__ or '').strip()


def _alarm(signum, frame):
    raise Hang()


def run_one(harness, prefix, scratch, known, tier, timeout=EXEC_TIMEOUT):
    """One execution. Returns (ctx, violation or None)."""
    c = Ctx(prefix, scratch, known, tier)
    viol = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout)
    try:
        with warnings.catch_warnings(record=True):
            warnings.simplefilter('always')
            harness.fn(c)
    except Mismatch as e:
        viol = (e.key, e.msg)
    except Hang:
        viol = ('hang', 'execution did not finish within {} s'.format(timeout))
    except Exception as e:
        key = 'exc:{}'.format(type(e).__name__)
        try:
            c.fail(key, traceback.format_exc()[-3000:])
        except Mismatch as e:
            viol = (e.key, e.msg)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
        if c._dir:
            shutil.rmtree(c._dir, ignore_errors=True)
    if viol is None and len(c.choices) < len(prefix):
        raise HarnessError('diverged: execution ended before its prefix did: {} {} {}'.format(
            harness.name, prefix, c.labels))
    return c, viol


# -- workers ------------------------------------------------------------------------------------
_W = {}


def _init_worker(harnesses, scratch_root, known, tier):
    _W['harnesses'] = harnesses
    _W['scratch'] = tempfile.mkdtemp(prefix='w', dir=scratch_root)
    _W['known'] = known
    _W['tier'] = tier
    _W['log'] = collections.deque(maxlen=2000)
    sys.stdout = open(os.devnull, 'w')


def _work(hname, prefixes, last_level, budget):
    """
    Explore `prefixes` and everything reachable from them by free choices. Returns the statistics
    and the prefixes of the next deviation level (and the ones left over by `budget`).
    """
    h = _W['harnesses'][hname]
    stack = list(reversed(prefixes))
    nxt, left = [], []
    res = dict(executions=0, edges=0, ops=0, traces=0, states=set(), outcomes=set(), known={},
               violation=None, sample=None, maxdepth=0)
    t0 = time.time()
    while stack:
        if time.time() - t0 > budget:
            left = stack
            break
        prefix = stack.pop()
        c, viol = run_one(h, prefix, _W['scratch'], _W['known'], _W['tier'])
        _W['log'].append((hname, tuple(prefix)))
        res['executions'] += 1
        res['edges'] += len(c.choices) - max(0, len(prefix) - 1)
        res['maxdepth'] = max(res['maxdepth'], len(c.choices))
        res['ops'] += c.ops
        res['traces'] += c.traces
        res['states'] |= c.states
        res['outcomes'] |= c.outcomes
        res['known'].update(c.known_hits)
        if c.sample is not None:
            res['sample'] = c.sample
        if viol:
            res['violation'] = dict(
                harness=hname, key=viol[0], msg=viol[1], choices=c.choices, labels=c.labels,
                sample=c.sample, history=[list(x) for x in list(_W['log'])[:-1]])
            break
        same = []
        for i in range(len(prefix), len(c.choices)):
            n, free = c.points[i]
            if free:
                same.extend(c.choices[:i] + [k] for k in range(1, n))
            elif not last_level:
                nxt.extend(c.choices[:i] + [k] for k in range(1, n))
        stack.extend(reversed(same))
    return res, nxt, left


class Explorer:
    def __init__(self, harnesses, tier, known, wall=700, procs=None):
        self.harnesses = collections.OrderedDict((h.name, h) for h in harnesses)
        self.tier = tier
        self.known = known
        self.wall = wall
        self.procs = procs or os.cpu_count() or 1
        self.stats = collections.OrderedDict()
        self.violation = None
        self.known_hits = {}
        self.samples = []
        self.t0 = time.time()

    def run(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        root = tempfile.mkdtemp(prefix='csvwmc', dir=base)
        os.environ['TMPDIR'] = tempfile.tempdir = os.path.join(root, 'tmp')
        os.mkdir(tempfile.tempdir)
        try:
            import multiprocessing
            with concurrent.futures.ProcessPoolExecutor(
                    self.procs,
                    mp_context=multiprocessing.get_context('fork'),
                    initializer=_init_worker,
                    initargs=(self.harnesses, root, self.known, self.tier)) as pool:
                for name in self.harnesses:
                    self._run_harness(pool, name, root)
                    if self.violation:
                        pool.shutdown(wait=True, cancel_futures=True)
                        break
        finally:
            shutil.rmtree(root, ignore_errors=True)
        return self

    def _run_harness(self, pool, name, root):
        h = self.harnesses[name]
        bound = h.bounds[self.tier]
        st = self.stats[name] = dict(
            bound=bound, completed_bound=None, executions=0, edges=0, ops=0, traces=0,
            states=set(), outcomes=set(), per_level=[], maxdepth=0, capped=False, wall_s=0)
        t0 = time.time()
        sample = None
        # Own the nondeterminism, and prove it: the default execution, twice, must look the same.
        obs = []
        for _ in range(2):
            scratch = tempfile.mkdtemp(dir=root)
            out, sys.stdout = sys.stdout, open(os.devnull, 'w')
            try:
                c, viol = run_one(h, [], scratch, self.known, self.tier)
            finally:
                sys.stdout = out
            obs.append((c.choices, c.labels, c.points, sorted(c.states), sorted(c.outcomes), viol))
            if viol:
                break
        if len(obs) == 2 and obs[0] != obs[1]:
            if obs[1][-1] is None and obs[0][:3] != obs[1][:3]:
                raise HarnessError('nondeterminism not captured in ' + name)
            # The same operations on fresh objects gave another result: leaked state.
            self.violation = dict(
                harness=name, key=(obs[1][-1] or ('state-leak', ''))[0],
                msg='default execution behaves differently when repeated: {}'.format(
                    obs[1][-1] and obs[1][-1][1]),
                choices=c.choices, labels=c.labels, sample=c.sample, history=[[name, []]])
            return
        level, frontier = 0, [[]]
        while frontier:
            last = bound is None or level >= bound
            queue = collections.deque(_batches(frontier, self.procs))
            pending, nxt, n = {}, [], 0
            while queue or pending:
                while queue and len(pending) < self.procs * 2:
                    batch = queue.popleft()
                    # Short turns as long as there is not enough work for everybody.
                    budget = 3.0 if len(queue) > self.procs else 0.1
                    pending[pool.submit(_work, name, batch, last, budget)] = 1
                done, _ = concurrent.futures.wait(
                    pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in done:
                    del pending[f]
                    res, nx, left = f.result()
                    n += res['executions']
                    for k in ('executions', 'edges', 'ops', 'traces'):
                        st[k] += res[k]
                    st['states'] |= res['states']
                    st['outcomes'] |= res['outcomes']
                    st['maxdepth'] = max(st['maxdepth'], res['maxdepth'])
                    self.known_hits.update(res['known'])
                    if res['sample'] is not None:
                        sample = res['sample']
                        if level == 0 and st['executions'] == res['executions']:
                            self.samples.append({'harness': name, 'trace': sample})
                    nxt.extend(nx)
                    if left:
                        queue.extend(_batches(left, self.procs))
                    if res['violation'] and not self.violation:
                        self.violation = res['violation']
                if self.violation:
                    queue.clear()
                elif time.time() - self.t0 > self.wall:
                    st['capped'] = bool(queue or nxt) or st['capped']
                    queue.clear()
                    nxt = []
            st['per_level'].append(n)
            if self.violation or st['capped']:
                break
            st['completed_bound'] = level
            frontier = sorted(nxt)
            level += 1
        if sample is not None:
            self.samples.append({'harness': name, 'trace': sample})
        st['wall_s'] = round(time.time() - t0, 2)


def _batches(prefixes, procs):
    n = max(1, min(250, len(prefixes) // (procs * 4) + 1))
    return [prefixes[i:i + n] for i in range(0, len(prefixes), n)]
