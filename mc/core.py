"""Core of the bounded model checker used by every check in /verif.

Two engines, both exhaustive within stated bounds:

* ``tree``  - stateless exploration.  A harness is a Python function ``case(ch)`` that asks the
  chooser ``ch`` for every decision (which operation, which input fragment, which environment
  answer).  The engine replays a prefix of decisions, takes alternative 0 at every later point, and
  walks the whole decision tree depth first.  Every leaf is one execution of the real code.
  ``ch.dev(options)`` marks decisions whose non-zero alternatives count as deviations; a harness run
  with ``bound=k`` visits every execution with at most k deviations.
* ``graph`` - explicit-state breadth-first search over operation histories of the real code: a state
  is the canonical form of the real object(s) rebuilt by replaying a history; states are merged when
  their canonical forms are equal; the invariant is evaluated on every transition.

Exceptions escaping from the code under test, and executions that never come back, are violations,
not errors of the check.
"""
import collections, json, os, signal, sys, time, traceback, hashlib, pickle, select, tempfile

WORKERS = int(os.environ.get("MC_WORKERS", "0")) or min(8, os.cpu_count() or 1)
CASE_SECONDS = 20.0         # one execution of a harness
MAX_VIOL = int(os.environ.get("MC_MAX_VIOL", "5"))
STALL_SECONDS = 90.0        # a worker that reports nothing at all


class Violation(Exception):
    """The property is false on the current execution."""
    def __init__(self, message, key=None, **detail):
        super().__init__(message)
        self.message = message
        self.key = key
        self.detail = detail


class Skip(Exception):
    """The chosen combination is outside the property's domain (not counted as a trace)."""


class CaseTimeout(BaseException):
    pass


class ReplayDivergence(Exception):
    pass


class Chooser:
    __slots__ = ("prefix", "trail", "arity", "cost", "left", "notes", "outcome", "costs")

    def __init__(self, prefix, bound=None):
        self.prefix = prefix
        self.trail = []
        self.arity = []
        self.costs = []         # (deviation?) per point
        self.left = bound
        self.notes = []
        self.outcome = None

    def _choose(self, n, dev=False):
        i = len(self.trail)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise ReplayDivergence("choice %d of %d at point %d" % (c, n, i))
        else:
            c = 0
        self.trail.append(c)
        self.arity.append(n)
        self.costs.append(dev)
        return c

    def pick(self, options):
        options = options if isinstance(options, (list, tuple)) else list(options)
        if len(options) == 1:
            return options[0]
        return options[self._choose(len(options))]

    def index(self, n):
        return 0 if n == 1 else self._choose(n)

    def flag(self):
        return bool(self._choose(2))

    def dev(self, options):
        """options[0] is the default; anything else uses up one deviation of the bound"""
        if len(options) == 1:
            return options[0]
        if self.left is not None and self.left <= 0:
            return options[0]
        c = self._choose(len(options), True)
        if c and self.left is not None:
            self.left -= 1
        return options[c]

    def subset(self, options):
        return [o for o in options if self._choose(2)]

    def note(self, *a):
        """record a human readable step for the replay file"""
        self.notes.append(" ".join(x if isinstance(x, str) else repr(x) for x in a))

    def seen(self, outcome):
        """record the observed outcome (for counting distinct observations)"""
        self.outcome = outcome


def _next(trail, arity, floor):
    """next prefix in depth first order, not touching the first `floor` points"""
    i = len(trail) - 1
    while i >= floor and trail[i] + 1 >= arity[i]:
        i -= 1
    if i < floor:
        return None
    return trail[:i] + [trail[i] + 1]


def _alarm(signum, frame):
    raise CaseTimeout()


class _Counter:
    def __init__(self):
        self.execs = 0
        self.nodes = 0
        self.skips = 0
        self.outcomes = set()

    def add(self, ch, old_len):
        self.execs += 1
        self.nodes += max(0, len(ch.trail) - old_len + 1)
        if ch.outcome is not None and len(self.outcomes) < 200000:
            o = ch.outcome
            if not isinstance(o, (str, bytes)):
                o = repr(o)
            if isinstance(o, str):
                o = o.encode("utf-8", "surrogatepass")
            self.outcomes.add(hashlib.blake2b(o, digest_size=8).digest())


def run_case(case, prefix, bound, seconds=CASE_SECONDS):
    """one execution; returns (chooser, violation-or-None, skipped)"""
    ch = Chooser(prefix, bound)
    err = None
    skipped = False
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds, 0.5)
    try:
        try:
            case(ch)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except Violation as e:
        err = dict(message=e.message, key=e.key, detail={k: _plain(v) for k, v in e.detail.items()})
    except Skip:
        skipped = True
    except ReplayDivergence as e:
        # a divergence on replay is a hard error of the harness or of determinism in the code
        err = dict(message="execution is not a function of its inputs: " + str(e), key=None, detail={})
    except CaseTimeout:
        err = dict(message="execution did not finish within %g s" % seconds, key=None, detail={})
    except (Exception, SystemExit, RecursionError) as e:
        tb = traceback.format_exc()
        err = dict(message="%s: %s" % (type(e).__name__, e), key=None, detail={"traceback": tb[-3000:]})
    finally:
        signal.signal(signal.SIGALRM, old)
    return ch, err, skipped


def _plain(v):
    try:
        json.dumps(v)
        return v
    except Exception:
        return repr(v)


def _quiet():
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 1)
    if not os.environ.get("MC_STDERR"):
        os.dup2(devnull, 2)
    os.close(devnull)
    sys.stdout = open(1, "w", closefd=False)
    sys.stderr = open(2, "w", closefd=False)


def _worker(conn, wid, case, bound, seconds, setup):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    _quiet()
    if setup is not None:
        setup()
    out = os.fdopen(conn[1], "wb", buffering=0)
    inp = os.fdopen(conn[0], "rb", buffering=0)

    def send(msg):
        data = pickle.dumps(msg)
        data = len(data).to_bytes(4, "big") + data
        while data:
            n = out.write(data)
            data = data[n:]

    while True:
        hdr = inp.read(4)
        if len(hdr) < 4:
            os._exit(0)
        n = int.from_bytes(hdr, "big")
        buf = b""
        while len(buf) < n:
            buf += inp.read(n - len(buf))
        kind, floor = pickle.loads(buf)
        cnt = _Counter()
        viol = []
        prefix = list(floor)
        flen = len(floor)
        prevlen = flen
        beat = time.time()
        while prefix is not None:
            ch, err, skipped = run_case(case, prefix, bound, seconds)
            common = max(0, len(prefix) - 1)
            if skipped:
                cnt.skips += 1
            else:
                cnt.add(ch, common)
            if err is not None and not (err["key"] is not None and any(v["key"] == err["key"] for v in viol)):
                viol.append(dict(choices=list(ch.trail), notes=ch.notes, index=cnt.execs, shard=list(floor), **err))
                if sum(v["key"] is None for v in viol) >= MAX_VIOL:
                    break
            if len(ch.trail) < flen:
                break
            prefix = _next(ch.trail, ch.arity, flen)
            now = time.time()
            if now - beat > 5:
                beat = now
                send(("beat", list(prefix or ())))
        send(("done", cnt.execs, cnt.nodes, cnt.skips, cnt.outcomes, viol))


class _Proc:
    def __init__(self, case, bound, seconds, setup):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1); os.close(r2)
                _worker((r1, w2), 0, case, bound, seconds, setup)
            except BaseException:
                traceback.print_exc()
            os._exit(3)
        os.close(r1); os.close(w2)
        self.pid = pid
        self.w = w1
        self.r = r2
        self.buf = b""
        self.shard = None
        self.last = time.time()

    def give(self, shard):
        self.shard = shard
        self.last = time.time()
        d = pickle.dumps(("shard", shard))
        os.write(self.w, len(d).to_bytes(4, "big") + d)

    def read(self):
        """list of complete messages; None at EOF"""
        d = os.read(self.r, 1 << 20)
        if not d:
            return None
        self.buf += d
        res = []
        while len(self.buf) >= 4:
            n = int.from_bytes(self.buf[:4], "big")
            if len(self.buf) < 4 + n:
                break
            res.append(pickle.loads(self.buf[4:4 + n]))
            self.buf = self.buf[4 + n:]
        self.last = time.time()
        return res

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        for f in (self.r, self.w):
            try:
                os.close(f)
            except OSError:
                pass


class Result:
    """what one harness covered"""
    def __init__(self, name, bound_text):
        self.name = name
        self.bound_text = bound_text
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = 0
        self.violations = []
        self.capped = None
        self.wall = 0.0

    def row(self):
        return dict(harness=self.name, bounds=self.bound_text, states=self.states, transitions=self.transitions,
                    executions=self.traces, outside_domain=self.skipped, distinct_outcomes=self.outcomes,
                    capped=self.capped, wall_s=round(self.wall, 2))


def _shards(case, bound, want, seconds):
    """split the tree: a list of prefixes that partition all leaves, found by widening breadth first"""
    frontier = collections.deque([[]])
    done = []
    expansions = 0
    while frontier and len(frontier) + len(done) < want and expansions < 4 * want:
        p = frontier.popleft()
        ch, err, skipped = run_case(case, p, bound, seconds)
        expansions += 1
        if err is not None or len(ch.trail) <= len(p):
            done.append(p)
            continue
        for c in range(ch.arity[len(p)]):
            frontier.append(ch.trail[:len(p)] + [c])
    res = done + list(frontier)
    res.sort()
    return res


def explore_tree(name, case, bound=None, bound_text="", deadline=None, seconds=CASE_SECONDS, setup=None,
                 workers=None, stop_on_violation=True, shards=None):
    res = Result(name, bound_text)
    t0 = time.time()
    workers = workers or WORKERS
    # shard discovery happens in a forked child too, so that the parent never runs code under test
    shardlist = in_child(lambda: (setup and setup(), _shards(case, bound, shards or workers * 12, seconds))[1],
                         timeout=max(STALL_SECONDS, seconds * 3))
    if isinstance(shardlist, ChildFailure):
        shardlist = [[]]
    queue = collections.deque(shardlist)
    procs = [_Proc(case, bound, seconds, setup) for _ in range(min(workers, len(queue)))]
    outcomes = set()
    prefixes = set()
    for s in shardlist:
        for i in range(len(s)):
            prefixes.add(tuple(s[:i]))
    res.states += len(prefixes)
    for p in procs:
        p.give(queue.popleft())
    live = list(procs)
    try:
        while live:
            r, _, _ = select.select([p.r for p in live], [], [], 1.0)
            for p in list(live):
                if p.r in r:
                    msgs = p.read()
                    if msgs is None:
                        live.remove(p)
                        res.violations.append(dict(choices=list(p.shard), notes=["worker process died"], key=None, shard=list(p.shard),
                                                   message="the process running the code under test died", detail={}, index=0))
                        continue
                    for m in msgs:
                        if m[0] == "beat":
                            continue
                        res.traces += m[1]
                        res.states += m[2]
                        res.skipped += m[3]
                        outcomes |= m[4]
                        res.violations += m[5]
                        if queue and not (res.violations and stop_on_violation):
                            p.give(queue.popleft())
                        else:
                            live.remove(p)
                elif time.time() - p.last > max(STALL_SECONDS, 3 * seconds):
                    live.remove(p)
                    res.violations.append(dict(choices=list(p.shard), notes=["worker stalled in this subtree"], key=None, shard=list(p.shard),
                                               message="the code under test never came back", detail={}, index=0))
                    p.kill()
            if deadline and time.time() > deadline:
                res.capped = "stopped at the time limit with %d of %d subtrees unexplored" % (len(queue) + len(live), len(shardlist))
                break
    finally:
        for p in procs:
            p.kill()
    res.transitions = max(0, res.states - 1)
    res.outcomes = len(outcomes)
    res.wall = time.time() - t0
    return res


class ChildFailure:
    def __init__(self, why):
        self.why = why


def in_child(fn, timeout=60.0, quiet=True):
    """run fn in a forked child, return its (picklable) result, or ChildFailure"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            if quiet:
                _quiet()
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                d = pickle.dumps(("ok", fn()))
            except BaseException as e:
                d = pickle.dumps(("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])))
            with os.fdopen(w, "wb") as f:
                f.write(d)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    buf = b""
    end = time.time() + timeout
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                return ChildFailure("did not finish within %g s" % timeout)
            rd, _, _ = select.select([r], [], [], left)
            if rd:
                d = os.read(r, 1 << 20)
                if not d:
                    break
                buf += d
    finally:
        os.close(r)
        try:
            if time.time() >= end:
                os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    if not buf:
        return ChildFailure("process died")
    kind, v = pickle.loads(buf)
    if kind == "ok":
        return v
    return ChildFailure(v)


# ----------------------------------------------------------------------------------------------
# explicit-state search

def explore_graph(name, sysdef, depth, bound_text="", deadline=None, seconds=CASE_SECONDS, setup=None,
                  workers=None, max_states=None):
    """sysdef has: inits() -> list of initial configurations (small, picklable)
                   ops(init, hist, view) -> list of enabled operations (picklable)
                   run(init, hist) -> (canon, view): replays hist on fresh real objects, checking the invariant
                   on the last step (raises Violation); canon identifies the state, view feeds ops()."""
    res = Result(name, bound_text)
    t0 = time.time()
    workers = workers or WORKERS
    seen = {}
    layer = [(i, ()) for i in range(len(sysdef.inits()))]
    first = True
    outcomes = set()
    d = 0
    while layer:
        # expand each (init,hist): run it (once, to obtain view) is already done when discovered
        jobs = []
        if first:
            jobs = [(i, h) for i, h in layer]
        chunks = [layer[k::workers * 4] for k in range(workers * 4)]
        chunks = [c for c in chunks if c]

        def work(chunk, isfirst):
            out = []
            for (i, h) in chunk:
                init = sysdef.inits()[i]
                if isfirst:
                    cand = [h]
                else:
                    try:
                        canon, view = sysdef.run(init, h)
                    except Violation:
                        continue
                    cand = [h + (o,) for o in sysdef.ops(init, h, view)]
                for hh in cand:
                    box = {}

                    def one(ch):
                        box["r"] = sysdef.run(init, hh)
                    ch, err, skipped = run_case(one, [], None, seconds)
                    if skipped:
                        continue
                    if err is not None:
                        out.append((i, hh, None, err))
                    else:
                        c = box["r"][0]
                        out.append((i, hh, hashlib.blake2b(repr(c).encode("utf-8", "surrogatepass"), digest_size=12).digest(), None))
            return out

        nxt = []
        results = parallel_map(lambda c: work(c, first), chunks, workers, setup=setup,
                               timeout=(deadline - time.time()) if deadline else None)
        stop = False
        for out in results:
            if isinstance(out, ChildFailure):
                if out.why == "deadline":
                    res.capped = "time limit reached while expanding depth %d" % d
                    stop = True
                    continue
                res.violations.append(dict(choices=[], notes=[], key=None, shard=[], index=0,
                                           message="the process running the code under test failed: " + out.why[:1500], detail={}))
                continue
            for (i, hh, c, err) in out:
                res.transitions += 0 if first else 1
                res.traces += 1
                if err is not None:
                    res.violations.append(dict(choices=[i] + [_plain(o) for o in hh], notes=[repr(sysdef.inits()[i])] + [repr(o) for o in hh],
                                               index=res.traces, shard=[], **err))
                    continue
                k = (i if sysdef.split_inits else 0, c)
                if k not in seen:
                    seen[k] = True
                    nxt.append((i, hh))
        if not first:
            d += 1
        first = False
        layer = sorted(nxt, key=repr)
        if res.violations or stop or d >= depth:
            break
        if max_states and len(seen) > max_states:
            res.capped = "state cap %d reached after depth %d" % (max_states, d)
            break
    res.states = len(seen)
    res.outcomes = len(seen)
    res.wall = time.time() - t0
    res.depth = d
    return res


def parallel_map(fn, items, workers, setup=None, timeout=None):
    """ordered map in forked children; each item gets its own child from a pool of slots"""
    results = [None] * len(items)
    pending = collections.deque(enumerate(items))
    running = {}
    end = time.time() + timeout if timeout is not None else None
    while pending or running:
        while pending and len(running) < workers:
            i, it = pending.popleft()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.close(r)
                    for (rr, _) in list(running.items()):
                        os.close(rr)
                    _quiet()
                    try:
                        if setup is not None:
                            setup()
                        d = pickle.dumps(("ok", fn(it)))
                    except BaseException as e:
                        d = pickle.dumps(("err", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])))
                    with os.fdopen(w, "wb") as f:
                        f.write(d)
                    code = 0
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = [i, pid, b"", time.time()]
        rd, _, _ = select.select(list(running), [], [], 1.0)
        for r in rd:
            d = os.read(r, 1 << 20)
            if d:
                running[r][2] += d
            else:
                i, pid, buf, _ = running.pop(r)
                os.close(r)
                os.waitpid(pid, 0)
                if not buf:
                    results[i] = ChildFailure("process died")
                else:
                    kind, v = pickle.loads(buf)
                    results[i] = v if kind == "ok" else ChildFailure(v)
        if end is not None and time.time() > end:
            for r, (i, pid, _, _) in running.items():
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                results[i] = ChildFailure("deadline")
            for i, it in pending:
                results[i] = ChildFailure("deadline")
            break
    return results


def scratch():
    return tempfile.mkdtemp(prefix="mcchk.")
