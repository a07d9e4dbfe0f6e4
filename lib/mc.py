"""Small bounded-exhaustive exploration engine shared by every check.

A check module defines spaces.  A space is a finite, deterministically ordered
set of cases (JSON-serialisable descriptions of an operation history, a fault
plan, an input, a configuration ...) and an executor that runs one case on the
real code of /repo next to a reference model.  The engine enumerates every case
of every space (sharded over forked workers), never samples, and records what
was covered.
"""
import os, sys, json, time, signal, gc, traceback, hashlib, itertools, resource
import multiprocessing

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MEM_LIMIT = 6 << 30


class Violation(Exception):
    """A property is broken.  sig identifies the failing input / call site."""
    def __init__(self, msg, sig=None, case=None):
        super(Violation, self).__init__(msg)
        self.msg = msg
        self.sig = sig
        self.case = case


class CaseTimeout(BaseException):
    pass


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def h64(obj):
    if not isinstance(obj, (bytes, bytearray, memoryview)):
        obj = repr(obj).encode('utf-8', 'backslashreplace')
    return int.from_bytes(hashlib.blake2b(obj, digest_size=8).digest(), 'little')


class Tally(object):
    """What one worker covered."""
    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.executions = 0
        self.outcomes = {}
        self.samples = []
        self.violations = []      # (space, case, msg, sig)
        self.extra = {}
        self.capped = False

    def step(self, n=1):
        self.transitions += n

    def state(self, canon):
        self.states.add(h64(canon))

    def outcome(self, key):
        key = str(key)
        self.outcomes[key] = self.outcomes.get(key, 0) + 1

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def merge(self, o):
        self.transitions += o.transitions
        self.states |= o.states
        self.executions += o.executions
        for k, v in o.outcomes.items():
            self.outcomes[k] = self.outcomes.get(k, 0) + v
        for k, v in o.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v
        self.samples.extend(o.samples)
        self.violations.extend(o.violations)
        self.capped = self.capped or o.capped


class Space(object):
    def __init__(self, name, cases, execute, rule='', cpu_limit=60, weight=None, procs=None, describe=None):
        self.name = name
        self.cases = cases          # callable returning an iterable, or an iterable
        self.execute = execute      # execute(case, tally)
        self.rule = rule
        self.cpu_limit = cpu_limit  # seconds of CPU time one case may take before it counts as a hang
        self.procs = procs

    def iter_cases(self):
        return self.cases() if callable(self.cases) else iter(self.cases)


def _on_prof(signum, frame):
    raise CaseTimeout()


def tb_tail(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    out = []
    for fr in tb[-4:]:
        out.append('%s:%d %s' % (os.path.basename(fr.filename), fr.lineno, fr.name))
    return ' < '.join(reversed(out))


def exc_site(exc):
    """innermost frame inside aaf2, for signatures"""
    for fr in reversed(traceback.extract_tb(exc.__traceback__)):
        if '/aaf2/' in fr.filename:
            return '%s:%s' % (os.path.basename(fr.filename), fr.name)
    return 'harness'


def run_case(space, case, tally):
    """-> None or (msg, sig, case)"""
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, space.cpu_limit)
    try:
        try:
            space.execute(case, tally)
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
    except Violation as e:
        return (e.msg, e.sig, e.case if e.case is not None else case)
    except CaseTimeout:
        return ('did not terminate within %g s of CPU time' % space.cpu_limit, 'hang', case)
    except MemoryError:
        return ('ran out of memory', 'memory', case)
    except RecursionError as e:
        return ('unbounded recursion', 'recursion', case)
    except Exception as e:
        return ('unexpected %s: %s  [%s]' % (type(e).__name__, e, tb_tail(e)), 'exc:%s@%s' % (type(e).__name__, exc_site(e)), case)
    return None


def _worker(spaces, idx, n, deadline, known_sigs, conn, maxv):
    try:
        try:
            resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
        except Exception:
            pass
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get('MC_DEBUG'):
            os.dup2(devnull, 2)
        import logging
        logging.disable(logging.CRITICAL)
        t = Tally()
        per_space = {}
        for space in spaces:
            cnt = 0
            nv = 0
            for i, case in enumerate(space.iter_cases()):
                if i % n != idx:
                    continue
                if time.time() > deadline:
                    t.capped = True
                    break
                r = run_case(space, case, t)
                t.executions += 1
                cnt += 1
                if cnt == 3 and idx == 0:
                    t.samples.append({'space': space.name, 'case': case})
                if r is not None:
                    t.violations.append((space.name, r[2], r[0], r[1]))
                    if r[1] not in known_sigs:
                        nv += 1
                        if nv >= maxv:
                            break
            per_space[space.name] = cnt
        t.extra_spaces = per_space
        conn.send(t)
    except BaseException as e:
        try:
            conn.send(('error', ''.join(traceback.format_exception(type(e), e, e.__traceback__))))
        except Exception:
            pass
    finally:
        conn.close()
        os._exit(0)


class HarnessError(Exception):
    pass


def explore(spaces, deadline, known_sigs=(), procs=None, maxv=1):
    """Enumerate all cases of all spaces over forked workers."""
    n = procs or int(os.environ.get('MC_PROCS') or min(8, os.cpu_count() or 1))
    gc.collect()
    ctx = multiprocessing.get_context('fork')
    ws = []
    for i in range(n):
        a, b = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_worker, args=(spaces, i, n, deadline, known_sigs, b, maxv))
        p.start()
        b.close()
        ws.append((p, a))
    total = Tally()
    per_space = {s.name: 0 for s in spaces}
    errors = []
    for p, a in ws:
        try:
            r = a.recv()
        except EOFError:
            r = ('error', 'worker died (pid %s)' % p.pid)
        p.join()
        if isinstance(r, tuple):
            errors.append(r[1])
            continue
        total.merge(r)
        for k, v in r.extra_spaces.items():
            per_space[k] += v
    if errors and not total.violations:
        raise HarnessError(errors[0])
    total.per_space = per_space
    return total


# ---------------------------------------------------------------- enumeration helpers

def words(alphabet, n, minlen=None):
    """all sequences over alphabet of length minlen..n (minlen defaults to n), shortest first"""
    alphabet = list(alphabet)
    for k in range(n if minlen is None else minlen, n + 1):
        for w in itertools.product(alphabet, repeat=k):
            yield list(w)


def chunks(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b
