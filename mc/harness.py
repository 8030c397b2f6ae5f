"""Shared machinery of the explorers.

A check module `checks/<id>.py` defines

    PROPERTY = 'P01'
    NEEDS_EXTENSIONS = False          # whether the C++ modules are compiled and imported
    ASSUMPTIONS = [...]
    def explore(ck, tier): ...        # enumerates the bounded space

and reports to the `Check` object it is given:

    with ck.case('what', input...):   # one transition: code under test runs in here
        ...
        ck.require(condition, 'what must hold', observed...)
    ck.state(key)                     # one canonical state / history / input visited
    ck.trace()                        # one complete history replayed against the reference model

Any exception that leaves a case is a violation: the inputs of every explorer are inside
the domain for which the property promises an answer.
"""
import contextlib
import hashlib
import io
import json
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

MAX_REPORTED = 20
PER_MESSAGE = 2
CASE_LIMIT = 150        # seconds one evaluation of the code under test may take (they take far less)


class Refuted(Exception):
    """ Raised by Check.require to leave the running case """


class Infrastructure(Exception):
    """ Something of the harness itself does not work """


class Overdue(BaseException):
    """ The code under test did not return """


def _overdue(*_):
    raise Overdue('no answer within {} s'.format(CASE_LIMIT))


def _plain(x):
    try:
        import numpy
        if isinstance(x, numpy.generic):
            return x.item()
        if isinstance(x, numpy.ndarray):
            return [_plain(y) for y in x.ravel()[:64].tolist()]
    except ImportError:
        pass
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in list(x.items())[:64]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [_plain(y) for y in list(x)[:64]]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)[:300]


class Check(object):

    def __init__(self, prop, tier, marker=None):
        self.property = prop
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.marker = marker
        self.states = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self.schedules = 0
        self.outcomes = set()
        self.samples = []
        self.violations = []
        self.n_violations = 0
        self.counters = {}
        self.current = None
        self._last_mark = 0.
        self.hung = False

    # -- reporting ---------------------------------------------------------------------------

    def state(self, key):
        self.states.add(hashlib.blake2b(repr(key).encode('utf8', 'replace'), digest_size=8).digest())

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode('utf8', 'replace'), digest_size=8).digest())

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sample(self, *what, **kw):
        limit = kw.get('limit', 6)
        if len(self.samples) < limit:
            self.samples.append(_plain(what[0] if len(what) == 1 else list(what)))

    def mark(self, what):
        if self.marker and time.time() - self._last_mark > 0.2:
            self._last_mark = time.time()
            try:
                with open(self.marker, 'w') as f:
                    json.dump({'t': self._last_mark, 'case': _plain(what)}, f)
            except (OSError, TypeError, ValueError):
                pass

    def violation(self, message, detail):
        self.n_violations += 1
        same = sum(1 for v in self.violations if v['message'] == message)
        if len(self.violations) < MAX_REPORTED and same < PER_MESSAGE:
            self.violations.append({'message': message, 'case': _plain(self.current),
                                    'detail': _plain(detail)})

    @contextlib.contextmanager
    def case(self, *what):
        """ One evaluation of the code under test """
        outer = self.current
        self.current = what if outer is None else tuple(outer) + tuple(what)
        self.mark(self.current)
        self.transitions += 1
        if outer is None:
            signal.signal(signal.SIGALRM, _overdue)
            signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
        try:
            yield
        except Refuted:
            pass
        except Infrastructure:
            raise
        except (MemoryError,):
            raise
        except BaseException as e:       # SystemExit and the like of the code under test included
            tb = traceback.extract_tb(e.__traceback__)
            self.violation('raised {}: {}'.format(type(e).__name__, str(e)[:200]),
                           ['{}:{} {}'.format(os.path.basename(f.filename), f.lineno, f.name)
                            for f in tb[-4:]])
        finally:
            if outer is None:
                signal.setitimer(signal.ITIMER_REAL, 0)
            self.current = outer

    def require(self, condition, message, *detail):
        if not condition:
            self.violation(message, detail)
            raise Refuted()

    def close(self, a, b, message, rel=1e-9, abs_=0., *detail):
        """ Elementwise agreement; NaN on either side disagrees """
        import numpy
        a_, b_ = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
        if a_.shape != b_.shape:
            self.violation(message + ' (shape)', (a_.shape, b_.shape) + detail)
            raise Refuted()
        with numpy.errstate(all='ignore'):
            bad = ~(numpy.abs(a_ - b_) <= abs_ + rel * numpy.maximum(numpy.abs(a_), numpy.abs(b_)))
            bad &= ~((a_ == b_))
        if numpy.any(bad):
            i = int(numpy.flatnonzero(bad.ravel())[0])
            self.violation(message, ('index', i, 'got', float(a_.ravel()[i]),
                                     'expected', float(b_.ravel()[i])) + detail)
            raise Refuted()

    @property
    def broken(self):
        return self.n_violations >= MAX_REPORTED

    # -- parallel exploration ----------------------------------------------------------------

    def shards(self, function, arguments, workers=None):
        """ Explore disjoint parts of the space in forked processes; a part whose process is killed
            by a signal is a violation (the code under test brought the process down). """
        arguments = list(arguments)
        workers = workers or int(os.environ.get('VERIF_WORKERS', 0)) or min(8, os.cpu_count() or 1)
        tmp = tempfile.mkdtemp(prefix='vshards-')
        running, done, index = {}, 0, 0
        sys.stdout.flush()
        try:
            while done < len(arguments) and not self.hung:
                while index < len(arguments) and len(running) < workers and not self.broken:
                    path = os.path.join(tmp, str(index))
                    pid = os.fork()
                    if pid == 0:
                        self._shard(function, arguments[index], path)
                    running[pid] = (index, path)
                    index += 1
                if self.broken and not running:
                    break
                pid, status = os.waitpid(-1, os.WNOHANG)
                if pid == 0:
                    self._watch(running, arguments)
                    time.sleep(0.01)
                    continue
                if pid not in running:
                    continue
                i, path = running.pop(pid)
                done += 1
                self._collect(arguments[i], path, status)
        finally:
            for pid in running:
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
            for fn in os.listdir(tmp):
                os.unlink(os.path.join(tmp, fn))
            os.rmdir(tmp)

    def _watch(self, running, arguments):
        """ Code under test that neither returns nor lets Python run (compiled code) """
        now = time.time()
        if now - self._last_mark < 5:
            return
        self._last_mark = now
        for pid, (i, path) in list(running.items()):
            try:
                with open(path + '.mark') as f:
                    mark = json.load(f)
            except (OSError, ValueError):
                continue
            if now - mark['t'] > 2 * CASE_LIMIT:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                del running[pid]
                self.current = ('process', arguments[i])
                self.violation('no answer within {} s'.format(2 * CASE_LIMIT), mark.get('case'))
                self.current = None
                self.hung = True

    def _shard(self, function, argument, path):
        sub = Check(self.property, self.tier, marker=path + '.mark')
        sub.current = self.current
        code = 0
        try:
            function(sub, argument)
        except Refuted:
            pass
        except BaseException:
            code = 3
            sub.counters['__error__'] = 1
            sub.error = traceback.format_exc()
        try:
            with open(path + '.pkl', 'wb') as f:
                pickle.dump(sub.__dict__, f)
        except BaseException:
            code = 4
        os._exit(code)

    def _collect(self, argument, path, status):
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            if sig in (signal.SIGKILL, signal.SIGTERM):
                raise Infrastructure('a shard was killed: {!r}'.format(argument)[:300])
            last = None
            try:
                with open(path + '.mark') as f:
                    last = json.load(f).get('case')
            except (OSError, ValueError):
                pass
            self.current = ('process', argument)
            self.violation('the process died with signal {}'.format(sig), {'last marked case': last})
            self.current = None
            return
        code = os.WEXITSTATUS(status)
        with open(path + '.pkl', 'rb') as f:
            d = pickle.load(f)
        if code:
            raise Infrastructure(d.get('error', 'shard failed'))
        self.states |= d['states']
        self.extra_states += d['extra_states']
        self.outcomes |= d['outcomes']
        self.transitions += d['transitions']
        self.traces += d['traces']
        self.schedules += d['schedules']
        self.n_violations += d['n_violations']
        for v in d['violations']:
            if len(self.violations) < MAX_REPORTED:
                self.violations.append(v)
        for s in d['samples']:
            if len(self.samples) < 6:
                self.samples.append(s)
        for k, v in d['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v

    # -- evidence ----------------------------------------------------------------------------

    def summary(self):
        coverage = {
            'states': len(self.states) + self.extra_states,
            'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'distinct_outcomes': len(self.outcomes),
            'samples': self.samples,
            'counters': self.counters,
        }
        if self.schedules:
            coverage['schedules'] = self.schedules
        return {'coverage': coverage, 'violations': self.violations, 'n_violations': self.n_violations}


# -- helpers for the explorers ----------------------------------------------------------------------

@contextlib.contextmanager
def environ(**settings):
    """ Environment variables of the code under test; None removes """
    saved = dict(os.environ)
    try:
        for k, v in settings.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        yield
    finally:
        for k in list(os.environ):
            if k not in saved:
                del os.environ[k]
        for k, v in saved.items():
            if os.environ.get(k) != v:
                os.environ[k] = v


@contextlib.contextmanager
def quiet():
    """ Swallow what the code under test prints (and restore sys.stdout if it was replaced) """
    saved = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = saved


def ulps(x, n=1):
    """ The neighbours of a double """
    import numpy
    lo = hi = x
    for _ in range(n):
        lo, hi = numpy.nextafter(lo, -numpy.inf), numpy.nextafter(hi, numpy.inf)
    return float(lo), float(hi)


def simplest_first(iterable):
    return sorted(iterable, key=lambda x: (len(x), x))
