"""P13: concurrency of the collision integrals. The compiled integrals run on a controlled OpenMP runtime: every interleaving of the
threads (at region entry and exit, work distribution, workspace allocation, quadrature calls and integrand evaluations) up to a
preemption bound is executed and its result compared, bit by bit, with the serial evaluation of each momentum alone."""
import numpy

from checks import p12
from mc import target
from mc.harness import environ, quiet

PROPERTY = 'P13'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['threads switch at the scheduling points of the runtime (work distribution, allocation, quadrature call, integrand evaluation); memory is sequentially consistent between them',
               'static work distribution is the one the compiler emits for the given team size',
               'adaptive quadrature of the GNU Scientific Library is replaced by a re-entrant implementation with the same contract']
BOUNDS = {'quick': '10 reactions x teams of 1 to 4 threads x 2 to 4 momenta; all interleavings with at most 2 preemptions at allocation points, 1 at quadrature and integrand evaluations; all orders of three momenta, at ten required accuracies',
          'thorough': 'teams up to 5 threads, 3 preemptions at allocation points, 2 at quadrature calls and outer integrand evaluations, 1 at inner ones; all orders of four momenta'}

S = target.Scheduler
# (masses, particles on the left, kind)
REACTIONS = [
    ((0., .6, 0., .6), 2, p12.FULL), ((10., 0., .3, .3), 1, p12.FULL), ((8., 0., 0., 0.), 1, p12.DECAY), ((8., 0., 0., 0.), 1, p12.CREATION),
    ((.5, 6., .2, 0.), 2, p12.F_1), ((0., 0., .6, .6), 2, p12.F_F),
    ((10., 1., 2.), 1, p12.FULL), ((6., 0., 0.), 1, p12.CREATION), ((5., 2., 2.9), 1, p12.DECAY), ((3., 1., 0.), 1, p12.F_1),
]
STATE = (3.25, 1.3, 3.7e-3, True)


def schedulers():
    paths = target.install(True)
    return [target.Scheduler(p) for p in paths.values()]


class Controlled(object):
    """ one controlled evaluation after another on both extension modules (only the one used sees regions) """

    def __init__(self, four):
        paths = target.install(True)
        self.sched = target.Scheduler(paths['interactions.{}_particle.cpp.integral'.format('four' if four else 'three')])

    def run(self, f, threads, mask, choices):
        live = self.sched.workspaces()
        self.sched.configure(threads, mask, choices)
        out = f()
        return out, self.sched.trace(), self.sched.diverged(), self.sched.workspaces() - live


def schedules(control, f, threads, mask, bound):
    """ all executions with at most `bound` preemptions (stateless depth-first search) """
    stack = [()]
    while stack:
        prefix = stack.pop()
        out, trace, diverged, leaked = control.run(f, threads, mask, prefix)
        yield prefix, out, len(trace), diverged, leaked
        cost = sum(1 for (n, running, c) in trace[:len(prefix)] if running and c)
        for pos in range(len(prefix), len(trace)):
            n, running, _ = trace[pos]
            if cost + (1 if running else 0) > bound:
                continue
            head = tuple(c for _, _, c in trace[:pos])
            stack += [head + (c,) for c in range(1, n)]


def same(a, b):
    return numpy.array_equal(numpy.asarray(a), numpy.asarray(b))


def prepare(masses, n_in, kind, samples):
    four = len(masses) == 4
    species = p12.SPECIES[len(masses) % 3]
    if not four:
        species = tuple(x[:3] for x in species)
    Ms = p12.ELEMENTS[1] if four else [dict(K=2.)]
    _, parts, inter = p12.build(masses, species, STATE, Ms, kind, n_in, samples=samples, top=12.)
    out = []
    for integral in inter.integrals:
        integral.initialize()
        out.append(integral)
    return out


def interleavings(ck, index, which, samples, threads, mask, bound, cap):
    masses, n_in, kind = REACTIONS[index]
    four = len(masses) == 4
    integrals = prepare(masses, n_in, kind, samples)
    if which >= len(integrals):
        return
    integral = integrals[which]
    control = Controlled(four)
    grid = integral.particle.grid.TEMPLATE
    f = lambda: integral.integrate(grid, stepsize=1.)
    with ck.case('serial', str(integral), index):
        serial, _, _, leaked = control.run(f, 1, S.SYNC, ())
        ck.require(leaked == 0, 'work space is released', leaked)
    n = points = 0
    for prefix, out, length, diverged, leaked in schedules(control, f, threads, mask, bound):
        with ck.case('interleaving', str(integral), masses, p12.NAMES[kind], 'threads', threads, 'points', mask, 'choices', list(prefix)):
            ck.require(not diverged, 'a recorded schedule can be replayed')
            ck.require(same(out, serial), 'result does not depend on the interleaving', out, serial)
            ck.require(leaked == 0, 'work space is released', leaked)
        ck.schedules += 1
        points = max(points, length)
        n += 1
        if n >= cap or ck.broken:
            break
    ck.count('interleavings', n)
    ck.trace(n)
    ck.state(('interleavings', index, which, samples, threads, mask, bound))
    ck.outcome((threads, mask, points))


def locality(ck, index, size):
    """ the value at a momentum depends on that momentum alone: all orders and team sizes, on the compiled entry points """
    import itertools
    masses, n_in, kind = REACTIONS[index]
    four = len(masses) == 4
    for integral in prepare(masses, n_in, kind, 4):
        call = entry(integral)
        if call is None:
            return
        control = Controlled(four)
        top = float(integral.particle.grid.TEMPLATE[-1] / integral.particle.params.aT)
        ps = [0., top / 12, top / 3, top / 1.5, top][:size] if size > 3 else [0., top / 6, top / 2]
        with ck.case('each momentum alone', str(integral), masses):
            alone = {p: control.run(lambda: call([p]), 1, S.SYNC, ())[0][0] for p in ps}
        scale = max(abs(v) for v in alone.values())
        for required in (1e-2, .1, .3, 1., 3., 10., 30., 100., 1e3):
            # the accuracy asked for follows the step size and the momentum: values must not follow the accuracy of others
            rough = entry(integral, required * scale)
            if rough is None or not scale:
                break
            with ck.case('each momentum alone', str(integral), masses, 'accuracy', required):
                single = {p: control.run(lambda: rough([p]), 1, S.SYNC, ())[0][0] for p in ps}
            for order in itertools.permutations(ps):
                for threads in (1, 2):
                    with ck.case('momenta together', str(integral), masses, list(order), threads, 'accuracy', required):
                        out, _, _, _ = control.run(lambda: rough(list(order)), threads, S.SYNC, ())
                        ck.require(same(out, [single[p] for p in order]), 'a momentum does not depend on the ones evaluated with it')
                    ck.trace()
                ck.state((index, str(integral), order, required))
        for order in itertools.permutations(ps):
            for repeated in ((), (order[0],)):
                for threads in (1, 2, 3, 4):
                    with ck.case('momenta together', str(integral), masses, list(order + repeated), threads):
                        out, _, _, leaked = control.run(lambda: call(list(order + repeated)), threads, S.SYNC, ())
                        ck.require(same(out, [alone[p] for p in order + repeated]), 'a momentum does not depend on the ones evaluated with it')
                        ck.require(leaked == 0, 'work space is released')
                    ck.trace()
                ck.state((index, str(integral), order, repeated))


def entry(integral, accuracy=None):
    """ the compiled integration over a list of momenta, as the integral itself calls it (with the step size that asks for this accuracy) """
    from checks import p14
    four = len(integral.reaction) == 4
    seen, kept = [], []

    def wrap(real):
        def spy(ps, *rest, **kw):
            seen.append((rest, kw))
            return real(ps, *rest, **kw)
        kept.append(real)
        return spy

    def numbers():
        rest, kw = seen[-1]
        return {k: v for k, v in list(enumerate(rest)) + list(kw.items()) if isinstance(v, float)}
    with p14.compiled(four, wrap):
        integral.integrate(integral.particle.grid.TEMPLATE, stepsize=1.)
        if accuracy and seen:
            first = numbers()
            integral.integrate(integral.particle.grid.TEMPLATE, stepsize=2.)
            twice = numbers()
            scaled = [k for k in first if first[k] and abs(twice[k] / first[k] - 2.) < 1e-9]
            if len(scaled) != 1:
                return None
            integral.integrate(integral.particle.grid.TEMPLATE, stepsize=1e-2 / accuracy / first[scaled[0]])
    if not seen:
        return None
    rest, kw = seen[-1]
    return lambda ps: kept[0](numpy.array(ps), *rest, **kw)


def shard(ck, arg):
    with environ(LOGARITHMIC_TIMESTEP='1', **p12.SETTINGS), quiet():
        if arg[0] == 'locality':
            locality(ck, *arg[1:])
        else:
            interleavings(ck, *arg[1:])


def explore(ck, tier):
    args = []
    deep = ck.thorough
    for i, (masses, _, _) in enumerate(REACTIONS):
        args.append(('locality', i, 4 if deep else 3))
        for which in range(1 + i % 2 if not deep else 5):
            for threads, samples in ((2, 2), (2, 3), (3, 3), (3, 4), (4, 4)) + (((5, 6),) if deep else ()):
                bound = (2 if threads < 4 else 1) + (1 if deep else 0)
                args.append(('interleavings', i, which, samples, threads, S.ALLOC, bound, 10**6))
            args.append(('interleavings', i, which, 2, 2, S.ALLOC | S.QAG, 1, 10**6))
            args.append(('interleavings', i, which, 2, 2, S.OUTER, 2 if deep else 1, 10**6))
            if len(masses) == 4 and (deep or which == 0):
                args.append(('interleavings', i, which, 2, 2, S.INNER, 1, 10**6))
    ck.count('configurations', len(args))
    args.sort(key=lambda a: -(a[5] if a[0] == 'interleavings' else 0))
    ck.shards(shard, args)
