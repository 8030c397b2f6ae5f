"""P15: the kinetic step of a species. Every sequence of collision terms over an alphabet is applied through the real stepping methods
and compared with the implicit Adams-Moulton equation solved independently."""
import itertools
from fractions import Fraction

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P15'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['collision terms are given (they are decided by P12 to P14)', 'the step size stays constant during a history']
BOUNDS = {'quick': 'all sequences of 3 steps over 12 combinations of collision terms and of 7 steps over 2, 5 species, 2 step sizes; decay of a species at every step of 4 histories of its density',
          'thorough': 'all sequences of 4 steps over 12 combinations and of 10 steps over 2'}

N = 7


def moulton(k):
    """ weights of the derivative at t = -(k-2), ..., -1, 0, 1 in the integral from 0 to 1 """
    nodes = [Fraction(2 - k + i) for i in range(k)]
    out = []
    for i, x in enumerate(nodes):
        poly, den = [Fraction(1)], Fraction(1)
        for j, z in enumerate(nodes):
            if j != i:
                poly = [a - z * b for a, b in zip([Fraction(0)] + poly, poly + [Fraction(0)])]
                den *= x - z
        out.append(sum(c / (n + 1) for n, c in enumerate(poly)) / den)
    return [float(x) for x in out]


WEIGHTS = {k: moulton(k) for k in range(1, 6)}


class Term(object):
    """ a collision integral with a prescribed answer """

    def __init__(self, kind, gain, rate):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind
        self.name, self.kind = kind, getattr(CollisionIntegralKind, kind)
        self.gain, self.rate = gain, rate
        self.owner = None
        self.steps = []

    def terms(self, f):
        """ (collision term, its coefficient of f) """
        if self.name == 'Full':
            return self.gain - self.rate * f, -self.rate
        if self.name in ('F_decay', 'F_f_vacuum_decay'):
            return -self.rate * f, numpy.where(f > 0, -self.rate, 0.)
        return self.gain, 0. * self.gain

    def integrate(self, ps, stepsize=None):
        self.steps.append(stepsize)
        C, B = self.terms(self.owner._distribution.copy())
        return (C, B) if self.name == 'Full' else C


Y = numpy.linspace(0, 1, N)
SHAPES = [(.3 + .1 * Y, 1. + Y), (.02 * Y, 40. - 3 * Y), (0. * Y, 5. + 0 * Y), (1e-3 + 0 * Y, .01 * Y), (-2. + 3 * Y, .5 + 0 * Y)]
# combinations of terms acting in one step: (kind, shape) ...
LETTERS = [
    (), (('Full', 0),), (('Full', 1),), (('Full', 0), ('Full', 1), ('F_1', 3)), (('F_1', 0),), (('F_creation', 1), ('F_decay', 0)),
    (('F_decay', 1),), (('F_f_vacuum_decay', 2),), (('F_1_vacuum_decay', 3), ('Full', 3)), (('F_1', 4),), (('Full', 2), ('F_f_vacuum_decay', 3)),
    (('F_1', 'nan'), ('Full', 3)),
]
SPECIES = [dict(), dict(mass=1.), dict(statistics='BOSON', mass=2.), dict(start='empty'), dict(start='peaked', mass=.3)]


def build(spec, h, **kw):
    from common import LinearSpacedGrid, Params, UNITS
    from particles import Particle, STATISTICS
    spec = dict(spec)
    start = spec.pop('start', None)
    params = Params(T=2. * UNITS.MeV, dy=h)
    params.a = .5
    params.aT = 1. * UNITS.MeV
    mass = spec.pop('mass', 0.) * UNITS.MeV
    q = Particle(name=kw.pop('name', 'species'), symbol='s', mass=mass, dof=2, Q=0, majorana=False,
                 statistics=getattr(STATISTICS, spec.pop('statistics', 'FERMION')), grid=LinearSpacedGrid(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=6 * UNITS.MeV),
                 decoupling_temperature=1e3 * UNITS.MeV, params=params, **kw)
    params.h = h
    if start == 'empty':
        q._distribution = numpy.zeros(N)
    elif start == 'peaked':
        q._distribution = numpy.array([0, .1, .9, .1, 1e-12, 0, 1e-300])
    else:
        q._distribution = .5 * numpy.exp(-Y * 5)
    return q


def step(ck, q, letter, history, h):
    """ one step of the real code next to the reference; returns the reference collision term """
    ps = q.grid.TEMPLATE
    terms = []
    for kind, shape in letter:
        gain, rate = SHAPES[3 if shape == 'nan' else shape]
        if shape == 'nan':
            gain = gain.copy()
            gain[2] = numpy.nan
        t = Term(kind, gain.copy(), rate.copy())
        t.owner = q
        terms.append(t)
        q.collision_integrals.append(t)
    f = q._distribution.copy()
    q.collision_integral = q.integrate_collisions()
    ck.require(numpy.array_equal(f, q._distribution), 'the collision term changes nothing by itself')
    ck.require(numpy.shape(q.collision_integral) == (N,), 'one value per momentum')
    for t in terms:
        ck.require(len(t.steps) == 1 and t.steps[0] == h, 'every reaction is evaluated once with the step size', t.steps)
    q.update_distribution()
    if not terms:
        I = numpy.zeros(N)
    else:
        both = [t.terms(f) for t in terms]
        A = sum(c for c, _ in both)
        B = sum(b for _, b in both)
        k = min(5, len(history) + 1)
        w = WEIGHTS[k]
        I = (sum(x * y for x, y in zip(w, history[len(history) - k + 1:] + [A]))) / (1 - h * B * w[-1])
        I = numpy.where(numpy.isnan(I), 0., I)
    new = numpy.maximum(f + I * h, 0.)
    ck.close(q._distribution, new, 'distribution after the step', 1e-9, 1e-12)
    ck.require(numpy.all(q._distribution >= 0), 'occupation numbers stay non-negative')
    ck.require(len(q.collision_integrals) == 0, 'every step starts without collision terms')
    return I


def histories(ck, species, h, sequences):
    for seq in sequences:
        with environ(STERILE_DECAYED=None), ck.case('history', SPECIES[species], 'h', h, [LETTERS[i] for i in seq]):
            q = build(SPECIES[species], h)
            q.params.h = h
            rows, hist = len(q.data['distribution']), []
            for n, i in enumerate(seq):
                hist.append(step(ck, q, LETTERS[i], hist, h))
                ck.close(q.data['collision_integral'][-1], hist[-1], 'the collision term is recorded', 1e-9, 1e-12)
                ck.close(q.data['distribution'][-1], q._distribution, 'the distribution is recorded', 0.)
                ck.require(len(q.data['collision_integral']) == n + 1 and len(q.data['distribution']) == rows + n + 1, 'one row per step')
            for n, I in enumerate(hist):
                ck.close(q.data['collision_integral'][n], I, 'recorded terms keep their values', 1e-9, 1e-12)
        ck.trace()
        ck.state((species, h, seq))


def equilibrium(ck):
    """ species in equilibrium are not stepped """
    from common import UNITS
    for i in range(len(LETTERS)):
        with ck.case('equilibrium', LETTERS[i]):
            q = build(SPECIES[1], .1)
            q.decoupling_temperature = 1e-3 * UNITS.MeV
            f, rows = q._distribution.copy(), len(q.data['distribution'])
            q.collision_integral = numpy.ones(N)
            q.update_distribution()
            ck.require(numpy.array_equal(f, q._distribution) and len(q.data['distribution']) == rows and len(q.data['collision_integral']) == 0,
                       'a species in equilibrium is not changed by collisions')
        ck.trace()


def decay(ck, name, when, ratio, mass, steps, later):
    """ a species whose density has fallen below the threshold is gone for good """
    import os
    with environ(STERILE_DECAYED=None), ck.case('decay', name, 'after', when, 'density over threshold', ratio, 'mass', mass, 'densities since', later):
        h = .1
        q = build(dict(mass=mass), h, name=name)
        q.params.a_ini = .3
        q.data['params']['density'][0] = q.density / 1e-3
        for x in later:                                     # what counts is the density at the beginning
            q.data['params'].append({'a': .5, 't': 0., 'T': q.params.T, 'density': x * q.density, 'energy_density': x * q.energy_density})
        gone = False
        hist = []
        for n in range(steps):
            if n == when:
                threshold = 1e-10 * (.3 / 10) ** 3
                q.data['params']['density'][0] = q.density / (ratio * threshold)
            f = q._distribution.copy()
            if gone:
                t = Term('Full', *SHAPES[0])
                t.owner = q
                q.collision_integrals.append(t)
                q.collision_integral = q.integrate_collisions()
                ck.require(not numpy.any(q.collision_integral), 'a decayed species has no collisions')
                q.update_distribution()
                ck.require(q.decayed and not numpy.any(q._distribution), 'a decayed species stays decayed')
                ck.require(len(q.collision_integrals) == 0 and not numpy.any(q.data['distribution'][-1]), 'history of a decayed species is empty')
            elif n == max(when, 1) and ratio < 1 and mass:      # never judged before the first step
                gone = True
                t = Term('Full', *SHAPES[0])
                t.owner = q
                q.collision_integrals.append(t)
                q.collision_integral = q.integrate_collisions()
                q.update_distribution()
                ck.require(q.decayed and not numpy.any(q.collision_integral) and not numpy.any(q._distribution), 'a diluted massive species is taken as decayed')
            else:
                hist.append(step(ck, q, LETTERS[3], hist, h))
                ck.require(not q.decayed, 'a species with enough particles left has not decayed')
            ck.require(bool(os.environ.get('STERILE_DECAYED')) == (gone and name == 'Sterile neutrino (Dirac)'), 'decay of the sterile neutrino is announced, and only that')
    ck.trace()
    ck.state((name, when, ratio, mass, later))


def shard(ck, arg):
    with quiet(), environ(LOGARITHMIC_TIMESTEP='1'), numpy.errstate(all='ignore'):
        {'histories': histories, 'equilibrium': equilibrium, 'decay': decay}[arg[0]](ck, *arg[1:])


def explore(ck, tier):
    deep = ck.thorough
    args = [('equilibrium',)]
    L = range(len(LETTERS))
    for s in range(len(SPECIES)):
        for h in (.1, 1.5):
            for first in L:
                for second in (L if deep else (None,)):
                    head = (first,) if second is None else (first, second)
                    args.append(('histories', s, h, [head + x for x in itertools.product(L, repeat=2)]))
            pairs = [(1, 4), (6, 3), (0, 2)]
            for a, b in pairs:
                args.append(('histories', s, h, [tuple((a, b)[x] for x in seq) for seq in itertools.product((0, 1), repeat=10 if deep else 7)]))
    for name in ('Sterile neutrino (Dirac)', 'Tau'):
        for when in range(5):
            for ratio in (.5, .999, 1.001, 3.):
                for mass in (0., 1.):
                    for later in ((), (1e15,), (1e-15,), (1e15, 1e-15)):
                        args.append(('decay', name, when, ratio, mass, 7, later))
    ck.shards(shard, args)
