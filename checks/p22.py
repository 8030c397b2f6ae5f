"""P22: short-lived species. Every sequence of steps over an alphabet of creations, decays and scatterings is put through the real bookkeeping, next to
the balance of numbers written out; chains of real collision integrals from mother over short-lived daughters to their products."""
import itertools
import math

import numpy

from checks import p14
from mc.harness import environ, quiet

PROPERTY = 'P22'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the collision terms of single reactions are given (decided by P10 to P14)', 'each decay channel of a short-lived species has its branching ratio',
               'a species that starts out of equilibrium is followed from its first complete step on', 'thermal momenta are resolved by the grid']
BOUNDS = {'quick': 'all sequences of up to 3 steps over 9 kinds of steps x 14 species (thermal or never thermal, thermalised or not, statistics, spin states, moment of decoupling) x 2 time variables; '
                   'chains of real integrals: 3 mother masses x 3 branching ratios x thermalised or not x self-conjugate or not x orders of listing',
          'thorough': 'as quick with sequences of up to 4 steps and 5 masses'}

N = 161
TOP = 24.
Y = numpy.linspace(0., TOP, N)


def simpson(f):
    h = Y[1] - Y[0]
    return h / 3 * (f[0] + f[-1] + 4 * numpy.sum(f[1:-1:2]) + 2 * numpy.sum(f[2:-1:2]))


CREATED = [1e-3 * Y * numpy.exp(-(Y - 8) ** 2 / 6), 5e-2 * numpy.exp(-Y / 2.), numpy.zeros(N), 2e-7 * Y ** 2 * numpy.exp(-(Y - 11) ** 2 / 9)]
LOST = [-3. / (1 + Y), -.5 * numpy.ones(N), numpy.zeros(N), -.02 * Y]
# what happens in a step: (sides, products, shape)
A, B, C, S = ((-1, -1, 1), 'Xn'), ((-1, 1, 1), 'ab'), ((-1, 1, 1, 1), 'ccd'), ((-1, -1, 1, 1), 'eFe')
D = ((-1, -1, -1, 1), 'Ymn')
LETTERS = [
    (), ((A, 0),), ((A, 0), (B, 0)), ((A, 1), (D, 0), (B, 1), (C, 0)), ((B, 1),), ((A, 2), (B, 0)), ((A, 0), (S, 1)), ((D, 3), (C, 3), (S, 0), (B, 2)), ((C, 1), (B, 0), (A, 3), (A, 1)),
]
BRANCHING = {'ba': .61, 'dcc': .3, 'cdd': .123, 'aab': .5}


class Term(object):
    """ a reaction of the short-lived species with known terms """

    def __init__(self, owner, letter, shape):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
        sides, products = letter

        from interactions import IntegralItem

        class Other(object):
            majorana = False
        others = []
        for s in products:
            o = Other()
            o.symbol = o.name = s
            others.append(o)
        self.reaction = [IntegralItem(side=side, specie=q, antiparticle=False, index=i, crossed=False) for i, (q, side) in enumerate(zip([owner] + others, sides))]
        self.particle = owner
        self.gain = sides[-1] == 1 and sides.count(1) == 1
        self.decay = sides[0] == -1 and sides.count(-1) == 1
        self.kind = Kind.F_creation if self.gain else Kind.F_decay
        self.products = products
        self.F = CREATED[shape].copy() if self.gain else LOST[shape].copy()
        self.steps = []

    def integrate(self, ps, stepsize=None):
        self.steps.append(stepsize)
        zero = numpy.zeros(len(ps))
        return (self.F.copy(), zero) if self.gain else (zero, self.F.copy())


SPECIES = [dict(), dict(thermalization=True), dict(thermal_dyn=False), dict(thermal_dyn=False, thermalization=True), dict(statistics='BOSON'), dict(statistics='BOSON', thermalization=True, dof=3),
           dict(majorana=True), dict(majorana=True, thermalization=True, dof=1, statistics='BOSON'), dict(dof=4), dict(dof=4, thermal_dyn=False, thermalization=True), dict(lifetime=.02),
           dict(lifetime=.02, thermalization=True), dict(thermalization=True, mass=24.), dict(mass=3., thermal_dyn=False, thermalization=True)]


def make(spec, T, T_dec, h, log):
    from common import LinearSpacedGrid, Params, UNITS
    from particles import Particle, STATISTICS
    M = UNITS.MeV
    spec = dict(spec)
    p = Params(T=T * M, dy=h) if log else Params(T=T * M, dx=h * M)
    p.t = 3. * UNITS.s
    q = Particle(name='short', symbol='q', mass=spec.pop('mass', 6.) * M, statistics=getattr(STATISTICS, spec.pop('statistics', 'FERMION')), dof=spec.pop('dof', 2), Q=0,
                 majorana=spec.pop('majorana', False), decoupling_temperature=T_dec * M, lifetime=spec.pop('lifetime', 2.) * UNITS.s, fast_decay=True, BR=dict(BRANCHING),
                 grid=LinearSpacedGrid(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=TOP * M), **spec)
    q.set_params(p)
    return q


def move(p, n, h, log):
    """ the plasma a step later """
    from common import UNITS
    p.x *= 1 + h if log else 1.
    p.x += 0 if log else p.dx
    p.a = p.x / p.m
    p.aT *= 1.001
    p.T = p.aT / p.a
    p.t += .013 * (n + 1) * UNITS.s


def step(ck, q, letter, t_dec):
    """ one step of a decoupled short-lived species; t_dec: when its thermal population began to decay """
    from common import UNITS
    p, h = q.params, q.params.h
    M = UNITS.MeV
    terms = [Term(q, *l) for l in letter]
    before = q._distribution.copy()
    q.collision_integrals.extend(terms)
    got = q.integrate_collisions()
    ck.require(numpy.shape(got) == (N,) and numpy.all(numpy.isfinite(got)), 'one finite value per momentum')
    for t in terms:
        ck.require(len(t.steps) == 1 and t.steps[0] == h, 'every reaction is evaluated once with the step size', t.steps)
    g = q.dof if q.majorana else q.dof / 2.
    # thermal population left over from decoupling
    def left():
        if not q.thermal_dyn:
            return numpy.zeros(N)
        ma = q.mass / q.decoupling_temperature * (q.aT / M)
        return math.exp(-(p.t - t_dec) / q.lifetime) / (numpy.exp(numpy.sqrt(Y ** 2 + ma ** 2) / (q.aT / M)) + q.eta)
    if terms:
        gain = sum([t.F for t in terms if t.gain], numpy.zeros(N))
        number = g * simpson(gain * Y ** 2)
        ck.close(q.num_creation / M ** 3, number, 'number created in the step', 1e-6, 1e-30)
        during = gain * h
        thermal = 0.
        if hasattr(q, 'thermalization'):
            width = q.mass / M * p.a * q.aT / M
            maxwell = numpy.exp(-Y ** 2 / (2 * width))
            spread = simpson(gain * Y ** 2) / (math.sqrt(math.pi / 2) * width ** 1.5) * maxwell
            thermal = spread - gain
            during = spread * h
        f = left() + during
        total = gain + thermal
        balance = number
        for t in terms:
            if t.gain:
                continue
            if t.decay:
                share = BRANCHING[''.join(sorted(t.products))] if ''.join(sorted(t.products)) in BRANCHING else [v for k, v in BRANCHING.items() if sorted(k) == sorted(t.products)][0]
                all_ = -g * simpson(t.F * f * Y ** 2)
                if all_ > 0:
                    total = total + t.F * f * share * number / all_
                    balance -= share * number
            else:
                total = total + t.F * f
                balance += g * simpson(t.F * f * Y ** 2)
        size = numpy.max(numpy.abs(total)) + numpy.max(numpy.abs(gain))
        ck.close(got, total, 'collision term: created, thermalised and decayed', 1e-6, 1e-7 * size)
        ck.close(g * simpson(got * Y ** 2), balance, 'number: created, less the branching ratio of each decay', 1e-5, 2e-5 * number)
        ck.close(q._distribution, f, 'population during the step: what is left of the thermal one and what was created', 1e-6, 1e-9 * (numpy.max(f) + 1e-99))
    else:
        ck.require(not numpy.any(got), 'without reactions no collision term')
        ck.close(q._distribution, before, 'without reactions nothing changes', 0)
    q.collision_integral = got
    q.update_distribution()
    ck.require(not q.collision_integrals, 'the next step starts without reactions')


def population(ck, q, t_dec, label):
    from common import UNITS
    M = UNITS.MeV
    if q.thermal_dyn:
        ma = q.mass / q.decoupling_temperature * (q.aT / M)
        want = math.exp(-(q.params.t - t_dec) / q.lifetime) / (numpy.exp(numpy.sqrt(Y ** 2 + ma ** 2) / (q.aT / M)) + q.eta)
    else:
        want = numpy.zeros(N)
    ck.close(q._distribution, want, label, 1e-9, 1e-200)


def sequences(ck, arg):
    spec, log, depth, start = arg
    from common import UNITS
    spec_ = SPECIES[spec]
    # temperatures: decouples in a step, or long ago
    T, h = 2., (.05 if log else .03)
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''), quiet():
        for when in ((0, 1) if spec_.get('thermal_dyn', True) else (0,)):
            T_dec = 1.99 if when == 1 else 2.3
            for word in itertools.chain.from_iterable(itertools.product(range(len(LETTERS)), repeat=d) for d in range(depth)):
                word = (start,) + word
                if ck.broken:
                    return
                with ck.case('sequence', sorted(spec_.items()), 'log' if log else 'linear', 'decouples' if when else 'decoupled', word):
                    q = make(spec_, T, T_dec, h, log)
                    p = q.params
                    ck.require(bool(q.in_equilibrium) == bool(when), 'equilibrium at the start')
                    aT0 = q.aT
                    t_dec = None
                    if when:
                        # a step in equilibrium, then it decouples
                        q.update()
                        ck.require(not numpy.any(q.integrate_collisions()), 'no collision term in equilibrium')
                        q.update_distribution()
                        move(p, 0, h, log)
                        q.update()
                        t_dec = p.t
                    else:
                        q.update()
                        t_dec = p.t
                        # the first step only finds out when it began
                        q.collision_integral = q.integrate_collisions()
                        q.update_distribution()
                        move(p, 0, h, log)
                        q.update()
                    for n, l in enumerate(word):
                        rows = len(q.data['distribution']), len(q.data['collision_integral'])
                        step(ck, q, LETTERS[l], t_dec)
                        population(ck, q, t_dec, 'after a step only what is left of the thermal population remains')
                        ck.require((len(q.data['distribution']), len(q.data['collision_integral'])) == (rows[0] + 1, rows[1] + 1), 'each step is recorded once')
                        ck.close(q.data['collision_integral'][-1], q.collision_integral, 'recorded collision term', 0)
                        ck.close(q.data['distribution'][-1], q._distribution, 'recorded distribution', 0)
                        move(p, n + 1, h, log)
                        q.update()
                    ck.outcome((spec, round(float(q.num_creation), 30) == 0))
                ck.state(('sequence', spec, log, when, word))
                ck.trace()


# ---- real reactions ------------------------------------------------------------------------------------------------------

class Given(object):
    """ reactions that take part in every step """
    integrals = ()

    def __init__(self, make):
        self.make = make

    def initialize(self):
        self.make()


def chain(ck, arg):
    """ mother -> short-lived + light, short-lived -> two light: numbers through the step of a Universe """
    mass, br, thermal, own, order = arg
    from scipy.integrate import simps
    with environ(LOGARITHMIC_TIMESTEP='1', MAX_MOMENTUM_MEV='100'), quiet():
        with ck.case('chain', *arg):
            from evolution import Universe
            w = p14.World(T=1., aT=1.)
            kw = dict(thermalization=True) if thermal else {}
            m = w.species(mass, samples=81, top=12., symbol='M', name='mother', fermion=True)
            p_ = w.species(mass * .6, samples=401, top=mass, symbol='P', name='short', dof=1 if own else 2, majorana=own, fermion=False, fast_decay=True, lifetime=1e-6 / w.MeV, BR={'lk': br},
                           thermal_dyn=False, **kw)
            x = w.species(0., samples=401, top=mass, symbol='x', name='x', fermion=True)
            l = w.species(0., samples=401, top=mass, symbol='l', name='l', fermion=True)
            k = w.species(0., samples=401, top=mass, symbol='k', name='k', fermion=True, majorana=False, dof=2)
            for q in (x, l, k):
                q._distribution = numpy.zeros(401)
            m._distribution = .4 * numpy.exp(-m.grid.TEMPLATE ** 2 / w.MeV ** 2 / 9.)
            p_._distribution = numpy.zeros(401)
            sides = p14.SIDES3
            D, C = p14.DECAY, p14.CREATION
            u = Universe(params=w.params)
            members = [m, p_, x, l, k]
            for q in members:
                q.data['params'].append({'a': 1., 't': 1., 'T': 1., 'density': 1., 'energy_density': 1.})
            u.particles = [members[i] for i in order]
            from common import utils
            u.particles = utils.particle_orderer(u.particles)

            def reactions():
                return [(m, w.integral([m, p_, x], sides['decay'], D)), (p_, w.integral([p_, x, m], sides['creation'], C)), (x, w.integral([x, p_, m], sides['creation'], C)),
                        (p_, w.integral([p_, l, k], sides['decay'], D)), (l, w.integral([l, k, p_], sides['creation'], C)), (k, w.integral([k, l, p_], sides['creation'], C))]
            u.interactions.append(Given(reactions))

            def number(q, f):
                g = q.dof if q.majorana else q.dof / 2.
                return g * simps(f * q.grid.TEMPLATE ** 2, q.grid.TEMPLATE) / w.MeV ** 3
            for n in range(2):
                u.init_interactions()
                u.calculate_collisions()
                made = number(x, x.collision_integral)
                ck.require(made > 0, 'mothers decay')
                ck.close(p_.num_creation / w.MeV ** 3, made, 'as many short-lived daughters as other products', 2e-2)
                for q in (l, k):
                    ck.close(number(q, q.collision_integral), br * p_.num_creation / w.MeV ** 3, 'their products follow in the same step', 1e-6, 0, q.name)
                if n:
                    # the first step still has nothing that could decay
                    ck.close(number(p_, p_.collision_integral), (1 - br) * made, 'short-lived daughters do not pile up', 1e-2, 2e-2 * made)
                for q in members:
                    q.collision_integrals = []
        ck.state(('chain', arg))
        ck.trace()


def shard(ck, arg):
    {'sequences': sequences, 'chain': chain}[arg[0]](ck, arg[1])


def explore(ck, tier):
    depth = 4 if ck.thorough else 3
    masses = (8., 12., 20.) if not ck.thorough else (8., 10., 12., 16., 20.)
    jobs = [('chain', (m, br, th, own, order)) for m in masses for br in (1., .6, .01) for th in (False, True) for own in (False, True) for order in ((0, 1, 2, 3, 4), (4, 3, 2, 1, 0))]
    jobs += [('sequences', (s, log, depth, l)) for s in range(len(SPECIES)) for log in (True, False) for l in range(len(LETTERS))]
    ck.shards(shard, jobs)
