"""P16: neutrino oscillations. The mixing map over an alphabet of matter strengths against averaged three-flavour mixing built from
the mixing matrix; the map a Universe uses at every state; and all histories of collision terms of oscillating species."""
import itertools
import math

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P16'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the oscillating species share one momentum grid and have different flavours', 'mixing angles in matter are taken modulo the quadrant of twice the angle',
               'collision terms are given (they are decided by P12 to P15)']
BOUNDS = {'quick': 'mixing map: all pairs of 41 matter strengths, with and without matter, scalar and per momentum; Universe: 8 temperatures x 6 scale factors x 3 grids x 2 hierarchies x matter on/off; '
                   'mixing: all histories of 3 steps over 5 assignments of collision terms x 7 patterns of decoupling x 6 orders x matter on/off x hierarchy x bystanders',
          'thorough': 'as quick with 121 matter strengths, all histories of 4 steps over 6 assignments'}

FLAVOURS = ('electron', 'muon', 'tau')
T12, T13 = 0.57636, 0.14715
N = 6


def averaged(t12, t13):
    """ time-averaged transition probabilities of three flavours with mixing angles 12 and 13 only: sum over mass states of |U_a|^2 |U_b|^2 """
    c12, s12, c13, s13 = numpy.cos(t12), numpy.sin(t12), numpy.cos(t13), numpy.sin(t13)
    o = 0. * (c12 + c13)
    U = {'electron': (c12 * c13, s12 * c13, s13 + o), 'muon': (-s12 + o, c12 + o, o), 'tau': (-c12 * s13, -s12 * s13, c13 + o)}
    return {(a, b): sum(x * x * y * y for x, y in zip(U[a], U[b])) for a in FLAVOURS for b in FLAVOURS}


def dressed(t, msw):
    """ the mixing angle in matter, for both choices of the quadrant of 2 theta """
    main = .5 * numpy.arctan2(numpy.sin(2 * t), numpy.cos(2 * t) + msw)
    return main, main - .5 * math.pi * (numpy.cos(2 * t) + msw < 0)


def compare(ck, got, msw12, msw13, matter, label):
    """ got must be averaged mixing with the angles dressed by these matter strengths """
    keys = [(a, b) for a in FLAVOURS for b in FLAVOURS]
    for k in keys:
        ck.require(k in got, label + ': every pair of flavours is covered', k)
    got = {k: numpy.asarray(got[k], dtype=float) for k in keys}
    if matter:
        choices = [averaged(a, b) for a in dressed(T12, msw12) for b in dressed(T13, msw13)]
    else:
        choices = [averaged(T12, T13)]
    for k in keys:
        near = numpy.min([numpy.abs(got[k] - c[k]) for c in choices], axis=0)
        ck.require(numpy.all(near < 1e-12), label + ': averaged three-flavour mixing with the angles in matter', k, got[k], choices[0][k])
        ck.require(numpy.all(got[k] >= 0) and numpy.all(got[k] <= 1), label + ': a probability', k, got[k])
        ck.close(got[k], got[k[::-1]], label + ': the same both ways', 1e-14)
    for a in FLAVOURS:
        ck.close(sum(got[(a, b)] for b in FLAVOURS), 1. + 0. * got[(a, a)], label + ': every neutrino ends up as some neutrino', 1e-12)


def strengths(thorough):
    n = 50 if thorough else 15
    mags = [10. ** (-8 + 16. * k / n) for k in range(n + 1)]
    special = [math.cos(2 * T12), math.cos(2 * T13), 1.]
    out = [0.] + mags + special + [-math.cos(2 * T12) * (1 + 1e-6), -math.cos(2 * T13) * (1 - 1e-6)] + [-m for m in (mags if thorough else mags[::3])]
    for s in special:
        out += [s * (1 + 1e-3), -s * (1 + 1e-3), -s * (1 - 1e-3)]
    return out


def maps(ck, arg):
    first, thorough = arg
    from library.SM import particles as SMP
    f = SMP.leptons.oscillations_map
    values = strengths(thorough)
    for m12 in values[first::4]:
        for m13 in values:
            with ck.case('map', m12, m13):
                compare(ck, f(m12, m13), m12, m13, True, 'in matter')
                compare(ck, f(MSW_12=m12, MSW_13=m13, matter_effects=False), m12, m13, False, 'in vacuum')
            ck.state(('map', m12, m13))
            ck.trace()
        with ck.case('map per momentum', m12):
            v = numpy.array(values)
            compare(ck, f(numpy.full(len(v), m12), v, True), m12 + 0. * v, v, True, 'per momentum')
            compare(ck, f(v, m12 + 0. * v, True), v, m12 + 0. * v, True, 'per momentum')
    with ck.case('default'):
        compare(ck, f(), 0., 0., True, 'default')


def build(order, temps, grid, T=2., a=None, charges=(), seed=0):
    """ a Universe of photons and neutrinos whose collision terms are scripted; returns (universe, {flavour: species}, bystander) """
    from common import Params, UNITS
    from evolution import Universe
    from particles import Particle, STATISTICS

    class Scripted(Particle):
        script = None

        def integrate_collisions(self):
            return self.script.copy()

    class Feed(object):
        integrals = []
        who = ()

        def initialize(self):
            for q in self.who:
                if not q.in_equilibrium:
                    q.collision_integrals.append(object())

    MeV = UNITS.MeV
    u = Universe(params=Params(T=T * MeV, dy=.03))
    if a:
        u.params.a = a
    common = dict(statistics=STATISTICS.FERMION, dof=2, majorana=False, Q=0, grid=grid)
    nus = {f: Scripted(name=f + ' neutrino', symbol='n' + f[0], mass=0., flavour=f, decoupling_temperature=temps[i] * MeV, **common)
           for i, f in enumerate(FLAVOURS)}
    other = Scripted(name='another neutrino', symbol='N', mass=1. * MeV, flavour=None, decoupling_temperature=100. * MeV, **common)
    photon = Particle(name='Photon', symbol='g', mass=0., dof=2, statistics=STATISTICS.BOSON, Q=0, majorana=False)
    u.add_particles([photon] + [nus[f] for f in order] + [other])
    feed = Feed()
    feed.who = list(nus.values()) + [other]
    u.interactions.append(feed)
    return u, nus, other


def expected_strength(T, a, y, dm2):
    """ 2 E |V| / dm^2 of the thermal neutrino potential """
    from common import UNITS
    G_F = 1.166e-5 / UNITS.GeV ** 2
    return 16 * 1.2021 * math.sqrt(2) * G_F / math.pi / (80.379 * UNITS.GeV) ** 2 * (y / a) ** 2 * T ** 4 / dm2


def expected(u, y, matter, normal):
    from common import UNITS
    s = [expected_strength(u.params.T, u.params.a, y, dm * UNITS.eV ** 2) for dm in (7.37e-5, 2.56e-3)]
    if not normal:
        s[1] = -s[1]
    return s


def universe(ck, arg):
    """ the map in use is that of the present temperature and scale factor """
    g, matter, normal = arg
    from common import LinearSpacedGrid, UNITS
    from library.SM import particles as SMP
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=(6, 31, 12)[g], MAX_MOMENTUM=(20., 3., 150.)[g] * UNITS.MeV)
    with environ(NORMAL_HIERARCHY_NEUTRINOS='1' if normal else '', LOGARITHMIC_TIMESTEP='1'), quiet():
        for order in (FLAVOURS, FLAVOURS[::-1]):
            with ck.case('universe', g, matter, normal, order):
                u, nus, _ = build(order, (1., 1., 1.), grid)
                u.init_oscillations(SMP.leptons.oscillations_map, tuple(nus[f] for f in order), matter_effects=matter)
                y = grid.TEMPLATE
                for T, a in itertools.product((.01, .5, 1., 2., 3.3, 10., 40., 150.), (1e-3, .1, .4, 1., 3., 100.)):
                    u.params.T, u.params.a = T * UNITS.MeV, a
                    u.oscillation_parameters()
                    pattern, particles = u.oscillations
                    ck.require([p.flavour for p in particles] == list(order), 'the oscillating species')
                    s = expected(u, y, matter, normal)
                    compare(ck, pattern, s[0], s[1], matter, 'universe')
                    ck.state(('universe', g, matter, normal, order, T, a))
                ck.trace()
        with ck.case('default', g):
            if matter:
                u, nus, _ = build(FLAVOURS, (1., 1., 1.), grid)
                u.init_oscillations(SMP.leptons.oscillations_map, tuple(nus[f] for f in FLAVOURS))
                s = expected(u, grid.TEMPLATE, True, normal)
                compare(ck, u.oscillations[0], s[0], s[1], True, 'matter effects are the default')


Y = numpy.linspace(0, 1, N)
ROWS = [c * 1e-5 for c in (0. * Y, .3 + 0. * Y, 1e-3 * (1 - 2 * Y), -.2 * Y, numpy.where(Y > .5, .4, 0.))]
# collision terms of the electron, muon and tau neutrino
LETTERS = [(1, 1, 1), (1, 0, 0), (0, 2, 3), (2, 3, 1), (4, 0, 2), (0, 0, 4)]
# decoupling temperatures: all, some or none below the temperature of 2 MeV and what follows
DECOUPLING = [(5., 5., 5.), (1.95, 1.9, 1.85), (.1, .1, .1), (5., .1, .1), (.1, .1, 5.), (1.95, .1, 5.), (.1, 1.9, .1)]


def mixing(ck, arg):
    temps, order, matter, normal, depth, letters = arg
    from common import LinearSpacedGrid, UNITS
    from library.SM import particles as SMP
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=N, MAX_MOMENTUM=20 * UNITS.MeV)
    y = grid.TEMPLATE
    with environ(NORMAL_HIERARCHY_NEUTRINOS='1' if normal else '', LOGARITHMIC_TIMESTEP='1', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1'), quiet():
        for word in itertools.product(range(letters), repeat=depth):
            if ck.broken:
                return
            with ck.case('mixing', temps, order, matter, normal, word):
                u, nus, other = build(order, temps, grid)
                u.init_oscillations(SMP.leptons.oscillations_map, tuple(nus[f] for f in order[::-1]), matter_effects=matter)
                for n, letter in enumerate(word):
                    T, a, h = u.params.T, u.params.a, u.params.h
                    give = dict(zip(FLAVOURS, (ROWS[i] for i in LETTERS[letter])))
                    for f in FLAVOURS:
                        nus[f].script = give[f]
                    other.script = ROWS[2] + 1e-6
                    before = {f: (bool(T > nus[f].decoupling_temperature),
                                  # one that decouples at this very step starts from its thermal distribution
                                  1. / (numpy.exp(y / u.params.aT) + 1) if nus[f].in_equilibrium else numpy.array(nus[f]._distribution), len(nus[f].data['collision_integral'])) for f in FLAVOURS}
                    started = numpy.array(other._distribution)
                    s = expected(u, y, matter, normal)
                    u.make_step()
                    # species in equilibrium have no collision term of their own
                    own = {f: 0. * y if before[f][0] else give[f] for f in FLAVOURS}
                    mixed = any(T < nus[f].decoupling_temperature for f in FLAVOURS)
                    ps = [averaged(x, z) for x in dressed(T12, s[0])[:1] for z in dressed(T13, s[1])] if matter else [averaged(T12, T13)]
                    want = {}
                    for f in FLAVOURS:
                        options = [sum(p[(f, b)] * own[b] for b in FLAVOURS) if mixed else own[f] for p in ps]
                        seen = nus[f].data['collision_integral'][-1] if not before[f][0] else 0.
                        want[f] = numpy.where(numpy.abs(seen - options[-1]) < numpy.abs(seen - options[0]), options[-1], options[0])
                    for f in FLAVOURS:
                        q = nus[f]
                        if before[f][0]:
                            ck.require(len(q.data['collision_integral']) == before[f][2], 'a species in equilibrium is not evolved', f, n)
                            continue
                        row = q.data['collision_integral'][-1]
                        ck.require(len(q.data['collision_integral']) == before[f][2] + 1, 'one collision term per step', f, n)
                        ck.close(row, want[f], 'collision term mixed between the flavours' if mixed else 'collision term untouched before decoupling', 1e-9, 1e-18, f, n)
                        ck.close(q._distribution, numpy.maximum(before[f][1] + want[f] * h, 0.), 'distribution follows the mixed collision term', 1e-9, 1e-15, f, n)
                        ck.close(q.data['distribution'][-1], q._distribution, 'recorded distribution', 1e-12)
                    if mixed and not any(b[0] for b in before.values()):
                        total = sum(nus[f].data['collision_integral'][-1] for f in FLAVOURS)
                        ck.close(total, sum(own.values()), 'oscillations neither create nor destroy neutrinos of any momentum', 1e-9, 1e-18, n)
                    ck.close(other.data['collision_integral'][-1], ROWS[2] + 1e-6, 'a species that does not oscillate keeps its collision term', 1e-12, 0, n)
                    ck.close(other._distribution, started + (ROWS[2] + 1e-6) * h, 'a species that does not oscillate is left alone', 1e-12, 0, n)
                    ck.outcome((mixed, tuple(b[0] for b in before.values())))
            ck.state(('mixing', temps, order, matter, normal, word))
            ck.trace()
    ck.sample({'decoupling temperatures': temps, 'order': order, 'matter': matter, 'normal hierarchy': normal}, limit=3)


def shard(ck, arg):
    {'maps': maps, 'universe': universe, 'mixing': mixing}[arg[0]](ck, arg[1])


def explore(ck, tier):
    jobs = [('maps', (i, ck.thorough)) for i in range(4)]
    jobs += [('universe', (g, m, n)) for g in range(3) for m in (True, False) for n in (True, False)]
    orders = list(itertools.permutations(FLAVOURS))
    for t, temps in enumerate(DECOUPLING):
        for o, order in enumerate(orders):
            for matter, normal in ((True, True), (True, False), (False, True)):
                if not ck.thorough and (t + o + matter + normal) % 3:
                    continue
                jobs.append(('mixing', (temps, order, matter, normal, 4 if ck.thorough and o == t % 6 else 3, 6 if ck.thorough else 5)))
    ck.shards(shard, jobs)
