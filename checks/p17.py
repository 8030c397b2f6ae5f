"""P17: the evolution loop. Universes of a small alphabet of species, couplings, settings and plans are run through the real loop next to a
straight-line reference that moves twins of the species; all interleavings of the steps of two Universes against their solo runs."""
import itertools
import math
import os

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P17'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the species themselves are decided by P07, P08 and P15: twins of them are used by the reference', 'the step size is not changed during a run',
               'a total energy density is positive', 'conservation of energy and entropy is checked to the order of the step']
BOUNDS = {'quick': '37 sets of up to 6 species x couplings x linear/logarithmic x Adams-Bashforth/Euler x 2 steps x 9 plans of up to 3 segments; all interleavings of 3+3 steps of 10 pairs of Universes; '
                   '12 long runs through annihilation',
          'thorough': 'as quick with 60 sets of species, longer plans, all interleavings of 4+4 steps of 21 pairs'}

N = 7
TOP = 20.

# name -> (mass, statistics, dof, decoupling temperature, thermal, charge)
KINDS = {
    'photon': (0., 'BOSON', 2, 0., True, 0),
    'electron': (.511, 'FERMION', 4, 0., True, -1),
    'heavy': (30., 'BOSON', 3, 0., True, 1),
    'middle': (4., 'FERMION', 2, 0., True, 0),
    'neutrino': (0., 'FERMION', 2, 5., True, 0),
    'late': (0., 'FERMION', 4, 1.8, True, 0),
    'relic': (3., 'BOSON', 1, 1.9, True, 0),
    'sterile': (6., 'FERMION', 2, 4., False, 0),
    'twin': (0., 'FERMION', 2, 1.8, True, 0),
}


class Coupling(object):
    """ relaxation of one species towards another: what one loses the other gains """

    def __init__(self, particle, other, strength):
        from interactions.four_particle.cpp.integral import CollisionIntegralKind
        self.kind = CollisionIntegralKind.F_1
        self.particle, self.other, self.strength = particle, other, strength
        self.reaction = ()

    def integrate(self, ps, stepsize=None):
        mine = numpy.array(self.particle._distribution)
        if self.other is None:
            there = 1. / (numpy.exp(numpy.sqrt(ps ** 2 + (self.particle.mass * self.particle.params.a) ** 2) / self.particle.params.aT) + self.particle.eta + 1e-9)
        else:
            there = numpy.array(self.other._distribution)
        # per unit of the step variable
        rate = self.strength if os.environ.get('LOGARITHMIC_TIMESTEP') else self.strength / self.particle.params.x
        return rate * (there - mine)


class Couplings(object):
    """ what the Universe sees as an interaction """

    def __init__(self, particles, couplings):
        self.integrals = []
        self.list = [Coupling(particles[i], None if j is None else particles[j], s) for i, j, s in couplings]

    def initialize(self):
        for c in self.list:
            if not c.particle.in_equilibrium and (c.other is None or not c.other.in_equilibrium):
                c.particle.collision_integrals.append(c)


def species(names, samples=N, top=TOP):
    from common import LinearSpacedGrid, UNITS
    from particles import Particle, STATISTICS
    M = UNITS.MeV
    out = {}
    for n in names:
        mass, stat, dof, dec, thermal, Q = KINDS[n]
        out[n] = Particle(name=n, symbol=n[:2], mass=mass * M, statistics=getattr(STATISTICS, stat), dof=dof, decoupling_temperature=dec * M, thermal_dyn=thermal, Q=Q,
                          majorana=False, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=top * M))
    return out


def parameters(T, h, log):
    from common import Params, UNITS
    return Params(T=T * UNITS.MeV, dy=h) if log else Params(T=T * UNITS.MeV, dx=h * UNITS.MeV)


BASHFORTH = {1: [1.]}


def bashforth(k):
    """ weights of the derivatives at -(k-1), ..., -1, 0 in the integral from 0 to 1 """
    if k not in BASHFORTH:
        from fractions import Fraction
        nodes = [Fraction(i - k + 1) for i in range(k)]
        out = []
        for i, x in enumerate(nodes):
            poly, den = [Fraction(1)], Fraction(1)
            for j, z in enumerate(nodes):
                if j != i:
                    poly = [a - z * b for a, b in zip([Fraction(0)] + poly, poly + [Fraction(0)])]
                    den *= x - z
            out.append(float(sum(c / (n + 1) for n, c in enumerate(poly)) / den))
        BASHFORTH[k] = out
    return BASHFORTH[k]


class Reference(object):
    """ the loop written out """

    COLUMNS = ('aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S')

    def __init__(self, names, couplings, T, h, log, ab):
        self.log, self.ab, self.step_size = log, ab, h
        self.params = parameters(T, h, log)
        members = species(names)
        for q in members.values():
            q.set_params(self.params)
        self.members = list(members.values())
        self.couplings = Couplings(members, couplings)
        self.fractions = []
        self.fraction = 0.
        self.rows = []
        self.started = False
        self.rho = self.S = None
        self.Neff = 0.

    def total(self):
        self.rho = sum(q.energy_density for q in self.members)
        self.S = sum(q.entropy for q in self.members)

    def expand(self):
        from common import CONST
        p = self.params
        self.total()
        H = math.sqrt(8 * math.pi / 3 * self.rho) / CONST.M_p
        photons = math.pi ** 2 / 15 * p.T ** 4
        self.Neff = (self.rho - photons) / (7. / 8 * photons / 1.401 ** 4)
        old = p.a
        p.a = p.x / p.m
        p.T = p.aT / p.a
        p.t += (1 - old / p.a) / H
        p.H = H
        p.rho = self.rho
        if self.log:
            p.dx = p.x * self.step_size

    def row(self):
        p = self.params
        self.rows.append((p.aT, p.T, p.a, p.x, p.t, self.rho, self.Neff, self.fraction, self.S))

    def evolve(self, T_final, init_time, seen=None):
        from common import CONST
        p = self.params
        if init_time:
            self.total()
            p.t = math.sqrt(3 / (32 * math.pi * CONST.G * self.rho))
        if not self.started:
            self.started = True
            self.expand()
        self.row()
        steps = 0
        while p.T > T_final:
            if seen is not None:
                seen.append((p.x, p.aT, p.t))
            self.step()
            self.row()
            steps += 1
        return steps

    def step(self):
        p = self.params
        for q in self.members:
            q.update()
        self.couplings.initialize()
        terms = {}
        for q in self.members:
            if q.collision_integrals:
                terms[q.name] = q.integrate_collisions()
        for q in self.members:
            if q.name in terms:
                q.collision_integral = terms[q.name]
            q.update_distribution()
        f = sum(q.numerator() for q in self.members) / sum(q.denominator() for q in self.members)
        if self.log:
            f *= p.x
        self.fraction = f
        self.fractions.append(f)
        h = self.step_size if self.log else p.dx
        if self.ab:
            last = self.fractions[-5:]
            p.aT += h * sum(w * g for w, g in zip(bashforth(len(last)), last))
        else:
            p.aT += h * f
        p.x += p.x * self.step_size if self.log else p.dx
        self.expand()


def build(names, couplings, T, h, log, order=None, **grid):
    from evolution import Universe
    u = Universe(params=parameters(T, h, log))
    members = species(names, **grid)
    listed = [members[n] for n in (order or names)]
    half = len(listed) // 2
    u.add_particles(listed[:half])
    u.add_particles(listed[half:])
    u.interactions.append(Couplings(members, couplings))
    return u, members


def table(u):
    return [[float(u.data[c][i]) for c in Reference.COLUMNS] for i in range(len(u.data))]


def compare(ck, got, want, label):
    ck.require(len(got) == len(want), label + ': one row per state', len(got), len(want))
    for n, (g, w) in enumerate(zip(got, want)):
        for c, x, y in zip(Reference.COLUMNS, g, w):
            ck.close(x, y, label + ': ' + c, 1e-9, 1e-18 if c == 'fraction' else 0., n)


EXTRAS = ['electron', 'heavy', 'middle', 'neutrino', 'late', 'relic', 'sterile']


def sets(thorough):
    out = [('photon',)] + [('photon', x) for x in EXTRAS] + [('photon',) + c for c in itertools.combinations(EXTRAS, 2)]
    out += [('photon',) + c for c in itertools.combinations(EXTRAS, 3)][::1 if thorough else 7]
    out.append(('photon', 'electron', 'neutrino', 'late', 'sterile'))
    out.append(('photon', 'neutrino', 'late', 'twin', 'electron'))
    out.append(('photon', 'neutrino', 'late', 'relic', 'sterile', 'twin'))
    return out


def couplings(names):
    """ none; everything that can be out of equilibrium relaxes to its neighbour; and to the plasma """
    loose = [n for n in names if n in ('neutrino', 'late', 'relic', 'sterile', 'twin')]
    out = [()]
    if len(loose) > 1:
        pairs = list(zip(loose, loose[1:] + loose[:1]))
        out.append(tuple((a, b, .5) for a, b in pairs) + tuple((b, a, .5) for a, b in pairs))
    if loose:
        out.append(tuple((a, None, .02) for a in loose))
    return out


# final temperatures of the segments (in units of the initial temperature) and whether time is initialised
PLANS = [
    [(.75, True)], [(1., True)], [(2., True)], [(.999, True)], [(.8, False)], [(.86, True), (.7, False)], [(.8, True), (.8, False)], [(.9, True), (.8, False), (.7, False)],
    [(.85, True), (.75, True)],
]
SHORT = [(.999999, True)]


def runs(ck, arg):
    names, thorough = arg
    from common import UNITS
    for couple, log, ab, plan in itertools.product(couplings(names), (True, False), (True, False), range(len(PLANS) + (1 if thorough else 0))):
        T = 2.
        plan = (PLANS + [[(.3, True)]])[plan]
        for h, order in (((.04 if log else .02), None), ((.15 if log else .09), tuple(reversed(names)))):
            if not thorough and order and len(names) > 3 and (log + ab) % 2:
                continue
            if ck.broken:
                return
            with environ(LOGARITHMIC_TIMESTEP='1' if log else '', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1' if ab else ''), quiet():
                with ck.case('run', names, couple, 'log' if log else 'linear', 'AB' if ab else 'Euler', plan, h):
                    ref = Reference(names, couple, T, h, log, ab)
                    u, members = build(names, couple, T, h, log, order)
                    seen, expected = [], []
                    u.step_monitor = lambda v: seen.append((v.params.x, v.params.aT, v.params.t)) or ck.require(v.step == len(seen), 'the monitor sees every step once', v.step)
                    for final, init in plan:
                        ref.evolve(final * T * UNITS.MeV, init, expected)
                        data = u.evolve(final * T * UNITS.MeV, init_time=init)
                        ck.require(len(data) == len(u.data), 'the history is returned')
                    compare(ck, table(u), ref.rows, 'history')
                    ck.close(numpy.array(seen).ravel(), numpy.array(expected).ravel(), 'the monitor sees the state at the beginning of each step', 1e-9)
                    for q in ref.members:
                        r = members[q.name]
                        ck.require(bool(r.in_equilibrium) == bool(q.in_equilibrium), 'species in equilibrium', q.name)
                        if not q.in_equilibrium:
                            ck.close(r._distribution, q._distribution, 'distribution', 1e-8, 1e-30, q.name)
                            ck.require(len(r.data['distribution']) == len(q.data['distribution']), 'history of the distribution', q.name)
                        ck.close(r.data['params']['density'][-1], q.data['params']['density'][-1], 'density', 1e-8, 0, q.name)
                    last = plan[-1][0] * T * UNITS.MeV
                    if u.params.T > last:
                        ck.require(False, 'stops at the final temperature', u.params.T / UNITS.MeV)
                    if len(plan) == 1 and len(u.data) > 1:
                        ck.require(u.data['T'][-2] > last, 'no step is made beyond the final temperature', u.data['T'][-2] / UNITS.MeV)
                    if len(plan) > 1 and not any(i for _, i in plan[1:]):
                        once, _ = build(names, couple, T, h, log, order)
                        once.evolve(last, init_time=plan[0][1])
                        pieces = table(u)
                        for k in range(len(pieces) - 1, 0, -1):
                            if pieces[k] == pieces[k - 1]:
                                del pieces[k]
                        compare(ck, pieces, table(once), 'a run in pieces is the run in one go')
                    ck.outcome((names, len(u.data)))
                ck.state(('run', names, couple, log, ab, plan, h))
                ck.trace()


def broken_runs(ck, _):
    """ a temperature that is no temperature is not an answer """
    from common import UNITS
    for names, kick, log in itertools.product((('photon', 'sterile'), ('photon', 'electron', 'sterile')), (1e3, 1e5, float('inf'), float('nan')), (True, False)):
        with environ(LOGARITHMIC_TIMESTEP='1' if log else ''), quiet():
            with ck.case('broken', names, kick, log):
                u, members = build(names, (), 2., .1, log)

                class Kick(object):
                    integrals = ()
                    alternating = (-1.) ** numpy.arange(len(members['sterile'].grid.TEMPLATE))

                    def initialize(self):
                        q = members['sterile']
                        c = Coupling(q, None, 0.)
                        c.integrate = lambda ps, stepsize=None: numpy.full(len(ps), kick if numpy.isfinite(kick) else 1e300) * (1. if kick == kick else self.alternating)
                        q.collision_integrals.append(c)
                u.interactions.append(Kick())
                if kick != kick:
                    # the energies of both signs overflow, their sum is undefined
                    members['sterile'].dof = 1e20
                status = None
                try:
                    u.evolve(.5 * UNITS.MeV)
                except SystemExit as e:
                    status = e.code
                ck.require(status not in (None, 0), 'a run that lost its temperature is not reported as finished', status, u.params.T)
            ck.state(('broken', names, kick, log))
            ck.trace()


def long_runs(ck, arg):
    names, log, h = arg
    T_final = 1. if 'heavy' in names else .012
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1' if log else '', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1'), quiet():
        with ck.case('long', names, log, h):
            u, members = build(names, (), 8., h, log, samples=201, top=30.)
            u.evolve(T_final * UNITS.MeV)
            t = {c: numpy.array([float(x) for x in u.data[c]]) for c in Reference.COLUMNS}
            # densities of a row belong to the species at the beginning of its step
            S = t['S'][1:] * t['a'][:-1] ** 3
            ck.close(S[1:], S[1] + 0 * S[1:], 'comoving entropy is conserved', h if log else .002)
            dof = {'photon': 2., 'electron': 3.5, 'middle': 1.75}
            hot = sum(dof.get(n, 0.) for n in names)
            if 'heavy' not in names:      # which is not relativistic at the beginning
                ck.close(t['aT'][-1] / t['aT'][0], (hot / 2.) ** (1 / 3.), 'temperature after annihilation', 2 * h if log else .004)
            ck.require(numpy.all(numpy.diff(t['t']) > 0) and numpy.all(numpy.diff(t['T']) < 0) and numpy.all(numpy.diff(t['aT']) > -1e-6 * t['aT'][:-1]), 'time runs, the plasma cools and is heated by annihilation')
        ck.state(('long', names, log, h))
        ck.trace()


def conservation(ck, arg):
    """ energy given to species out of equilibrium is taken from the plasma: the violation of dE + P dV = 0 vanishes with the step """
    names, couple, log = arg
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1' if log else '', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1', ADAMS_MOULTON_DISTRIBUTION_CORRECTION=None), quiet():
        with ck.case('energy', names, couple, log):
            errors = []
            for h in (.04, .02, .01):
                u, members = build(names, couple, 2., h if log else h / 2, log)
                for q in u.particles:
                    if q.name in ('neutrino', 'sterile'):         # far from equilibrium
                        q._distribution = q._distribution * (.3 if q.name == 'neutrino' else 1.)
                lists = {'E': [], 'P': [], 'a': []}

                def look(v):
                    lists['E'].append(sum(q.energy_density for q in v.particles))
                    lists['P'].append(sum(q.pressure for q in v.particles))
                    lists['a'].append(v.params.a)
                u.step_monitor = look
                u.evolve(1. * UNITS.MeV)
                E, P, a = (numpy.array(lists[k]) for k in 'EPa')
                dE = numpy.diff(E * a ** 3)
                dV = numpy.diff(a ** 3)
                work = .5 * (P[1:] + P[:-1]) * dV
                errors.append(abs(numpy.sum((dE + work)[2:])) / (E[0] * a[0] ** 3))
            ck.require(errors[2] < .6 * errors[1] + 1e-5 and errors[1] < .6 * errors[0] + 1e-5 and errors[2] < .02, 'energy is conserved between plasma and decoupled species', errors)
        ck.state(('energy', names, couple, log))
        ck.trace()


def interleave(n, m):
    for places in itertools.combinations(range(n + m), n):
        yield ''.join('A' if i in places else 'B' for i in range(n + m))


SCENES = [
    (('photon', 'electron'), (), 1.), (('photon', 'neutrino', 'late'), (('neutrino', 'late', .5), ('late', 'neutrino', .5)), 2.), (('photon', 'sterile', 'relic'), (('sterile', None, .02),), 2.),
    (('photon', 'electron', 'twin'), (('twin', None, .1),), 1.9), (('photon', 'heavy', 'late'), (), 5.), ('decay', None, 2.), ('scatter', None, 1.3),
]


def scene(which, log):
    """ a Universe that only waits for its steps """
    from common import UNITS
    names, couple, T = SCENES[which]
    if isinstance(names, str):
        u = real(names, T, log)
    else:
        u, _ = build(names, couple, T, .05, log)
    u.evolve(1e9 * UNITS.MeV)
    return u


def real(what, T, log):
    """ reactions as the library makes them, on momenta beyond where they are usually evaluated """
    from common import LinearSpacedGrid, UNITS
    from evolution import Universe
    from interactions import Interaction, IntegralItem
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.four_particle.cpp.integral import CollisionIntegralKind
    from particles import Particle, STATISTICS
    M = UNITS.MeV
    u = Universe(params=parameters(T, .05, log))
    photon = Particle(name='Photon', symbol='g', mass=0., dof=2, statistics=STATISTICS.BOSON, Q=0, majorana=False)
    if what == 'decay':
        heavy = dict(name='Sterile neutrino (Dirac)', symbol='N', mass=600. * M, decoupling_temperature=1e4 * M)
        sides = (-1, 1, 1, 1)
    else:
        heavy = dict(name='neutrino 0', symbol='a', mass=0., decoupling_temperature=1e4 * M)
        sides = (-1, -1, 1, 1)
    nus = []
    for i in range(4):
        kw = dict(name='neutrino %d' % i, symbol='abcd'[i], mass=0., decoupling_temperature=1e4 * M)
        if i == 0:
            kw.update(heavy)
        q = Particle(statistics=STATISTICS.FERMION, dof=2, majorana=False, Q=0, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=8, MAX_MOMENTUM=300. * M), **kw)
        nus.append(q)
    u.add_particles([photon] + nus)
    for q in nus:
        q._distribution = 1e-2 * (1 + .1 * nus.index(q)) * numpy.exp(-q.grid.TEMPLATE / (60. * M))
    reaction = tuple(IntegralItem(side=s, specie=q, antiparticle=False, index=i, crossed=False) for i, (s, q) in enumerate(zip(sides, nus)))
    u.interactions.append(Interaction(name='x', integrals=[FourParticleIntegral(particle=nus[0], reaction=reaction, Ms=(FourParticleM(K1=1e-22, order=(0, 1, 2, 3)),),
                                                                               kind=CollisionIntegralKind.F_1)]))
    return u


def advance(u):
    from common import UNITS
    u.evolve(u.params.T * (1 - 1e-12), init_time=False, export=False)


def picture(u):
    out = [table(u)]
    for q in sorted(u.particles, key=lambda q: q.name):
        out.append([q.name, numpy.array(q.data['collision_integral'].data).tolist(), numpy.array(q._distribution).tolist(), float(q.density)])
    return out


def together(ck, arg):
    i, j, log, n = arg
    with environ(LOGARITHMIC_TIMESTEP='1' if log else '', MAX_MOMENTUM_MEV='100'), quiet():
        solo = {}
        for name, which in (('A', i), ('B', j)):
            with environ(HNL_ENERGY=None, Relativistic_decoupling=None, STERILE_DECAYED=None):
                with ck.case('alone', SCENES[which][0], log):
                    u = scene(which, log)
                    for _ in range(n):
                        advance(u)
                    solo[name] = picture(u)
        if len(solo) < 2:
            return
        for word in interleave(n, n):
            with ck.case('together', SCENES[i][0], SCENES[j][0], log, word):
                with environ(HNL_ENERGY=None, Relativistic_decoupling=None, STERILE_DECAYED=None):
                    # the second is made in the middle of the first when the first goes first
                    us = {}
                    for c in word:
                        if c not in us:
                            us[c] = scene(i if c == 'A' else j, log)
                        advance(us[c])
                    ck.schedules += 1
                    for c in 'AB':
                        ck.require(repr(picture(us[c])) == repr(solo[c]), 'Universes in one process do not influence each other', c, word)
            ck.state(('together', i, j, log, word))
            ck.trace()
            if ck.broken:
                return


def shard(ck, arg):
    {'runs': runs, 'broken': broken_runs, 'long': long_runs, 'energy': conservation, 'together': together}[arg[0]](ck, arg[1])


def explore(ck, tier):
    jobs = [('long', (names, log, h)) for names in (('photon', 'electron'), ('photon', 'electron', 'neutrino'), ('photon', 'electron', 'middle'), ('photon', 'heavy'))
            for log, h in ((True, .02), (True, .01), (False, .004 if 'heavy' in names else .05))]
    pairs = itertools.combinations_with_replacement(range(len(SCENES)), 2)
    for i, j in pairs:
        if ck.thorough or (i + j) % 3 == 1 or (i, j) in ((5, 6), (5, 5)):
            jobs.append(('together', (i, j, bool((i + j) % 2), 4 if ck.thorough else 3)))
    jobs += [('energy', (names, c, log)) for names in (('photon', 'neutrino'), ('photon', 'electron', 'neutrino', 'sterile')) for c in (tuple((n, None, .7) for n in names if n in ('neutrino', 'sterile')),) for log in (True, False)]
    jobs.append(('broken', None))
    jobs += [('runs', (names, ck.thorough)) for names in sets(ck.thorough)]
    ck.shards(shard, jobs)
