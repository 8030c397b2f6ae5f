"""P07: the life of a species. The species object as an automaton: every history of plasma states up to a depth, on every
kind of species, against a small reference automaton; the regime table over every ordering of T, M and the switching factor."""
import copy
import itertools
import math

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P07'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the Universe does not contract (the scale factor never decreases)', 'relative tolerance 1e-10 on continuous observables; exact on the discrete ones']
BOUNDS = {'quick': 'all plasma histories of <= 4 steps over 6 (expansion, heating) symbols on 44 kinds of species; regime table over 15 x 15 (T, M) ratios x 4 switching factors',
          'thorough': 'all histories of <= 6 steps over 8 symbols on 60 kinds of species'}

# (expansion, change of the comoving plasma temperature); powers of two keep boundary arithmetic exact
SYMBOLS = [(1., 1.), (2., 1.), (1.5, 1.), (1.1, 1.25), (2., 1.25), (1.5, .75), (4., 1.), (1., 1.25)]


def kinds(thorough):
    out = []
    for mass, T_dec, stat in itertools.product((0., 0.511, 1500., 0.0005), (0., 0.5, 0.25, 3.), ('f', 'b')):
        out.append(dict(mass=mass, T_dec=T_dec, stat=stat, thermal=True, Q=0))
    for mass, T_dec, Q in itertools.product((0.7, 100.), (0., 5., 0.5), (0, 1)):
        out.append(dict(mass=mass, T_dec=T_dec, stat='b', thermal=False, Q=Q))
    return out if thorough else out[:44]


class Reference:
    def __init__(self, kind, grid, a, aT, t, factor=1e3):
        self.k, self.grid, self.factor = kind, grid, factor
        self.T_dec = kind['T_dec'] if kind['thermal'] or kind['T_dec'] else aT / a
        self.aT, self.T = aT, aT / a
        self.t_dec = 0
        self.f = self.thermal(a) if kind['thermal'] else 0. * grid
        self.rows = 0
        self.update(a, aT, t)

    @property
    def eq(self):
        return self.k['thermal'] and self.T > self.T_dec

    def thermal(self, a):
        E = numpy.sqrt(self.grid**2 + (self.k['mass'] * a)**2) / self.aT
        with numpy.errstate(all='ignore'):
            return 1. / (numpy.exp(E) + (1 if self.k['stat'] == 'f' else -1))

    def update(self, a, aT, t):
        was = self.eq
        if was or (not self.k['thermal'] and self.k['Q'] != 0):
            self.aT = aT
        self.T = self.aT / a
        if was and not self.eq:
            self.t_dec = t
            self.f = self.thermal(a)
        self.rows += 1

    @property
    def regime(self):
        if not self.eq:
            return 'non-equilibrium'
        if self.T > self.k['mass'] * self.factor:
            return 'radiation'
        if self.T * self.factor < self.k['mass']:
            return 'dust'
        return 'intermediate'


def build(kind):
    from common import LinearSpacedGrid, Params, UNITS, statistics
    from particles import Particle
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=12 * UNITS.MeV)
    params = Params(T=UNITS.MeV, m=UNITS.MeV, dy=0.1)
    params.t = 3.
    spec = dict(name='x', symbol='x', mass=kind['mass'] * UNITS.MeV, decoupling_temperature=kind['T_dec'] * UNITS.MeV, dof=2,
                statistics=statistics.FERMION if kind['stat'] == 'f' else statistics.BOSON, thermal_dyn=kind['thermal'], Q=kind['Q'], grid=grid)
    part = Particle(**spec)
    return part, params, Reference(kind, grid.TEMPLATE / UNITS.MeV, 1., 1., 3.)


def observe(ck, part, params, ref):
    from common import UNITS
    ck.require(bool(part.in_equilibrium) == bool(ref.eq), 'in equilibrium', bool(part.in_equilibrium), ref.eq)
    ck.require(part.regime.name == ref.regime, 'regime', part.regime.name, ref.regime)
    ck.close(part.T / UNITS.MeV, ref.T, 'temperature of the species', 1e-12)
    ck.close(part.aT / UNITS.MeV, ref.aT, 'comoving temperature of the species', 1e-12)
    ck.close(part.t_decoupling, ref.t_dec, 'time of decoupling', 1e-12)
    ck.close(part.decoupling_temperature / UNITS.MeV, ref.T_dec, 'decoupling temperature', 1e-12)
    if not ref.eq:
        f = numpy.asarray(part._distribution)
        start = 1 if ref.k['stat'] == 'b' and ref.k['mass'] == 0 else 0
        ck.close(f[start:], ref.f[start:], 'distribution carried since decoupling', 1e-10)
    ck.require(len(part.collision_integral) == len(ref.grid) and not numpy.any(part.collision_integral), 'collision term is cleared')
    rows = part.data['params']
    ck.require(len(rows) == ref.rows, 'one history row per update', len(rows), ref.rows)
    last = rows[-1]
    ck.close([last['a'], last['t'], last['T'] / UNITS.MeV], [params.a, params.t, params.T / UNITS.MeV], 'recorded cosmological state', 1e-12)
    def same(x, y):
        return x == y or (math.isnan(x) and math.isnan(y))
    ck.require(same(last['density'], part.density) and same(last['energy_density'], part.energy_density), 'recorded densities')


def life(ck, arg):
    kind, depth, nsym = arg
    from common import UNITS
    with quiet():
        with ck.case('birth', kind):
            part, params, ref = build(kind)
            part.set_params(params)
            observe(ck, part, params, ref)
            ck.require(len(part.data['distribution']) == 1, 'the initial distribution is recorded')
            if not kind['thermal']:
                ck.require(not numpy.any(part._distribution), 'a species produced out of equilibrium starts empty')
        if ck.n_violations:
            return

        def fork(part, params):
            memo = {id(part.grid): part.grid, id(part.statistics): part.statistics}
            q = copy.deepcopy(params)
            p = copy.copy(part)
            p.__dict__ = dict(part.__dict__)
            p.data = copy.deepcopy(part.data)
            p._distribution = part._distribution.copy()
            p.params = q
            return p, q

        def go(history, part, params, ref):
            for symbol in SYMBOLS[:nsym]:
                if ck.broken:
                    return
                p, q = fork(part, params)
                r = copy.copy(ref)
                seq = history + (symbol,)
                before = ck.n_violations
                was = ref.eq
                with ck.case('history', kind, seq):
                    q.x *= symbol[0]
                    q.aT *= symbol[1]
                    q.a = q.x / q.m
                    q.T = q.aT / q.a
                    q.t += 1.5
                    p.update()
                    r.update(q.a, q.aT / UNITS.MeV, q.t)
                    observe(ck, p, q, r)
                    if not was:
                        ck.require(not p.in_equilibrium, 'a decoupled species never comes back to equilibrium')
                ck.state((sorted(kind.items()), seq))
                ck.outcome((r.regime, bool(r.eq), round(r.T, 12)))
                if len(seq) < depth and ck.n_violations == before:
                    go(seq, p, q, r)
                else:
                    ck.trace()
                    if ck.traces % 20000 == 1:
                        ck.sample({'species': kind, 'history': seq, 'regime': r.regime, 'T': r.T})
        go((), part, params, ref)


RATIOS = [2.**k for k in range(-12, 14, 2)] + [1e-3, 1e3]


def table(ck, factor):
    from common import LinearSpacedGrid, Params, UNITS, statistics
    from particles import Particle
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=5 * UNITS.MeV)
    with environ(REGIME_SWITCHING_FACTOR=None if factor is None else repr(factor)), quiet():
        g = factor or 1e3
        for stat, M, dec in itertools.product((statistics.FERMION, statistics.BOSON), [0.] + RATIOS, (0., 0.5, 1., 2.)):
            for tweak in (1., 1 - 1e-9, 1 + 1e-9):
                mass = M * tweak
                if tweak != 1 and M == 0:
                    continue
                with ck.case('regime', factor, str(stat), mass, dec):
                    params = Params(T=UNITS.MeV, m=UNITS.MeV, dy=0.1)
                    part = Particle(name='x', symbol='x', mass=mass * UNITS.MeV, decoupling_temperature=dec * UNITS.MeV, statistics=stat, grid=grid, params=params)
                    eq = 1. > dec
                    # exactly on a boundary in decimal arithmetic the side is decided by rounding: only powers of two are exact
                    exact = g == 2.**round(math.log(g, 2)) and tweak == 1 and M in RATIOS[:13]
                    near = mass and (abs(mass * g - 1) < 1e-12 or abs(mass / g - 1) < 1e-12)
                    if near and not exact:
                        continue
                    want = 'non-equilibrium' if not eq else 'radiation' if 1. > mass * g else 'dust' if g < mass else 'intermediate'
                    ck.require(part.regime.name == want, 'regime', part.regime.name, want)
                    ck.require(bool(part.in_equilibrium) == eq, 'in equilibrium')
                ck.state((factor, str(stat), mass, dec))
                ck.trace()


def shard(ck, arg):
    {'life': life, 'table': table}[arg[0]](ck, arg[1])


def explore(ck, tier):
    jobs = [('table', f) for f in (None, 64., 1024., 10.)]
    for kind in kinds(ck.thorough):
        jobs.append(('life', (kind, 6 if ck.thorough else 4, 8 if ck.thorough else 6)))
    ck.shards(shard, jobs)
