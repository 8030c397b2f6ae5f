"""P14: what a collision integral leaves out. The compiled integration is replaced by a recorder with a known answer; every
configuration of an alphabet is put through the real integrals and compared with the kinematic limits, the documented conditions
for skipping a reaction and the multiplicities."""
import contextlib
import itertools
import math
import os
import sys
from collections import Counter

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P14'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['evenly spaced momentum grids from zero', 'initial densities are positive',
               'the compiled integration (decided by P11 to P13) is replaced by a recorder that answers with a known function of momentum']
BOUNDS = {'quick': '4-body: creation, scattering, decay x 9 mass patterns x 6 grids x 4 momentum limits x sterile neutrino present or not x its energy range known (and since changed) or not x 3 resolutions; '
                   '3-body: 12 mass patterns x 6 grids x 4 mother grids; every combination of skip conditions; every assignment of up to 3 species to the slots of a reaction',
          'thorough': 'as quick with 12 grids, all species flags and 6 resolutions'}

FULL, F_1, F_F, FULL_VAC, F_1_VAC, F_F_VAC, CREATION, DECAY = range(8)
NAMES = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay']
STERILE = 'Sterile neutrino (Dirac)'
SIDES4 = {'creation': (-1, -1, -1, 1), 'scattering': (-1, -1, 1, 1), 'decay': (-1, 1, 1, 1)}
SIDES3 = {'creation': (-1, -1, 1), 'decay': (-1, 1, 1)}


class World(object):
    """ species in one cosmological state and reactions between them """

    def __init__(self, T=2., aT=1.3, H=3.7e-3, log=True):
        from common import Params, UNITS
        self.log = log
        self.MeV = UNITS.MeV
        self.params = p = Params(T=T * UNITS.MeV, dy=0.01, dx=0.01 * UNITS.MeV)
        p.a, p.aT, p.H, p.x, p.m = aT / T, aT * UNITS.MeV, H * UNITS.MeV, aT / T * UNITS.MeV, 1. * UNITS.MeV

    def species(self, mass, samples=21, top=20., name='A', symbol='A', dof=2, majorana=False, Q=0, fermion=True, **kw):
        """ mass in units of the conformal momentum, MeV """
        from common import LinearSpacedGrid
        from particles import Particle, STATISTICS
        q = Particle(name=name, symbol=symbol, mass=mass * self.MeV / self.params.a, dof=dof, majorana=majorana, Q=Q,
                     statistics=STATISTICS.FERMION if fermion else STATISTICS.BOSON,
                     grid=LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=top * self.MeV),
                     decoupling_temperature=1e6 * self.MeV, params=self.params, **kw)
        q._distribution = .5 * numpy.exp(-q.grid.TEMPLATE / q.grid.MAX_MOMENTUM)
        return q

    def integral(self, species, sides, kind):
        from interactions import IntegralItem
        from interactions.four_particle import FourParticleIntegral, FourParticleM
        from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
        from interactions.four_particle.cpp.integral import CollisionIntegralKind
        four = len(species) == 4
        reaction = tuple(IntegralItem(side=s, specie=q, antiparticle=False, index=i, crossed=False)
                         for i, (s, q) in enumerate(zip(sides, species)))
        M = FourParticleM(K1=1e-20, order=(0, 1, 2, 3)) if four else ThreeParticleM(K=1e-10)
        out = (FourParticleIntegral if four else ThreeParticleIntegral)(
            particle=species[0], reaction=reaction, Ms=(M,), kind=getattr(CollisionIntegralKind, NAMES[kind]))
        out.initialize()
        return out

    def normalisation(self, q, four):
        """ what multiplies the compiled integral (at non-zero momentum) """
        from common import CONST
        p = self.params
        spins = q.dof if q.majorana else q.dof / 2.
        c = 32 * CONST.G_F ** 2 * (p.aT / p.a) ** 5 / 64 / math.pi ** 3 if four else 1e-10 * p.a / p.aT / 32 / math.pi
        return c / p.H / spins / (1. if self.log else p.x)


def answer(p):
    """ what the recorder returns at (dimensionless) momentum p """
    return 2. + math.sin(3 * p)


class Recorder(object):

    def __init__(self):
        self.calls = []

    def __call__(self, ps, *rest, **kw):
        self.calls.append(numpy.array(ps, dtype=float))
        return [answer(p) for p in ps]


@contextlib.contextmanager
def compiled(four, wrap):
    """ the compiled integration over momenta is replaced by wrap(it), by whatever name the code refers to it """
    import interactions.four_particle, interactions.three_particle
    if four:
        from interactions.four_particle.cpp.integral import integration as real
    else:
        from interactions.three_particle.cpp.integral import integration_3 as real
    spy, put = wrap(real), []
    for module in list(sys.modules.values()):
        if (getattr(module, '__name__', None) or '').split('.')[0] in ('interactions', 'common', 'particles', 'evolution'):
            put += [(module, k) for k, v in list(vars(module).items()) if v is real]
    try:
        for module, k in put:
            setattr(module, k, spy)
        yield
    finally:
        for module, k in put:
            setattr(module, k, real)


def run(integral, four):
    """ (points evaluated, in units of the grid; what the integral returned) """
    spy = Recorder()
    with compiled(four, lambda _: spy):
        q = integral.particle
        out = integral.integrate(q.grid.TEMPLATE, stepsize=1.)
    for c in spy.calls[1:]:
        if not numpy.array_equal(c, spy.calls[0]):
            raise AssertionError('gain and loss evaluated at different momenta')
    return (spy.calls[0] * q.params.aT if spy.calls else numpy.zeros(0)), out


def inside(grid, lo, hi):
    """ indices from the last node at or below lo to the first at or above hi """
    first = max([i for i, p in enumerate(grid) if p <= lo] or [0])
    last = min([i for i, p in enumerate(grid) if p >= hi] or [len(grid) - 1])
    return first, last


def parts(out, kind):
    return [numpy.asarray(x, dtype=float) for x in (out if kind == FULL else (out,))]


# ---- momentum ranges -------------------------------------------------------------------------------------------------

GRIDS = [(21, 20.), (7, 3.), (40, 8.), (11, 100.), (60, 14.99), (33, 8.), (101, 25.), (5, 1.), (16, 30.), (81, 20.), (201, 49.9), (3, 4.)]
MASSES4 = [(0., 0., 0., 30.), (0., 1., 2., 12.), (3., 0., 0., 7.), (1., 1., 1., 3.5), (0., 5., 6., 14.), (4., 0., 0., 4.001), (2., .1, .1, 50.), (0., 0., 3., 0.), (0., 0., 0., 0.)]


def four_body(ck, what, g, masses, deep):
    samples, top = GRIDS[g]
    for sterile, known, limit, res, kind, log in itertools.product(
            (None, 0, 3), (None, 12.), (5, 20, 100, 1), (.24999, 1., .01) + ((.5, 3., .1) if deep else ()), (FULL, F_1), (True, False)):
        if not deep and (g + limit + kind + log + (sterile or 0)) % 2:
            continue
        with environ(MAX_MOMENTUM_MEV=str(limit), FOUR_PARTICLE_GRID_RESOLUTION=str(res), LOGARITHMIC_TIMESTEP='1' if log else '',
                     HNL_ENERGY=None, Relativistic_decoupling=None):
            cut = float(limit)
            w = World(log=log)
            MeV = w.MeV
            m = masses if what == 'creation' else masses[::-1] if what == 'decay' else masses
            with ck.case('four particles', what, GRIDS[g], m, 'sterile', sterile, 'limit', cut, 'resolution', res, NAMES[kind], log, known):
                sp = [w.species(m[i], samples if i == 0 else 25 + i, top if i == 0 else 11. + 9 * i, name=STERILE if i == sterile else 'species %d' % i,
                                symbol='abcd'[i]) for i in range(4)]
                grid = sp[0].grid.TEMPLATE
                if known is not None:
                    # an earlier integral of a sterile neutrino made its energies known
                    N = w.species(known, 31, 203., name=STERILE, symbol='N')
                    other = [w.species(0., 9, 9., name='x%d' % i, symbol='xyz'[i]) for i in range(3)]
                    now = w.params.a
                    w.params.a = now / 3        # ... already before, when its conformal mass was smaller
                    run(w.integral([N] + other, SIDES4['decay'], FULL), True)
                    w.params.a = now
                    run(w.integral([N] + other, SIDES4['decay'], FULL), True)
                    hnl = math.hypot(20.3, known)
                points, out = run(w.integral(sp, SIDES4[what], kind), True)
                m0 = sp[0].conformal_mass / MeV
                if what == 'creation':
                    E3 = math.hypot(sp[3].grid.MAX_MOMENTUM / MeV, m[3])
                    left = E3 - m[1] - m[2]
                    reach = math.sqrt(max(left ** 2 - m[0] ** 2, 0.)) if left > 0 else 0.
                    limit_ = max(reach, cut)
                elif sterile == 0:
                    limit_ = top
                elif known is not None:
                    if hnl < m0:
                        continue
                    limit_ = max(math.sqrt(hnl ** 2 - m0 ** 2), cut)
                else:
                    limit_ = cut if what == 'scattering' else top
                last = inside(grid / MeV, 0., limit_ * (1 - 1e-12))[1]
                ck.require(all(len(x) == len(grid) for x in parts(out, kind)), 'one value per momentum')
                fine = top / (samples - 1) < res
                if not fine:
                    ck.close(points, grid[:last + 1], 'momenta evaluated are those the other species can reach', 1e-12, 1e-12 * MeV)
                else:
                    ck.require(points[0] == 0 and abs(points[-1] - grid[last]) <= 1e-9 * grid[-1], 'the ends of the range are evaluated', points, grid[last])
                    steps = numpy.diff(points)
                    ck.require(numpy.all(steps > 0) and numpy.all(steps <= (2 * res if last * top / (samples - 1) > 2 * res else last * top) * MeV + grid[1]),
                               'evaluated momenta are as dense as configured', points)
                    for p in points:
                        ck.require(numpy.min(numpy.abs(grid - p)) <= 1e-9 * grid[-1], 'evaluated momenta belong to the grid')
                aT = w.params.aT
                c = w.normalisation(sp[0], True)
                values = numpy.array([answer(p / aT) for p in points])
                f = sp[0].distribution(points) if kind == FULL else None
                want = [values + f * values, values] if kind == FULL else [values]
                for x, y in zip(parts(out, kind), want):
                    full = numpy.interp(grid, points, y)
                    full[last + 1:] = 0.
                    ck.close(x, full * c, 'integral is evaluated, interpolated linearly and zero beyond the range', 1e-9, 1e-12 * c)
            ck.trace()
            ck.state((what, g, masses, sterile, known, limit, res, kind, log))
            ck.outcome((what, sterile, known is None, fine, last == len(grid) - 1))
            if ck.broken:
                return


MASSES3 = [(0., 0., 5.), (1., 0., 5.), (0., 3., 5.), (2., 2.9, 5.), (.1, .1, 12.), (0., 11., 12.), (0., 0., .3), (3., 1., 4.5), (5., 0., 5.1), (0., 7., 7.01), (0., 1., 30.), (4., 4., 9.)]
MOTHERS = [(9, 5.), (30, .5), (12, 40.), (5, 11.)]


def three_body(ck, g, masses, deep):
    samples, top = GRIDS[g]
    for (n, reach), kind, log in itertools.product(MOTHERS, (FULL, F_1, CREATION), (True, False)):
        with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
            w = World(log=log)
            MeV = w.MeV
            with ck.case('three particles', 'creation', GRIDS[g], masses, (n, reach), NAMES[kind], log):
                sp = [w.species(masses[0], samples, top, symbol='a'), w.species(masses[1], 12, 9., symbol='b'), w.species(masses[2], n, reach, symbol='c')]
                grid = sp[0].grid.TEMPLATE
                points, out = run(w.integral(sp, SIDES3['creation'], kind), False)
                # momenta of a product of a mother of mass M with momenta up to P
                m, mb, M = masses
                cm = math.sqrt((M ** 2 - m ** 2 - mb ** 2) ** 2 - 4 * m ** 2 * mb ** 2) / 2 / M
                Ecm, g_ = math.hypot(cm, m), math.hypot(reach, M) / M
                v = reach / math.hypot(reach, M)
                hi = g_ * (cm + v * Ecm)
                # only massless products have a least momentum for every mother below P
                lo = g_ * (cm - v * Ecm) if m == 0 else 0.
                first, last = inside(grid / MeV, lo * (1 + 1e-12), hi * (1 - 1e-12))
                got = parts(out, kind)
                ck.require(all(len(x) == len(grid) for x in got), 'one value per momentum')
                c = w.normalisation(sp[0], False)
                full = numpy.zeros(len(grid))
                if first < last:
                    ck.close(points, grid[first:last + 1], 'momenta evaluated are those the mother can create', 1e-9, 1e-9 * grid[-1])
                    for i in range(first, last + 1):
                        full[i] = answer(grid[i] / w.params.aT)
                for x in got:
                    # zero momentum has its own normalisation, compared in P12
                    ck.close(x[1:], full[1:] * c, 'integral is evaluated inside the range and zero outside', 1e-9, 1e-12 * c)
                    ck.require((x[0] == 0) == (full[0] == 0 or masses[0] == 0), 'zero momentum is part of the range like any other', x[0])
            ck.trace()
            ck.state(('3', g, masses, n, reach, kind, log))
        with ck.case('three particles', 'decay', GRIDS[g], masses):
            sp = [w.species(masses[2], samples, top, symbol='c'), w.species(masses[0], 12, 9., symbol='a'), w.species(masses[1], 9, 9., symbol='b')]
            points, out = run(w.integral(sp, SIDES3['decay'], kind if kind != CREATION else F_F), False)
            ck.close(points, sp[0].grid.TEMPLATE, 'decays are evaluated at every momentum', 1e-12, 1e-12 * MeV)
            ck.require(all(numpy.all(x != 0) for x in parts(out, kind if kind != CREATION else F_F)), 'decays are evaluated at every momentum')
        ck.trace()
        if ck.broken:
            return


# ---- skipped reactions -----------------------------------------------------------------------------------------------

def zero(out):
    return all(not numpy.any(x) for x in (out if isinstance(out, tuple) else (out,)))


def shape(out, pair, n):
    if pair:
        return isinstance(out, tuple) and len(out) == 2 and all(numpy.shape(x) == (n,) for x in out)
    return not isinstance(out, tuple) and numpy.shape(out) == (n,)


def skipping(ck, part):
    """ every combination of the conditions """
    with environ(MAX_MOMENTUM_MEV='100', FOUR_PARTICLE_GRID_RESOLUTION='0.001', LOGARITHMIC_TIMESTEP='1', HNL_ENERGY=None, Relativistic_decoupling=None):
        if part == 'dilution':
            for dilute in itertools.product((.5, 2.), repeat=4):
                for what, four in (('scattering', True), ('creation', True), ('decay', True)):
                    for a_ini in (1e-3, .3):
                        for kind in (FULL, F_F):
                            w = World()
                            with ck.case('dilution', what, dilute, a_ini, NAMES[kind]):
                                w.params.a_ini = a_ini
                                m = {'scattering': (1., 1., 1., 1.), 'creation': (0., 0., 0., 20.), 'decay': (20., 0., 0., 0.)}[what]
                                sp = [w.species(m[i], symbol='abcd'[i], name='s%d' % i, dof=(2, 40, 1000, 8)[i]) for i in range(4)]
                                for q, d in zip(sp, dilute):
                                    # density now is d times the threshold of its initial value
                                    q.data['params']['density'][0] = q.density / (d * 1e-10 * (a_ini / 10) ** 3)
                                _, out = run(w.integral(sp, SIDES4[what], kind), True)
                                skip = what == 'scattering' and min(dilute[:2]) < 1 and min(dilute[2:]) < 1
                                ck.require(shape(out, kind == FULL, 21), 'one value per momentum')
                                ck.require(zero(out) == skip, 'scattering is skipped exactly when both sides are diluted', zero(out), skip)
                            ck.trace()
                            ck.state(('dilution', what, dilute, a_ini, kind))
        elif part == 'active':
            # which species have collisions at all
            for four in (True, False):
                for T_dec, never, T in itertools.product((.5, .999, 1.001, 4., 1e6), (False, True), (.4, 1., 3.)):
                    for what in (SIDES4 if four else SIDES3):
                        w = World(T=T, aT=1.)
                        with ck.case('active', what, four, T_dec, never, T):
                            n = 4 if four else 3
                            big = {'creation': n - 1, 'decay': 0}.get(what)
                            sp = [w.species(9. if i == big else .1, samples=4, symbol='abcd'[i], name='s%d' % i) for i in range(n)]
                            q = sp[0]
                            q.thermal_dyn = not never
                            q.decoupling_temperature = T_dec * w.MeV
                            q.update()
                            for other in (1, 2):
                                sp[other].decoupling_temperature = (1e-3, 1e6)[other - 1] * w.MeV
                                sp[other].update()
                            for q_ in sp:
                                q_.collision_integrals = []
                            integral = w.integral(sp, (SIDES4 if four else SIDES3)[what], FULL)
                            ck.require(len(q.collision_integrals) == (T < T_dec), 'a species has collisions exactly below its decoupling temperature', T, T_dec)
                            ck.require(all(x is integral for x in q.collision_integrals) and not any(x.collision_integrals for x in sp[1:]), 'collisions concern the species followed only')
                        ck.trace()
                        ck.state(('active', what, four, T_dec, never, T))
        elif part == 'sterile':
            for what in SIDES4:
                for slot in (None, 0, 1, 2, 3):
                    for T in (.3, .99, 1.01, 2., 30.):
                        for relativistic in ('', 'True'):
                            for a_ini in (.001, .02, .2):
                                for M in (.5, 29., 40.):
                                    w = World(T=T, aT=1.)
                                    MeV = w.MeV
                                    a = 1. / T
                                    with ck.case('sterile neutrino', what, slot, T, relativistic, a_ini, M), environ(Relativistic_decoupling=relativistic):
                                        w.params.a_ini = a_ini
                                        big = 3 if what == 'creation' else 0
                                        m = [M * a if (i == slot or (slot is None and i == big)) else 0. for i in range(4)]
                                        if what != 'scattering' and slot not in (None, big):
                                            m[big] = 100 * a + M * a
                                        sp = [w.species(m[i], symbol='abcd'[i], name=STERILE if i == slot else 's%d' % i) for i in range(4)]
                                        _, out = run(w.integral(sp, SIDES4[what], FULL), True)
                                        skip = what == 'scattering' and slot is not None and (T < 1 or (relativistic and T < 1. / a_ini / 15))
                                        skip = skip or (what == 'decay' and slot == 0 and T > M)
                                        ck.require(shape(out, True, 21), 'one value per momentum')
                                        ck.require(zero(out) == bool(skip), 'reactions of the sterile neutrino are skipped exactly after decoupling, decays above its mass', zero(out), skip)
                                    ck.trace()
                                    ck.state(('sterile', what, slot, T, relativistic, a_ini, M))
        else:
            for four in (True, False):
                sides = SIDES4 if four else SIDES3
                for what in sides:
                    for decayed, fast, created, own, plain in itertools.product((False, True), (False, True), (0, 3.), (False, True), (FULL, FULL_VAC)):
                        w = World()
                        n = 4 if four else 3
                        big = {'creation': n - 1, 'decay': 0}.get(what)
                        with ck.case('short-lived and decayed species', what, n, decayed, fast, created, own, NAMES[plain]):
                            m = [5. if big is None else 0.] * n
                            if big is not None:
                                m[big] = 20.
                            sp = []
                            for i in range(n):
                                kw = {}
                                if fast and i == big or own and i == 0 and what == 'creation':
                                    kw = dict(fast_decay=True, lifetime=1e-3 / w.MeV, BR={'abc'[:n - 1]: .5, 'bcd'[:n - 1]: .5})
                                sp.append(w.species(m[i], symbol='abcd'[i], name='s%d' % i, **kw))
                                if kw:
                                    sp[-1].num_creation = 7.
                            if big is not None:
                                sp[big].decayed = decayed
                                if fast:
                                    sp[big].num_creation = created
                            short = hasattr(sp[0], 'fast_decay')
                            kind = plain if not short else DECAY if what == 'decay' else CREATION
                            _, out = run(w.integral(sp, sides[what], kind), four)
                            skip = what == 'creation' and decayed or what != 'scattering' and fast and created == 0
                            ck.require(shape(out, True, 21), 'gain and loss for every momentum')
                            ck.require(zero(out) == bool(skip), 'creation is skipped exactly when nothing is left or nothing has been created of the mother', zero(out), skip)
                            if short and not skip:
                                ck.require(not numpy.any(out[0 if kind == DECAY else 1]), 'decays do not create and creation does not destroy a short-lived species')
                        ck.trace()
                        ck.state(('short', four, what, decayed, fast, created, own, plain))
            with ck.case('massless mother'):
                w = World()
                sp = [w.species(m, symbol=s) for m, s in zip((0., 0., 0.), 'abc')]
                ck.require(zero(run(w.integral(sp, SIDES3['decay'], FULL), False)[1]), 'massless particles do not decay')
            ck.trace()


# ---- multiplicities --------------------------------------------------------------------------------------------------

def multiplicity(ck, n):
    sides_all = (SIDES4 if n == 4 else SIDES3)
    with environ(MAX_MOMENTUM_MEV='100', FOUR_PARTICLE_GRID_RESOLUTION='0.001', LOGARITHMIC_TIMESTEP='1', HNL_ENERGY=None, Relativistic_decoupling=None):
        for what in sides_all:
            mother = {'creation': n - 1, 'decay': 0}.get(what)
            for assign in itertools.product(range(3), repeat=n):
                if assign[0] > 0 or any(x > max(assign[:i]) + 1 for i, x in enumerate(assign) if i):
                    continue                                  # the first occurrence of each species in order
                if mother is not None and assign.count(assign[mother]) > 1:
                    continue
                for sterile in (None,) + tuple(sorted(set(assign))):
                    for own, charge in itertools.product((False, True), (0, 1, -1)):
                        w = World(T=2.)
                        with ck.case('multiplicity', what, assign, 'sterile', sterile, 'self-conjugate mother', own, 'charge', charge):
                            base = []
                            for k in sorted(set(assign)):
                                heavy = mother is not None and assign[mother] == k
                                base.append(w.species(30. if heavy else 0. if mother is not None else 2., symbol='abc'[k], name=STERILE if k == sterile else 's%d' % k,
                                                      Q=charge if k == assign[0] else 0,
                                                      majorana=own if (k == assign[-1] and what == 'creation') else False, dof=2))
                            sp = [base[k] for k in assign]
                            sides = sides_all[what]
                            _, out = run(w.integral(sp, sides, F_1), n == 4)
                            left = sum(1 for k, s in zip(assign, sides) if k == assign[0] and s == -1)
                            right = sum(1 for k, s in zip(assign, sides) if k == assign[0] and s == 1)
                            want = 1.
                            if sterile is not None or (what == 'creation' and not (own and charge)):
                                if left == 2 and right < 2 or left == 3:
                                    want = float(left)
                            c = w.normalisation(sp[0], n == 4)
                            i = numpy.flatnonzero(out)[1] if len(numpy.flatnonzero(out)) > 1 else None
                            ck.require(i is not None, 'integral is evaluated')
                            got = out[i] / c / answer(sp[0].grid.TEMPLATE[i] / w.params.aT)
                            ck.close(got, want, 'reaction counts once per identical followed particle consumed', 1e-9)
                            ck.outcome((what, want))
                        ck.trace()
                        ck.state(('multiplicity', what, assign, sterile, own, charge))


def branching(ck, n):
    """ products of a short-lived species: branching ratio times number created """
    from scipy.integrate import simps
    with environ(MAX_MOMENTUM_MEV='100', FOUR_PARTICLE_GRID_RESOLUTION='0.001', LOGARITHMIC_TIMESTEP='1'):
        for order in itertools.permutations(range(n - 1)):
            for created, br, dof, own, kind, log in itertools.product((1e-3, 5.), (.2, 1.), (2, 3, 4), (False, True), (CREATION, F_1), (True, False)):
                with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
                    w = World(log=log)
                    with ck.case('branching', n, order, created, br, dof, own, NAMES[kind], log):
                        symbols = ['abc'[i] for i in order]
                        sp = [w.species(0., symbol=s, name='s' + s, dof=dof, majorana=own) for s in symbols]
                        BR = {'xyz': .123, 'abc'[:n - 1]: br, 'aab'[:n - 1]: .321, 'abca' if n == 4 else 'aba': .777}
                        M = w.species(30., symbol='M', name='M', fast_decay=True, lifetime=1e-3 / w.MeV, BR=BR)
                        M.num_creation = created
                        _, out = run(w.integral(sp + [M], (SIDES4 if n == 4 else SIDES3)['creation'], kind), n == 4)
                        grid = sp[0].grid.TEMPLATE
                        number = simps(out * (dof if own else dof / 2.) * grid ** 2, grid)
                        ck.close(number, br * created, 'products number the branching ratio times the mothers created', 1e-9)
                    ck.trace()
                    ck.state(('branching', n, order, created, br, dof, own, kind, log))


def shard(ck, arg):
    with quiet():
        {'four': four_body, 'three': three_body, 'skip': skipping, 'multiplicity': multiplicity, 'branching': branching}[arg[0]](ck, *arg[1:])


def explore(ck, tier):
    deep = ck.thorough
    grids = range(len(GRIDS) if deep else 6)
    args = [('four', what, g, m, deep) for what in SIDES4 for g in grids for m in MASSES4
            if what == 'scattering' or m[3] > sum(m[:3])]
    args += [('three', g, m, deep) for g in grids for m in MASSES3]
    args += [('skip', part) for part in ('dilution', 'active', 'sterile', 'short')] + [('multiplicity', n) for n in (3, 4)] + [('branching', n) for n in (3, 4)]
    args.sort(key=lambda a: a[0] in ('four', 'three'))
    ck.shards(shard, args)
