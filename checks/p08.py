"""P08: thermodynamics of a species. Every regime x statistics x mass/temperature ratio x comoving normalisation, and every
assignment of a small alphabet of samples for decoupled species, against direct integrals of the occupation number."""
import functools
import itertools
import math
import sys

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P08'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['thermal integrals agree to 1e-4 (2e-3 for the number density and the mass terms the radiation regime drops by design; relative corrections of order T/M are dropped by design in the dust regime)',
               'decoupled species: grids with an odd number of samples, occupation numbers below one for fermions']
BOUNDS = {'quick': '2 statistics x 26 masses (1e-4..1e3 T) x 3 scale factors x 2 comoving temperatures x 4 switching factors; decoupled: all 5-sample distributions over 4 values x 3 masses x 2 statistics x 3 scale factors, 2 quadrature settings; all expansion histories of length 4',
          'thorough': '2 statistics x 60 masses x 5 scale factors x 3 comoving temperatures x 5 switching factors; decoupled: all 7-sample distributions over 4 values; expansion histories of length 6'}
PI2 = math.pi**2


@functools.lru_cache(None)
def thermal(M, eta, what):
    """ integral of the thermal occupation number at T = 1, one degree of freedom; times exp(M) """
    from scipy.integrate import quad

    def f(p):
        E = math.hypot(p, M)
        e = math.exp(-E) if E < 740 else 0.
        occ = math.exp(M - E) / (1 + eta * e)
        return {'n': p * p, 'rho': p * p * E, 'P': p**4 / 3 / E if E else 0., 'I2': p * p / (1 + eta * e), 'I4': p**4 / (1 + eta * e)}[what] * occ
    s = math.sqrt(M) + 1
    total = 0.
    for lo, hi in ((0., 0.05), (0.05, 1.), (1., 3.), (3., 10.), (10., 60.)):
        total += quad(f, lo * s, hi * s, epsrel=1e-10, epsabs=0)[0]
    return total / (2 * PI2)


def masses(thorough):
    out = [0., 1e-4, 5e-4, 0.00099, 0.0011, 1e-2, 0.03, 0.1, 0.3, 0.5, 1., 1.7, 3., 5., 8., 9.9, 12., 20., 40., 63., 65., 101., 150., 300., 500., 600.]
    if thorough:
        out += [10**(-4 + 6.7 * k / 33.) for k in range(34)]
    return out


def equilibrium(ck, arg):
    M, eta, factor, scales, temps = arg
    from common import LinearSpacedGrid, Params, UNITS, statistics
    from particles import Particle
    u = UNITS.MeV
    with environ(REGIME_SWITCHING_FACTOR=repr(factor)), quiet():
        for a, aT, dof in itertools.product(scales, temps, (2, 1.5, 12)):
            if dof != 2 and (a, aT) != (scales[0], temps[0]):
                continue
            T = aT / a
            mass = M * T
            with ck.case('equilibrium', M, eta, factor, a, aT, dof):
                params = Params(T=T * u, m=u, dy=0.1)
                params.aT, params.a, params.x = aT * u, a, a * u
                params.T = params.aT / params.a
                grid = LinearSpacedGrid(MOMENTUM_SAMPLES=401, MAX_MOMENTUM=(60. + 10 * math.sqrt(M)) * aT * u)
                part = Particle(name='x', symbol='x', mass=mass * u, dof=dof, statistics=statistics.FERMION if eta == 1 else statistics.BOSON, grid=grid, params=params)
                n, rho, P, s = part.density / (T * u)**3, part.energy_density / (T * u)**4, part.pressure / (T * u)**4, part.entropy / (T * u)**3
                boltz = math.exp(-M)
                full = {k: thermal(M, eta, k) * dof * boltz for k in ('n', 'rho', 'P')}
                regime = 'radiation' if 1 > M * factor else 'dust' if factor < M else 'intermediate'
                ck.require(part.regime.name == regime, 'regime', part.regime.name, regime)
                tol = {'radiation': 1e-4 + M, 'intermediate': 1e-4, 'dust': 4. / max(M, 1e-9)}[regime]
                ck.close(n, full['n'], 'number density, ' + regime, tol + (2e-3 if regime == 'radiation' else 0))
                ck.close(rho, full['rho'], 'energy density, ' + regime, tol)
                ck.close(P, full['P'], 'pressure, ' + regime, tol)
                ck.close(s, rho + P, 'entropy density is (rho + P) / T', 1e-10)
                ck.require(P <= rho / 3 * (1 + 1e-6), 'pressure does not exceed a third of the energy density', P, rho)
                if regime == 'dust':
                    n0 = dof * (M / 2 / math.pi)**1.5 * boltz
                    ck.close([n, rho, P], [n0, n0 * (M + 1.5), n0], 'Boltzmann gas', 1e-9)
                if regime == 'radiation':
                    c = dof * (7. / 8 if eta == 1 else 1.)
                    ck.close([rho, P, s], [c * PI2 / 30, c * PI2 / 90, c * 2 * PI2 / 45], 'ultrarelativistic gas', 1e-9)
                # terms of the temperature equation: -aT d(comoving entropy)/dx and d(comoving energy)/d(aT)
                want_num = M * M * aT**4 / a * thermal(M, eta, 'I2') * dof * boltz
                want_den = (thermal(M, eta, 'I4') + M * M * thermal(M, eta, 'I2')) * dof * boltz * aT**3
                for laguerre in ('1', ''):
                    if not laguerre and M > 300:
                        continue
                    with environ(LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES=laguerre):
                        num, den = part.numerator() / u**3, part.denominator() / u**3
                    ck.close(den, want_den, 'heat capacity term of the temperature equation', 1e-3)
                    if regime == 'radiation':
                        ck.require(num == 0, 'a massless gas does not heat the plasma', num)
                    else:
                        ck.close(num, want_num, 'annihilation heating term of the temperature equation', 2e-3)
            ck.state((M, eta, factor, a, aT, dof))
            ck.outcome((M, eta, M * factor < 1, M > factor))
            ck.trace()


def simpson_weights(grid):
    n = len(grid)
    h = grid[1] - grid[0]
    return h / 3 * numpy.array([1.] + [4. if i % 2 else 2. for i in range(1, n - 1)] + [1.])


def species(mass, eta, grid, T_dec, params, dof):
    from common import UNITS, statistics
    from particles import Particle
    return Particle(name='x', symbol='x', mass=mass * UNITS.MeV, dof=dof, decoupling_temperature=T_dec * UNITS.MeV,
                    statistics=statistics.FERMION if eta == 1 else statistics.BOSON, grid=grid, params=params)


def decoupled(ck, arg):
    mass, eta, samples, top, scales = arg
    from common import LinearSpacedGrid, Params, UNITS
    u = UNITS.MeV
    values = (0., 1e-6, 0.3, 0.9) if eta == 1 else (0., 1e-6, 0.3, 5.)
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=top * u)
    y = grid.TEMPLATE / u
    w = simpson_weights(y)
    with quiet():
        for a in scales:
            params = Params(T=1. * u, m=u, dy=0.1)
            params.a, params.x, params.T = a, a * u, params.aT / a
            dof = 2 if a == 1 else 3.
            part = species(mass, eta, grid, 5000., params, dof)
            E = numpy.sqrt(y**2 + (mass * a)**2)
            for f in itertools.product(values, repeat=samples):
                if ck.broken:
                    return
                with ck.case('decoupled', mass, eta, a, f):
                    part._distribution = numpy.array(f)
                    part.populate_methods()
                    fa = numpy.array(f)
                    c = dof / (2 * PI2)
                    with numpy.errstate(all='ignore'):
                        p4 = numpy.where(E > 0, y**4 / E, 0.)
                        ent = numpy.where(fa > 0, -(fa * numpy.log(fa) + eta * (1 - eta * fa) * numpy.log(1 - eta * fa)), 0.)
                    want = [c * sum(w * y**2 * fa) / a**3, c * sum(w * y**2 * E * fa) / a**4, c / 3 * sum(w * p4 * fa) / a**4, c * sum(w * y**2 * ent) / a**3]
                    got = [part.density / u**3, part.energy_density / u**4, part.pressure / u**4, part.entropy / u**3]
                    for g, x, name in zip(got, want, ('number density', 'energy density', 'pressure', 'entropy')):
                        ck.close(g, x, name + ' of a decoupled species', 1e-9, 1e-25)
                    ck.require(part.denominator() == 0, 'a decoupled species does not carry heat capacity')
                ck.state((mass, eta, a, f))
                ck.trace()
            for k in range(samples):
                with ck.case('collision heating', mass, eta, a, k):
                    part.collision_integral = numpy.eye(samples)[k] * 1.7e-3
                    want = -dof / (2 * PI2) * w[k] * y[k]**2 * E[k] * 1.7e-3 / a
                    ck.close(part.numerator() / u**3, want, 'heating by a decoupled species', 1e-9, 1e-25)
                    with environ(LOGARITHMIC_TIMESTEP=''):
                        ck.close(part.numerator() / u**4, want * a, 'heating by a decoupled species per unit of the linear variable', 1e-9, 1e-25)
                ck.state(('heat', mass, eta, a, k))


def smooth(ck, arg):
    """ both quadrature settings, realistic distributions, free streaming histories """
    setting, mass, eta, depth = arg
    from scipy.integrate import quad
    with environ(SIMPSONS_NONEQ_PARTICLES=setting), quiet():
        for name in [n for n in sys.modules if n.split('.')[0] == 'particles']:
            del sys.modules[name]
        from common import LinearSpacedGrid, Params, UNITS
        u = UNITS.MeV
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=301, MAX_MOMENTUM=25. * u)
        y = grid.TEMPLATE / u
        T_dec = 4.
        for shape, f in (('thermal', lambda q: 1. / (math.exp(math.hypot(q, mass / T_dec)) + eta)), ('hot', lambda q: 0.1 * math.exp(-q / 1.5) * (1 + q))):
            if eta == -1 and mass == 0 and shape == 'thermal':
                continue
            params = Params(T=2. * u, m=u, dy=0.1)
            with ck.case('smooth', setting, mass, eta, shape):
                part = species(mass, eta, grid, T_dec, params, 2)
                part._distribution = numpy.array([f(q) for q in y])
                number = quad(lambda q: q * q * f(q), 0, 25, epsrel=1e-10)[0] / PI2
            for history in itertools.product((1.5, 4.), repeat=depth):
                a = params.a = 0.5
                for k, g in enumerate((1.,) + history):
                    a *= g
                    with ck.case('smooth', setting, mass, eta, shape, history[:k]):
                        params.a, params.x, params.T = a, a * u, params.aT / a
                        part.T = part.aT / a
                        part.populate_methods()
                        en = quad(lambda q: q * q * math.hypot(q, mass * a) * f(q), 0, 25, epsrel=1e-10, limit=200)[0] / PI2
                        pr = quad(lambda q: q**4 / math.hypot(q, mass * a) * f(q) if q else 0., 0, 25, epsrel=1e-10, limit=200)[0] / 3 / PI2
                        en_s = quad(lambda q: -q * q * (f(q) * math.log(f(q)) + eta * (1 - eta * f(q)) * math.log(1 - eta * f(q))), 0, 25, epsrel=1e-9, limit=200)[0] / PI2
                        ck.close(part.density / u**3 * a**3, number, 'a frozen species is diluted as a^-3', 2e-4)
                        ck.close(part.energy_density / u**4 * a**4, en, 'energy density of a frozen species', 2e-4)
                        ck.close(part.pressure / u**4 * a**4, pr, 'pressure of a frozen species', 2e-4)
                        ck.close(part.entropy / u**3 * a**3, en_s, 'entropy of a frozen species', 2e-4)
                        ci = lambda q: 1e-3 * q * math.exp(-q)
                        part.collision_integral = numpy.array([ci(q) for q in y])
                        heat = -quad(lambda q: q * q * math.hypot(q, mass * a) * ci(q), 0, 25, epsrel=1e-10, limit=200)[0] / PI2 / a
                        ck.close(part.numerator() / u**3, heat, 'heating by a decoupled species', 2e-3)
                        with environ(LOGARITHMIC_TIMESTEP=''):
                            ck.close(part.numerator() / u**4, heat * a, 'heating by a decoupled species per unit of the linear variable', 2e-3)
                    ck.state((setting, mass, eta, shape, history[:k]))
                ck.trace()


def shard(ck, arg):
    {'equilibrium': equilibrium, 'decoupled': decoupled, 'smooth': smooth}[arg[0]](ck, arg[1])


def explore(ck, tier):
    t = ck.thorough
    jobs = []
    for setting in ('1', ''):
        for mass, eta in itertools.product((0., 0.3, 20.), (1, -1)):
            jobs.append(('smooth', (setting, mass, eta, (6 if setting else 4) if t else (4 if setting else 1))))
    for mass, eta in itertools.product((0., 0.7, 40.), (1, -1)):
        jobs.append(('decoupled', (mass, eta, 7 if t else 5, 6., (1., 0.01, 7.))))
    scales = (1., 0.05, 13., 1e-3, 1e3)[:5 if t else 3]
    temps = (1., 1.4, 0.3)[:3 if t else 2]
    for M, eta, factor in itertools.product(masses(t), (1, -1), (1e3, 64., 10., 400., 2e4)[:5 if t else 4]):
        jobs.append(('equilibrium', (M, eta, factor, scales, temps)))
    ck.shards(shard, jobs)
