"""P19: the nuclear rates. The six rates of a grid of states against independent integrals, detailed balance and scaling; every assignment of a
small alphabet of samples to the neutrino distribution; the rate table of a Universe row by row, alone and interleaved with another Universe."""
import itertools
import math

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P19'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['neutrinos are massless, electrons in equilibrium or with samples between zero and one', 'masses of nucleons and the electron as in the particle library',
               'reading of sampled distributions is decided by P03', 'quadrature tolerance 2e-5 for smooth, 1e-2 for sampled distributions']
BOUNDS = {'quick': '22 temperatures x 4 neutrino temperatures x 5 scale factors x 3 grids; all neutrino samples of 5 nodes over 4 values x 3 scale factors; rate tables: 4 sets of species x linear/logarithmic x '
                   '5 pairs of starting temperature and normalisation of the scale factor, and states just above, at and just below 10 MeV; all interleavings of 3+3 steps of two Universes with rates',
          'thorough': 'as quick with 60 temperatures, 5 sample values and interleavings of 4+4 steps'}

Q = 939.5654133 - 938.2720813
ME = .511
NORM = 17.5426
ORDER = ['n nue->p e', 'p e->n nue', 'n->p e nue', 'p e nue->n', 'n e->p nue', 'p nue->n e']
T_START = 10.


def constants():
    from common import UNITS
    from library.SM import particles as SMP
    q = (SMP.hadrons.neutron['mass'] - SMP.hadrons.proton['mass']) / UNITS.MeV
    return q, SMP.leptons.electron['mass'] / UNITS.MeV


GL = numpy.polynomial.legendre.leggauss(60)


def integral(f, lo, hi, pieces):
    edges = numpy.linspace(lo, hi, pieces + 1)
    x = numpy.concatenate([.5 * (a + b) + .5 * (b - a) * GL[0] for a, b in zip(edges, edges[1:])])
    w = numpy.concatenate([.5 * (b - a) * GL[1] for a, b in zip(edges, edges[1:])])
    return float(numpy.sum(w * f(x)))


def reference(q, me, a, top, fe, fn, pieces=12):
    """ rates of the six reactions from the occupation numbers of electrons fe(momentum) and neutrinos fn(momentum); units of MeV """
    def rate(electron, lo, hi, occupation):
        if hi <= lo:
            return 0.

        def f(y):
            E = electron(y)
            ok = E >= me * a
            p = numpy.sqrt(numpy.maximum(E ** 2 - (me * a) ** 2, 0.))
            return numpy.where(ok, y ** 2 * p * E * occupation(fe(p), fn(y)), 0.)
        return NORM / a ** 5 * integral(f, lo, hi, pieces)
    low, high = (q - me) * a, (q + me) * a
    return [
        rate(lambda y: y + q * a, 0., top, lambda e, n: (1 - e) * n),
        rate(lambda y: y + q * a, 0., top, lambda e, n: e * (1 - n)),
        rate(lambda y: q * a - y, 0., low, lambda e, n: (1 - e) * (1 - n)),
        rate(lambda y: q * a - y, 0., low, lambda e, n: e * n),
        rate(lambda y: y - q * a, high, top, lambda e, n: e * (1 - n)),
        rate(lambda y: y - q * a, high, top, lambda e, n: (1 - e) * n),
    ]


def thermal(T, m=0.):
    return lambda p: 1. / (numpy.exp(numpy.minimum(numpy.sqrt(p ** 2 + m ** 2) / T, 700.)) + 1.)


def pair(T, a, Tn, samples, top, decoupled):
    """ electrons and neutrinos in a plasma of temperature T with scale factor a; neutrinos of temperature Tn """
    from common import LinearSpacedGrid, Params, UNITS
    from library.SM import particles as SMP
    from particles import Particle
    M = UNITS.MeV
    p = Params(T=T * M, dy=.1)
    p.a, p.aT, p.x = a, T * a * M, a * M
    electron = Particle(**SMP.leptons.electron, params=p)
    pn = Params(T=Tn * M, dy=.1)
    pn.a, pn.aT, pn.x = a, Tn * a * M, a * M
    neutrino = Particle(**dict(SMP.leptons.neutrino_e, decoupling_temperature=(1e3 if decoupled else 0.) * M), grid=LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=top * M), params=pn)
    return electron, neutrino


def states(ck, arg):
    T, thorough = arg
    import kawano
    from common import UNITS
    q, me = constants()
    with quiet():
        for ratio, a, g in itertools.product((1., .714, 1.2, .4), (1e-2, .1, .6, 1. / T, 30.), range(3)):
            top = a * T * max(1., ratio) * (30., 60., 12.)[g]
            samples = (401, 51, 21)[g]
            with ck.case('state', T, ratio, a, g):
                electron, neutrino = pair(T, a, T * ratio, samples, top, False)
                kawano.init_kawano(electron=electron, neutrino=neutrino)
                got = kawano.baryonic_rates(a)
                ck.require(len(got) == 6, 'six rates')
                want = reference(q, me, a, top, thermal(T * a, me * a), thermal(T * ratio * a))
                size = max(want)
                for name, x, y in zip(ORDER, got, want):
                    ck.require(math.isfinite(x) and x >= 0, 'a rate', name, x)
                    ck.close(x, y, 'rate of ' + name, 1e-3 if g else 1e-4, 1e-9 * size, T, ratio, a)
                if ratio == 1.:
                    for i in (0, 2, 4):
                        if got[i + 1] > 1e-290:
                            ck.close(math.log(got[i] / got[i + 1]), q / T, 'in equilibrium a reaction and its reverse are in detailed balance', 1e-9, 1e-9, ORDER[i])
            ck.state(('state', T, ratio, a, g))
            ck.outcome(tuple(x > 0 for x in got))
            ck.trace()
        # the same plasma in other units of the scale factor
        with ck.case('scaling', T):
            out = []
            for a in (.01, 1., 77.):
                electron, neutrino = pair(T, a, T, 301, a * (6 * Q + 30 * T), False)
                kawano.init_kawano(electron=electron, neutrino=neutrino)
                out.append(kawano.baryonic_rates(a))
            for x in out[1:]:
                ck.close(x, out[0], 'rates do not depend on the normalisation of the scale factor', 1e-9)
        if T < .02:
            with ck.case('decay', T):
                ck.close(out[0][2], 1., 'the rate of free neutrons is the unit of rates', .01)
                ck.require(max(out[0][:2] + out[0][3:]) < 1e-3, 'in the vacuum a neutron only decays', out[0])


def sampled(ck, arg):
    first, nodes, values = arg
    import kawano
    from common import UNITS
    q, me = constants()
    with quiet():
        for rest in itertools.product(values, repeat=nodes - 2):
            f = numpy.array(first + rest)
            for a, T in ((1., 1.), (.3, 3.), (4., .05)):
                with ck.case('samples', f, a, T):
                    electron, neutrino = pair(T, a, T, nodes, 8. * a, True)
                    neutrino._distribution = f.copy()
                    kawano.init_kawano(electron=electron, neutrino=neutrino)
                    got = kawano.baryonic_rates(a)
                    M = UNITS.MeV

                    def fn(y):
                        return numpy.array([float(neutrino.distribution(v * M)) for v in y])
                    want = reference(q, me, a, 8. * a, thermal(T * a, me * a), fn, pieces=4 * (nodes - 1))
                    size = max(want)
                    for name, x, y in zip(ORDER, got, want):
                        ck.require(math.isfinite(x) and x >= 0, 'a rate', name, x)
                        ck.close(x, y, 'rate with distorted neutrinos of ' + name, 5e-2, 5e-2 * size, T, a)
                    if not numpy.any(f):
                        ck.require(got[0] == got[3] == got[5] == 0, 'no neutrinos, no neutrino capture', got)
                ck.state(('samples', tuple(f), a))
                ck.trace()


def electrons(ck, _):
    """ electrons are taken as they are, too """
    import kawano
    from common import LinearSpacedGrid, Params, UNITS
    from library.SM import particles as SMP
    from particles import Particle
    q, me = constants()
    M = UNITS.MeV
    with quiet():
        for f, a in itertools.product((0., .3, .999), (.5, 1., 6.)):
            with ck.case('electrons', f, a):
                _, neutrino = pair(1., a, 1., 101, 30. * a, False)
                p = Params(T=M, dy=.1)
                p.a, p.aT, p.x = a, a * M, a * M
                e = Particle(**dict(SMP.leptons.electron, decoupling_temperature=1e4 * M), grid=LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=60. * a * M), params=p)
                e._distribution = numpy.full(5, f)
                kawano.init_kawano(electron=e, neutrino=neutrino)
                got = kawano.baryonic_rates(a)
                want = reference(q, me, a, 30. * a, lambda y: f + 0. * y, thermal(a))
                ck.close(got, want, 'rates with given electrons', 2e-3, 1e-6 * max(want))
            ck.state(('electrons', f, a))
            ck.trace()


def build(which, T, log, dilute=False, norm=1.):
    """ a Universe that keeps a rate table, not started yet """
    from common import LinearSpacedGrid, Params, UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    from particles import Particle
    M = UNITS.MeV
    u = Universe(params=Params(T=T * M, dy=.06, m=norm * M) if log else Params(T=T * M, dx=.03 / T * norm * M, m=norm * M))
    electron = Particle(**SMP.leptons.electron)
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=31, MAX_MOMENTUM=(20. if dilute else 30.) * norm * M)
    nus = [Particle(**dict(SMP.leptons.neutrino_e, decoupling_temperature=(.01, 1e3, 1.8, 5.)[which] * M), grid=grid)]
    if which > 1:
        nus.append(Particle(**SMP.leptons.neutrino_mu, grid=grid))
    u.add_particles([Particle(**SMP.photon), electron] + nus)
    if dilute:
        nus[0]._distribution = .5 * nus[0]._distribution
    u.init_kawano(electron=electron, neutrino=nus[0])
    return u, electron, nus[0]


def tables(ck, arg):
    which, log, T, norm = arg
    from common import CONST, UNITS
    M = UNITS.MeV
    q, me = constants()
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''), quiet():
        for steps in (0, 1, 5, 12):
            with ck.case('table', which, log, T, norm, steps):
                u, e, n = build(which, T, log, norm=norm)
                seen = []

                def at():
                    def fn(y):
                        return numpy.array([float(n.distribution(v * M)) for v in y])

                    def fe(y):
                        return numpy.array([float(e.distribution(v * M)) for v in y])
                    return reference(q, me, u.params.a, n.grid.MAX_MOMENTUM / M, fe, fn, pieces=2)
                states = []
                u.evolve(1e9 * M, export=False)
                for _ in range(steps):
                    before = len(u.kawano_data)
                    u.evolve(u.params.T * (1 - 1e-12), init_time=False, export=False)
                    seen.append((u.params.T / M, len(u.kawano_data) - before))
                    if u.params.T <= T_START * M:
                        p = u.params
                        f = float(u.data['fraction'][-1])
                        H = math.sqrt(8 * math.pi / 3 * p.rho) / CONST.M_p
                        cooling = (f / p.a - p.T) * H if log else (f - p.T / p.m) * p.m * H
                        states.append(([p.t, p.x, p.T, cooling, p.rho, H], at()))
                for temp, new in seen:
                    ck.require(new == (1 if temp <= T_START else 0), 'one row per state, from 10 MeV downwards', temp, new)
                ck.require(len(u.kawano_data) == len(states), 'rows of the table')
                for k, (head, rates) in enumerate(states):
                    row = [float(x) for x in u.kawano_data.data[k]]
                    ck.close(row[:6], head, 'time, scale factor, temperature, its derivative, energy density and expansion rate of the state', 1e-9, 0, k)
                    ck.close(row[6:], rates, 'rates of the state', 2e-2, 1e-2 * max(rates), k)
                for k in range(1, len(states)):
                    (t0, _, T0, d0, _, _), (t1, _, T1, d1, _, _) = [[float(x) for x in u.kawano_data.data[i]][:6] for i in (k - 1, k)]
                    ck.close((T1 - T0) / (t1 - t0), .5 * (d0 + d1), 'the derivative of the temperature is that of the table', .12, 0, k)
            ck.state(('table', which, log, T, norm, steps))
            ck.trace()


def boundary(ck, _):
    """ the table begins with the state at 10 MeV itself """
    from common import UNITS
    for which, log, (T, rows) in itertools.product(range(4), (True, False), ((T_START, 1), (numpy.nextafter(T_START, 11.), 0), (numpy.nextafter(T_START, 9.), 1))):
        with environ(LOGARITHMIC_TIMESTEP='1' if log else ''), quiet():
            with ck.case('boundary', which, log, T):
                u, _, _ = build(which, 9., log)
                u.evolve(1e9 * UNITS.MeV, export=False)
                u.params.T = T_START * UNITS.MeV if T == T_START else T * UNITS.MeV
                u.save()
                ck.require(len(u.kawano_data) == rows, 'one row per state, from 10 MeV downwards', T, len(u.kawano_data))
            ck.state(('boundary', which, log, T))
            ck.trace()


def advance(u):
    u.evolve(u.params.T * (1 - 1e-12), init_time=False, export=False)


def picture(u):
    return [[float(x) for x in row] for row in u.kawano_data.data]


def together(ck, arg):
    from common import UNITS
    i, j, n = arg
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        solo = {}
        for name, which in (('A', i), ('B', j)):
            with ck.case('alone', which):
                u, _, _ = build(which, 2., True, name == 'B')
                u.evolve(1e9 * UNITS.MeV, export=False)
                for _ in range(n):
                    advance(u)
                solo[name] = picture(u)
        if len(solo) < 2:
            return
        for places in itertools.combinations(range(2 * n), n):
            word = ''.join('A' if k in places else 'B' for k in range(2 * n))
            with ck.case('together', i, j, word):
                us = {}
                for c in word:
                    if c not in us:
                        us[c] = build(i if c == 'A' else j, 2., True, c == 'B')[0]
                        us[c].evolve(1e9 * UNITS.MeV, export=False)
                    advance(us[c])
                ck.schedules += 1
                for c in 'AB':
                    ck.require(picture(us[c]) == solo[c], 'the rates of a Universe are those of its own species', c)
            ck.state(('together', i, j, word))
            ck.trace()


def shard(ck, arg):
    {'boundary': boundary, 'states': states, 'sampled': sampled, 'electrons': electrons, 'tables': tables, 'together': together}[arg[0]](ck, arg[1])


def explore(ck, tier):
    n = 60 if ck.thorough else 22
    jobs = [('states', (.008 * (10 / .008) ** (k / (n - 1.)), ck.thorough)) for k in range(n)]
    values = (0., .02, .1, .5, .999) if ck.thorough else (0., .1, .5, .999)
    jobs += [('sampled', (first, 5, values)) for first in itertools.product(values, repeat=2)]
    jobs += [('electrons', None), ('boundary', None)]
    jobs += [('tables', (w, log, T, norm)) for w in range(4) for log in (True, False) for T, norm in ((1.5, 1.), (10.5, 1.), (10., 1.), (1.7, 3.), (10.4, .4))]
    jobs += [('together', (i, j, 4 if ck.thorough else 3)) for i, j in ((1, 1), (3, 1), (2, 3))]
    ck.shards(shard, jobs)
