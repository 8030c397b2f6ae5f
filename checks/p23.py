"""P23: how a sterile neutrino is set up. A lattice of masses (with both sides of every threshold), mixing angles and settings against the published
formulas; all short sequences of questions about different sterile neutrinos; what the answer does to their reactions."""
import itertools
import math

import numpy

from checks import p14
from mc.harness import environ, quiet

PROPERTY = 'P23'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['masses of 0.6 MeV to 3 GeV, at least 1e-9 away from the threshold of a decay', 'mixing angles between 1e-9 and 1']
BOUNDS = {'quick': '205 masses x 9 mixing angles x 18 settings; all sequences of 3 questions of 8 kinds about 6 sterile neutrinos, each followed by their reactions at 7 temperatures',
          'thorough': '2005 masses x 17 mixing angles x 18 settings; sequences of 4 questions'}

M_P, G_F = 1.2209e22, 1.166e-11
MU, PI0, PI, K, K0, QCD = 105.658, 134.98, 139.57, 493.677, 497.611, 150.
NEUTRAL = [PI0, PI, 547.86, 775.11, 782.65, 957.78, 1019.46]
ALL = [PI0, PI, K, K0, 547.86, 775.11, 782.65, 957.78, 1019.46]
WIDTH = math.sqrt(3 - 8 / math.pi)                  # spread of momenta of the neutrino at decoupling


def decoupling(m, theta):
    """ (temperature, is it relativistic) """
    g = 61.75 if m > QCD else 14.25 if m > MU else 10.75
    T = (1.66 * math.sqrt(g) / (M_P * G_F ** 2 * theta ** 2)) ** (1. / 3)
    if T > m:
        return 1.5 * T, True
    return (1.5 * m if 1.5 * T >= m else m), False


def below(masses, m):
    return max([x for x in masses if x < m])


def momentum(m, a, b):
    return math.sqrt((m ** 2 - (a + b) ** 2) * (m ** 2 - (a - b) ** 2)) / (2 * m)


def spread(E, p, m, M):
    """ momenta of a daughter of mass m between both ends of the spread of the mother """
    lo = (E - p) ** 2 - m ** 2
    return math.sqrt((E + p) ** 2 - m ** 2) - math.sqrt(lo) if lo > 0 else None


def resolution(what, m, res, std=False):
    near = m > MU and m - MU < 10
    if what == 'HNL':
        return WIDTH
    if what == 'neutrino':
        if m < PI0:
            return res / 2 if near else res
        return min(1.5 * momentum(m, 0, below(NEUTRAL, m)) * WIDTH / m, res / 3)
    if what == 'meson':
        if m < PI0:
            return res
        X = below(ALL, m)
        p = momentum(m, 0, X)
        d = spread(math.sqrt(p ** 2 + X ** 2), WIDTH * p / m, X, m)
        return min((d if d else res / 3) / 3, res)
    if m < PI or std:
        return res / 2 if near else res
    p = momentum(PI, 0, MU)
    return min(spread(math.sqrt(p ** 2 + MU ** 2), .67 * math.sqrt(PI * .5) * p / PI, MU, PI), res)


def top(what, m, theta, scale, usual, std=False):
    """ largest momentum """
    if what == 'HNL':
        return math.sqrt((100 * math.log(10)) ** 2 - (m / decoupling(m, theta)[0]) ** 2)
    if what == 'neutrino':
        return m * scale
    if what == 'meson':
        return usual if m < PI0 else 10. * scale if m - PI0 < .35 else math.sqrt(m ** 2 - PI0 ** 2) * scale
    return m * scale if m < MU or std else 10. * scale if m - MU < .35 else math.sqrt(m ** 2 - MU ** 2) * scale


def real(what):
    from common import kinematics
    return getattr(kinematics, 'grid_resolution_' + what), getattr(kinematics, 'grid_params_' + what)


def formulas(ck, arg):
    masses, angles = arg
    from common import UNITS, kinematics
    MeV = UNITS.MeV
    settings = list(itertools.product((None, '5', '12.5'), (None, '.1', '20'), (None, '60')))
    with quiet():
        for scale, res, usual in settings:
            if scale == '12.5':
                scale = '12'
            with environ(MAX_SCALE_FACTOR=scale, FOUR_PARTICLE_GRID_RESOLUTION=res, MAX_MOMENTUM_MEV=usual, Relativistic_decoupling=None):
                s, r, u = float(scale or 10), float(res or .24999), float(usual or 100)
                for m, theta in itertools.product(masses, angles):
                    if ck.broken:
                        return
                    with ck.case('sterile neutrino', m, theta, s, r, u):
                        T, rel = decoupling(m, theta)
                        ck.close(kinematics.decoupling_temperature(m * MeV, theta) / MeV, T, 'temperature of decoupling', 1e-9)
                        for what in ('HNL', 'neutrino', 'meson', 'lepton'):
                            for std in ((False, True) if what == 'lepton' else (False,)):
                                kw = dict(std=True) if std else {}
                                want, high = resolution(what, m, r, std), top(what, m, theta, s, u, std)
                                if want < 1e-9:
                                    continue
                                f, g = real(what)
                                got = f(m * MeV, theta, **kw) / MeV
                                # differences of large numbers close to a threshold
                                ck.close(got, want, 'resolution for ' + what, 1e-5 if what == 'meson' else 1e-8, 0, std)
                                samples, end = g(m * MeV, theta, **kw)
                                ck.close(end / MeV, high, 'largest momentum for ' + what, 1e-8, 0, std)
                                ck.require(isinstance(samples, (int, numpy.integer)) and (samples >= 2 or high / want < 3), 'samples', what, samples)
                                ck.require(abs(samples - high / want) <= 1 + 1e-4 * samples, 'samples as dense as the resolution for ' + what, samples, high / want)
                                if what != 'HNL':
                                    ck.require(got <= r * (1 + 1e-9), 'at least the configured resolution', what, got)
                                    if what == 'meson' and m > PI0 + .001:
                                        p = momentum(m, PI0, 0)
                                        ck.require(high >= min(p * s, 10 * s) * (1 - 1e-9), 'products of decays at rest are inside')
                    ck.state((m, theta, s, r, u))
                    ck.outcome((rel, m > MU, m > PI0, m > QCD))


KNOWN = [(1., 1e-3), (40., 1e-7), (120., 1e-4), (150., 1e-2), (300., .3), (500., 1e-6)]


def questions(ck, arg):
    """ sequences of questions: an answer does not depend on the earlier ones """
    first, depth = arg
    from common import UNITS, kinematics
    MeV = UNITS.MeV
    asks = [('decoupling', i) for i in range(6)] + [('HNL', i) for i in (0, 4)] + [('relativistic', 1), ('relativistic', 4), ('neutrino', 5), ('meson', 1)]
    with quiet():
        for word in itertools.product(asks, repeat=depth - 1):
            word = (asks[first],) + word
            with environ(Relativistic_decoupling=None, LOGARITHMIC_TIMESTEP='1', MAX_MOMENTUM_MEV='100', FOUR_PARTICLE_GRID_RESOLUTION='0.001'):
                with ck.case('questions', word):
                    last = None
                    for what, i in word:
                        m, theta = KNOWN[i]
                        if what == 'decoupling':
                            ck.close(kinematics.decoupling_temperature(m * MeV, theta) / MeV, decoupling(m, theta)[0], 'temperature of decoupling', 1e-9)
                            last = i
                        elif what == 'relativistic':
                            kinematics.decoupling_temperature_relativistic(m * MeV, theta)
                        else:
                            ck.close(real(what)[1](m * MeV, theta)[1] / MeV, top(what, m, theta, 10., 100.), 'largest momentum', 1e-8, 0, what)
                            if what == 'HNL':
                                last = i
                    if last is None or ck.broken:
                        continue
                    T_dec, rel = decoupling(*KNOWN[last])
                    for T in (.5, 1.01, T_dec / 20, T_dec / 15.01, T_dec / 14.99, T_dec / 2, T_dec / 1.01):
                        if T < .4:
                            continue
                        w = p14.World(T=T, aT=1.)
                        w.params.a_ini = w.params.m / w.MeV / T_dec
                        sp = [w.species(0. if i else KNOWN[last][0] / T, symbol='abcd'[i], name=p14.STERILE if i == 0 else 's%d' % i) for i in range(4)]
                        _, out = p14.run(w.integral(sp, p14.SIDES4['scattering'], p14.FULL), True)
                        skip = T < 1 or rel and T < T_dec / 15
                        ck.require(p14.zero(out) == bool(skip), 'scattering of this sterile neutrino ends when it has decoupled: relativistically at 1/15 of the temperature of decoupling, else at 1 MeV',
                                   T, T_dec, p14.zero(out))
                ck.state(('questions', word))
                ck.trace()


def shard(ck, arg):
    {'formulas': formulas, 'questions': questions}[arg[0]](ck, arg[1])


def explore(ck, tier):
    n = 2001 if ck.thorough else 141
    masses = [.6 * (3000. / .6) ** (k / (n - 1.)) for k in range(n)]
    masses += [m * (1 + e) for m in ALL + [MU, QCD] for e in (-1e-3, -1e-8, 1e-3, 2e-2)] + [MU + x for x in (.3499, .3501, 9.99, 10.01)] + [PI0 + x for x in (.01, .3499, .3501)] + [
        1., 5., 10., 20., 50., 100., 150., 200., 250., 300., 400., 450., 1000.]
    k = 17 if ck.thorough else 9
    angles = [10. ** (-9 + 9. * i / (k - 1)) for i in range(k)]
    jobs = [('questions', (f, 4 if ck.thorough else 3)) for f in range(12)]
    jobs += [('formulas', (masses[i::24], angles)) for i in range(24)]
    ck.shards(shard, jobs)
