"""P12: collision integrals. Every reaction of an alphabet (masses, statistics, in or out of equilibrium, spin states, matrix element,
kind, cosmological state, stepping mode) on the real integrals, against a direct evaluation of the Boltzmann collision term."""
import itertools
import math

import numpy

from checks.p11 import expansion, KERNELS
from mc.harness import environ, quiet

PROPERTY = 'P12'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the compiled integrator works to a relative accuracy of 1 %; 3 % of the gain or loss term alone is allowed',
               'adaptive quadrature of the GNU Scientific Library is replaced by a Gauss-Kronrod implementation with the same contract',
               'momentum grids reach far enough for what lies beyond to be negligible']
BOUNDS = {'quick': '9 four-particle mass patterns x 3 matrix elements x every crossing x {full, gain, loss, creation, decay, vacuum} kinds and 6 three-particle mass patterns x every crossing x kinds; statistics, spin states, equilibrium and cosmological states run through a covering set; momenta from zero to several temperatures; thermal balance and conservation on the outputs',
          'thorough': 'as quick with every kind for every pattern and all combinations of cosmological state, stepping mode and species pattern for three-particle reactions'}

TOL = 0.03
FULL, F_1, F_F, FULL_VAC, F_1_VAC, F_F_VAC, CREATION, DECAY = range(8)
NAMES = ['Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay']

# ---- kernels ---------------------------------------------------------------------------------------------------------


def kernel(name, q):
    """ vectorised defining integrals (exact, see P11) """
    brackets, extra = KERNELS[name]
    by_sign = {}
    for signs, powers, n, c in expansion(brackets):
        n += extra
        w = (2 * (1j ** n) * c / math.factorial(n - 1)).real
        by_sign.setdefault(signs, []).append((powers, n - 1, w))
    total = 0.
    for signs, terms in by_sign.items():
        if signs[0] < 0:
            continue                     # a -> -a gives the same contribution
        a = sum(s * x for s, x in zip(signs, q))
        sg = numpy.sign(a)
        for powers, n, w in terms:
            t = w * sg * a ** n
            for k, x in zip(powers, q):
                if k:
                    t = t * x
            total = total + 2 * t
    return total


def averaged(p, E, m, Ms, s):
    """ the matrix element averaged over angles, times 1/(p0 E0) """
    out = 0.
    cache = {}

    def k(name, *idx):
        if (name, idx) not in cache:
            cache[name, idx] = kernel(name, [p[i] for i in idx])
        return cache[name, idx]
    for M in Ms:
        i, j, kk, l = M['order']
        K1, K2, K = M.get('K1', 0.), M.get('K2', 0.), M.get('K', 0.)
        if K1:
            out = out + K1 * (E[0] * E[1] * E[2] * E[3] * k('D1', 0, 1, 2, 3) + s[0] * s[1] * s[2] * s[3] * k('D3', 0, 1, 2, 3)
                              + E[i] * E[j] * s[kk] * s[l] * k('D2', i, j, kk, l) + E[kk] * E[l] * s[i] * s[j] * k('D2', kk, l, i, j))
        if K2:
            out = out + K2 * m[i] * m[j] * (E[kk] * E[l] * k('D1', 0, 1, 2, 3) + s[kk] * s[l] * k('D2', i, j, kk, l))
        if K:
            out = out + K * k('D1', 0, 1, 2, 3)
    return out / (p[0] * E[0])


def functional(sides, etas, f, kind, mother):
    """ the statistical factor; f[0] enters linearly """
    gain_rest = loss_rest = 1.
    for i in range(1, len(f)):
        if sides[i] == 1:
            gain_rest = gain_rest * f[i]
            loss_rest = loss_rest * (1 - etas[i] * f[i])
        else:
            gain_rest = gain_rest * (1 - etas[i] * f[i])
            loss_rest = loss_rest * f[i]
    f0 = f[0]
    return {
        FULL: gain_rest * (1 - etas[0] * f0) - f0 * loss_rest,
        F_1: gain_rest,
        F_F: -loss_rest - etas[0] * gain_rest,
        FULL_VAC: f[mother] - f0 if mother else -f0,
        F_1_VAC: f[mother] if mother else 0 * gain_rest,
        F_F_VAC: -1. + 0 * gain_rest,
        CREATION: gain_rest * (1 - etas[0] * f0),
        DECAY: -loss_rest,
    }[kind]


class Occupation(object):
    """ reads like the code does: thermal, or exponential interpolation of samples """

    def __init__(self, grid, samples, m, eta, T, equilibrium):
        self.grid, self.samples, self.m, self.eta, self.T, self.equilibrium = grid, samples, m, eta, T, equilibrium

    def __call__(self, p):
        p = numpy.asarray(p, dtype=float)
        E = numpy.sqrt(p ** 2 + self.m ** 2)
        if self.equilibrium:
            return 1. / (numpy.exp(E / self.T) + self.eta)
        with numpy.errstate(all='ignore'):
            Eg = numpy.sqrt(self.grid ** 2 + self.m ** 2)
            i = numpy.clip(numpy.searchsorted(self.grid, p, side='right') - 1, 0, len(self.grid) - 2)
            g = numpy.log(1. / self.samples - self.eta)
            mix = ((E - Eg[i]) * g[i + 1] + (Eg[i + 1] - E) * g[i]) / (Eg[i + 1] - Eg[i])
            inner = 1. / (numpy.exp(mix) + self.eta)
            tail = self.samples[-1] * numpy.exp((Eg[-1] - E) / self.T)
        out = numpy.where(p > self.grid[-1], tail, inner)
        return numpy.where(numpy.isfinite(out), out, 0.)


GL_X, GL_W = numpy.polynomial.legendre.leggauss(6)


def composite(lo, hi, panels):
    """ Gauss points of equal panels between lo and hi (arrays) """
    edges = lo[..., None] + (hi - lo)[..., None] * numpy.linspace(0, 1, panels + 1)
    h = numpy.diff(edges, axis=-1) / 2
    c = (edges[..., 1:] + edges[..., :-1]) / 2
    return ((c[..., None] + h[..., None] * GL_X).reshape(lo.shape + (-1,)),
            (h[..., None] * GL_W).reshape(lo.shape + (-1,)))


def range_of_p2(E, P, m2, m3, creation, s=None):
    """ momenta of particle 2 when 0 and 1 leave energy E and momentum P: E2 E - c P p2 = A for some cosine c """
    s = E ** 2 - P ** 2 if s is None else s
    A = ((m3 ** 2 - m2 ** 2 - s) if creation else (s + m2 ** 2 - m3 ** 2)) / 2
    ok = (s >= 0) & (A ** 2 >= m2 ** 2 * s) & (A > 0)
    if creation:
        ok &= numpy.sqrt(numpy.maximum(s, 0)) + m2 <= m3
    else:
        ok &= numpy.sqrt(numpy.maximum(s, 0)) >= m2 + m3
    with numpy.errstate(all='ignore'):
        # p2 = (+-A P + E sqrt(A^2 - m2^2 s)) / s, with hi * lo = |A^2 - E^2 m2^2| / s; hi is infinite for s = 0
        q = E * numpy.sqrt(A ** 2 - m2 ** 2 * s) + A * P
        hi, lo = numpy.where(s > 0, q / numpy.where(s > 0, s, 1.), numpy.inf), numpy.abs(A ** 2 - E ** 2 * m2 ** 2) / q
    return numpy.where(ok, lo, numpy.inf), numpy.where(ok, hi, -numpy.inf)


def reference_4p(p0, reaction, Ms, kinds, limit, panels=16):
    """ (1/64 pi^3) int int dp1 dp2 p1/E1 p2/E2 D/(p0 E0) F in physical momenta; ({kind: value}, gain + loss) """
    m = [r['m'] for r in reaction]
    s = [r['side'] for r in reaction]
    etas = [r['f'].eta for r in reaction]
    E0 = math.sqrt(p0 ** 2 + m[0] ** 2)
    total = sum(s)
    creation = total == -2
    if total == 2:
        hi1 = math.sqrt(max((E0 - m[2] - m[3]) ** 2 - m[1] ** 2, 0.)) if E0 > m[1] + m[2] + m[3] else 0.
        p1, w1 = composite(numpy.array(0.), numpy.array(hi1), panels)
    else:
        edges = [0.] + [limit * (i / 36.) ** 1.5 for i in range(1, 37)]
        parts = [composite(numpy.array(a), numpy.array(b), 1) for a, b in zip(edges, edges[1:])]
        p1, w1 = (numpy.concatenate(x) for x in zip(*parts))
    E1 = numpy.sqrt(p1 ** 2 + m[1] ** 2)
    E = E0 - E1 if total == 2 else E0 + E1
    lo2, hi2 = numpy.full_like(p1, numpy.inf), numpy.full_like(p1, -numpy.inf)
    for t in (numpy.linspace(0, 1, 101) if p0 else (0.,)):
        P = numpy.abs(p0 - p1) * (1 - t) + (p0 + p1) * t
        a, b = range_of_p2(E, P, m[2], m[3], creation)
        lo2, hi2 = numpy.minimum(lo2, a), numpy.maximum(hi2, b)
    hi2 = numpy.minimum(hi2, numpy.maximum(limit, lo2 + limit / 3))
    some = hi2 > lo2
    if not some.any():
        return {k: 0. for k in kinds}, 0.
    p1, w1, E1, lo2, hi2 = (x[some] for x in (p1, w1, E1, lo2, hi2))
    p2, w2 = composite(lo2, hi2, panels)
    P1 = numpy.broadcast_to(p1[:, None], p2.shape)
    W = w1[:, None] * w2
    E1 = E1[:, None] + 0 * p2
    E2 = numpy.sqrt(p2 ** 2 + m[2] ** 2)
    E3 = -s[3] * (s[0] * E0 + s[1] * E1 + s[2] * E2)
    ok = E3 >= m[3]
    P3 = numpy.sqrt(numpy.maximum(E3 ** 2 - m[3] ** 2, 0.))
    p = [numpy.full_like(p2, p0), P1, p2, P3]
    E = [numpy.full_like(p2, E0), E1, E2, E3]
    if p0:
        big = numpy.maximum(numpy.maximum(p[0], p[1]), numpy.maximum(p[2], p[3]))
        ok &= 2 * big <= p[0] + p[1] + p[2] + p[3]
        D = averaged(p, E, m, Ms, s)
    else:
        D = averaged_at_rest(p, E, m, Ms, s)
    weight = numpy.where(ok, W * D * (P1 / E1) * (p2 / E2), 0.) / (64 * math.pi ** 3)
    f = [reaction[0]['f'](p0)] + [reaction[i]['f'](p[i]) for i in range(1, 4)]
    mother = 3 if creation else 0
    F = {kind: functional(s, etas, f, kind, mother) for kind in list(kinds) + [F_1, F_F]}
    return ({kind: float(numpy.sum(weight * F[kind])) for kind in kinds},
            float(numpy.sum(numpy.abs(weight * F[F_1]) + numpy.abs(weight * f[0] * F[F_F]))))


def averaged_at_rest(p, E, m, Ms, s):
    """ the limit of averaged() for a massive particle 0 at rest; all points are inside the kinematic region """
    out = 0.
    for M in Ms:
        i, j, k, l = M['order']
        K1, K2, K = M.get('K1', 0.), M.get('K2', 0.), M.get('K', 0.)
        pair, other = ((i, j), (k, l)) if 0 in (i, j) else ((k, l), (i, j))
        partner = sum(pair)
        b = lambda: kernel('Db2', [p[x] for x in (partner,) + tuple(other)])
        if K1:
            out = out + K1 * (E[1] * E[2] * E[3] + E[partner] * s[other[0]] * s[other[1]] * b())
        if K2 and 0 in (i, j):
            out = out + K2 * (m[partner] if m[0] else 0.) * (E[k] * E[l] + s[k] * s[l] * b())
        elif K2:
            out = out + K2 * m[i] * m[j] * E[partner]
        if K:
            out = out + (K / m[0] if m[0] else 0.)     # diverges for a massless particle: not compared
    return out


def reference_3p(p0, reaction, K, kinds, limit=None):
    m = [r['m'] for r in reaction]
    s = [r['side'] for r in reaction]
    etas = [r['f'].eta for r in reaction]
    E0 = math.sqrt(p0 ** 2 + m[0] ** 2)
    mother = 2 if sum(s) == -1 else 0
    if p0 == 0:
        if m[0] == 0:
            return {k: 0. for k in kinds}, 0.
        cm = math.sqrt(max((m[0] ** 2 - m[1] ** 2 - m[2] ** 2) ** 2 - 4 * m[1] ** 2 * m[2] ** 2, 0.)) / (2 * m[0])
        E1, E2 = math.hypot(cm, m[1]), math.hypot(cm, m[2])
        if abs(s[0] * m[0] + s[1] * E1 + s[2] * E2) > 1e-9 * (m[0] + E1 + E2):
            return {k: 0. for k in kinds}, 0.
        f = [numpy.array(reaction[0]['f'](reaction[0]['p0'])), reaction[1]['f'](cm), reaction[2]['f'](cm)]
        c = K * cm / (8 * math.pi * m[0] ** 2)
        return ({k: float(c * functional(s, etas, f, k, mother)) for k in kinds},
                float(c * (abs(functional(s, etas, f, F_1, mother)) + abs(f[0] * functional(s, etas, f, F_F, mother)))))
    lo, hi = range_of_p2(numpy.array(E0), numpy.array(p0), m[1], m[2], sum(s) == -1, numpy.array(m[0] ** 2))
    hi = numpy.minimum(hi, limit)
    if not hi > lo:
        return {k: 0. for k in kinds}, 0.
    p1, w = composite(lo, hi, 100)
    E1 = numpy.sqrt(p1 ** 2 + m[1] ** 2)
    E2 = -s[2] * (s[0] * E0 + s[1] * E1)
    P2 = numpy.sqrt(numpy.maximum(E2 ** 2 - m[2] ** 2, 0.))
    weight = w * p1 / E1 * K / (16 * math.pi * p0 * E0)
    f = [numpy.full_like(p1, reaction[0]['f'](reaction[0]['p0'])), reaction[1]['f'](p1), reaction[2]['f'](P2)]
    out = {k: float(numpy.sum(weight * functional(s, etas, f, k, mother))) for k in kinds}
    scale = float(numpy.sum(weight * (numpy.abs(functional(s, etas, f, F_1, mother)) + numpy.abs(f[0] * functional(s, etas, f, F_F, mother)))))
    return out, scale


# ---- exploration -----------------------------------------------------------------------------------------------------

# (statistics, spin states, own antiparticle, in equilibrium) of four species
SPECIES = [
    ((1, 1, 1, 1), (2, 4, 2, 3), (False, True, False, True), (0, 1, 0, 0)),
    ((1, -1, 1, -1), (4, 1, 2, 2), (False, True, True, False), (0, 0, 1, 0)),
    ((-1, 1, -1, 1), (3, 4, 6, 2), (True, False, False, False), (0, 0, 0, 1)),
    ((1, 1, 1, 1), (2, 2, 2, 2), (True, True, True, True), (1, 1, 0, 1)),
]
# (T / MeV, aT / MeV, H / MeV, logarithmic)
STATES = [(3.25, 1.3, 3.7e-3, True), (6., 1., 2e-2, False), (1.5, 2., 5e-5, True), (0.9, 0.7, 1e-6, False)]
MASSES4 = [(0., 0., 0., 0.), (0., .6, 0., .6), (0., 0., .6, .6), (.6, .6, 0., 0.), (10., 0., .3, .3), (8., 0., 0., 0.),
           (7., 3., 2., 1.), (.5, 6., .2, 0.), (1., 1., 1., 1.), (5., 0., 2., .3)]          # in units of the temperature
MASSES3 = [(10., 1., 2.), (6., 0., 0.), (5., 0., 3.), (5., 2., 2.9), (3., 1., 0.), (12., 6., .1)]
WEAK = 3e-22
# positive for every momenta: the masses in a term with K2 are bounded by the momenta in one with K1
ELEMENTS = [
    [dict(K1=3., order=(0, 1, 2, 3)), dict(K1=2., order=(0, 2, 1, 3)), dict(K2=1.5, order=(1, 3, 0, 2))],
    [dict(K1=1., order=(0, 2, 1, 3)), dict(K2=-.5, order=(0, 2, 1, 3)), dict(K1=1., order=(0, 1, 2, 3)), dict(K2=.7, order=(0, 1, 2, 3))],
    [dict(K=1e-3, order=(0, 1, 2, 3))],
]
SETTINGS = dict(MAX_MOMENTUM_MEV='100000', FOUR_PARTICLE_GRID_RESOLUTION='0.00001')


def build(masses, species, state, Ms, kind, n_in, samples=12, top=24., thermal=False, apart=None):
    """ species in a given cosmological state and the interaction that relates them; `apart` gives decoupled species the (reach of the grid,
        temperature) of their own, relative to the plasma """
    from common import Params, LinearSpacedGrid, UNITS
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.four_particle.cpp.integral import CollisionIntegralKind
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    from particles import Particle, STATISTICS
    T, aT, H, log = state
    MeV = UNITS.MeV
    params = Params(T=T * MeV, dy=0.01, dx=0.01 * MeV)
    params.a, params.aT, params.H = aT / T, aT * MeV, H * MeV
    params.x = params.a * MeV
    params.m = 1. * MeV
    parts = []
    etas, dofs, own, eq = species
    for i, m in enumerate(masses):
        # grids of different lengths and sizes
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=samples + i, MAX_MOMENTUM=((apart[i][0] if apart else top) + i) * aT * MeV)
        q = Particle(name='species {}'.format(i), symbol='abcd'[i], mass=m * T * MeV, dof=dofs[i], majorana=own[i],
                     statistics=STATISTICS.FERMION if etas[i] > 0 else STATISTICS.BOSON, grid=grid, Q=0,
                     decoupling_temperature=(1e-3 if eq[i] and not thermal else 1e6) * MeV, params=params)
        if thermal or not eq[i]:
            E = numpy.sqrt(grid.TEMPLATE ** 2 + (q.mass * params.a) ** 2) / params.aT
            x = E if thermal else E / (.8 + .1 * i) + .3 * i + .1
            if thermal and etas[i] < 0:
                x = x + 1e-3                         # a massless boson at rest
            q._distribution = 1. / (numpy.exp(x) + etas[i])
            if apart:
                q.aT = apart[i][1] * params.aT
        parts.append(q)
    four = len(masses) == 4
    scale = WEAK / MeV ** 4 if four else 1e-8 * (T * MeV) ** 2
    elements = []
    for M in Ms:
        M = dict(M)
        for k in ('K1', 'K2'):
            if k in M:
                M[k] *= scale
        if 'K' in M and not four:
            M['K'] *= scale
        elements.append((FourParticleM if four else ThreeParticleM)(**M))
    inter = CrossGeneratingInteraction(
        particles=(tuple(parts[:n_in]), tuple(parts[n_in:])),
        antiparticles=((False,) * n_in, (False,) * (len(masses) - n_in)), Ms=tuple(elements),
        integral_type=FourParticleIntegral if four else ThreeParticleIntegral,
        kind=getattr(CollisionIntegralKind, NAMES[kind]))
    return params, parts, inter


def describe(integral, a):
    out = []
    for item in integral.reaction:
        sp = item.specie
        out.append(dict(m=sp.mass, side=item.side,
                        f=Occupation(sp.grid.TEMPLATE / a, numpy.array(sp._distribution), sp.mass, int(sp.eta), sp.aT / a, bool(sp.in_equilibrium))))
    return out


def meaningful(kind, total):
    """ the vacuum kinds describe decays and the appearance of their products only """
    if kind == F_1_VAC:
        return total < 0
    if kind == F_F_VAC:
        return total > 0
    return True


def compare(ck, what, masses, species, state, Ms, kind, n_in, pick, own=None):
    params, parts, inter = build(masses, species, state, Ms, kind, n_in, samples=8 if len(masses) == 4 else 12, apart=own)
    a, log = params.a, state[3]
    short = [q for i, q in enumerate(parts) if own and own[i][0] < 20]
    for integral in inter.integrals:
        reaction = describe(integral, a)
        total = sum(r['side'] for r in reaction)
        if not meaningful(kind, total):
            continue
        # these are integrated over as far as their grid reaches
        followed = {0: [1], -2: [3], -1: [2]}.get(total, [])
        if any(integral.reaction[i].specie is q for i in followed for q in short):
            continue
        particle = integral.particle
        four = len(reaction) == 4
        spins = particle.dof if particle.majorana else particle.dof / 2.
        norm = 1. / spins / params.H / (1. if log else params.x)
        grid = particle.grid.TEMPLATE
        constant = four and any(M.K for M in integral.Ms)
        nodes = [i for i in pick if i < len(grid) and not (constant and i == 0 and not particle.mass)]
        want, scales = [], []
        Ks = [dict(order=M.order, K1=M.K1, K2=M.K2, K=M.K) if four else M.K for M in integral.Ms]
        for i in nodes:
            p0 = grid[i] / a
            reaction[0]['p0'] = p0
            if four:
                ref, scale = reference_4p(p0, reaction, Ks, [kind, F_1, F_F], 40 * params.T)
            else:
                ref, scale = reference_3p(p0, reaction, sum(Ks), [kind, F_1, F_F], 60 * params.T)
            want.append({k: v * norm for k, v in ref.items()})
            scales.append(scale * norm)
        with ck.case(what, str(integral), NAMES[kind], masses, species, state):
            integral.initialize()
            # a step large enough for the integrator to be asked for relative accuracy
            peak = max(scales if kind == FULL else [abs(w[kind]) for w in want]) or 1e-300
            step = 1e2 / peak
            before = [numpy.array(q._distribution) for q in parts]
            got = integral.integrate(grid, stepsize=step)
            ck.require(all((x == q._distribution).all() for x, q in zip(before, parts)), 'evaluating a collision integral changes no distribution')
            tol = TOL if four else 1e-2
            if kind in (FULL,):
                ck.require(len(got) == 2 and len(got[0]) == len(grid) == len(got[1]), 'one value per momentum')
                rate = max(abs(w[F_F]) for w in want)
                for n, i in enumerate(nodes):
                    f0 = float(reaction[0]['f'](grid[i] / a))
                    ck.close(got[0][i], want[n][kind], 'collision term', 0., tol * scales[n] + 1e-3 * peak, 'momentum', i)
                    if i == 9:
                        continue            # beyond the reach of the mothers' grid
                    ck.close(got[1][i], want[n][F_F], 'coefficient of the distribution in the collision term', tol, 1e-3 * peak + 1e-9 * rate, 'momentum', i)
            else:
                ck.require(numpy.shape(got) == (len(grid),), 'one value per momentum')
                for n, i in enumerate(nodes):
                    f0 = float(reaction[0]['f'](grid[i] / a)) if kind in (F_F, F_F_VAC, DECAY) else 1.
                    big = max(abs(w[kind]) for w in want)
                    ck.close(got[i], want[n][kind] * f0, 'collision term', tol, 1e-3 * big * f0, 'momentum', i)
            if not four or kind == F_F:
                again = integral.integrate(grid, stepsize=step)
                ck.require(numpy.array_equal(numpy.asarray(got), numpy.asarray(again)), 'evaluating twice gives the same')
        ck.trace()
        ck.state((what, str(integral), kind, masses, species, state))
        ck.outcome((total, kind, tuple(r['side'] for r in reaction)))
        if ck.broken:
            return


def accurate(integral, grid):
    """ the integral to the integrator's relative accuracy: the step is chosen long compared to the rate """
    rough = integral.integrate(grid, stepsize=1.)
    scale = numpy.max(numpy.abs(rough[-1] * integral.particle._distribution if numpy.ndim(rough) > 1 else rough))
    return integral.integrate(grid, stepsize=1e2 / scale) if scale else rough


def balance(ck, masses, species, state, Ms, n_in):
    """ all species thermal at one temperature: gain and loss cancel """
    params, parts, inter = build(masses, species, state, Ms, FULL, n_in, samples=10, thermal=True)
    for integral in inter.integrals:
        with ck.case('thermal balance', str(integral), masses, species, state):
            integral.initialize()
            grid = integral.particle.grid.TEMPLATE
            C, B = accurate(integral, grid)
            f = integral.particle._distribution
            loss = numpy.abs(B * f)
            # the distribution of a heavy species is interpolated in energy: exact for thermal ones
            ck.require(numpy.all(numpy.abs(C) <= 0.02 * loss + 1e-3 * loss.max()), 'equilibrium is stationary', float(numpy.max(numpy.abs(C) / (loss + 1e-12 * loss.max() + 1e-300))))
        ck.trace()


def conservation(ck, masses, species, state, Ms, n_in):
    """ what one species loses the others gain: numbers weighted by spin states """
    four = len(masses) == 4
    for kinds in ((FULL, FULL), (DECAY, CREATION), (F_F_VAC, F_1_VAC)):
        lost, gained, energy = {}, {}, 0.
        with ck.case('conservation', masses, species, state, NAMES[kinds[0]]):
            for kind in set(kinds):
                params, parts, inter = build(masses, species, state, Ms, kind, n_in, samples=45, top=30.)
                for integral in inter.integrals:
                    sides = [item.side for item in integral.reaction]
                    if sum(sides) == 0:
                        continue
                    decay = sum(sides) > 0
                    if kind != (kinds[0] if decay else kinds[1]):
                        continue
                    if kind in (DECAY, CREATION):
                        continue                      # Pauli factors of the products differ between the two; see FULL
                    q = integral.particle
                    integral.initialize()
                    grid = q.grid.TEMPLATE
                    out = accurate(integral, grid)
                    C = out[0] if kind == FULL else out
                    spins = q.dof if q.majorana else q.dof / 2.
                    number = spins * numpy.trapz(grid ** 2 * C, grid)
                    (lost if decay else gained)[q.symbol] = number
            for s1, n1 in gained.items():
                for s0, n0 in lost.items():
                    ck.close(n1, -n0, 'a decay creates as many of each product as it destroys mothers', 0.05, 0., s1, s0, NAMES[kinds[0]])
        ck.trace()


def shard(ck, arg):
    with environ(LOGARITHMIC_TIMESTEP='1' if arg[-1][3] else '', **SETTINGS), quiet():
        kind = arg[0]
        if kind == 'four':
            _, masses, species, Ms, k, state = arg
            compare(ck, 'four particles', masses, species, state, Ms, k, 2, (0, 1, 2, 4))
        elif kind == 'three':
            _, masses, species, k, state = arg
            compare(ck, 'three particles', masses, tuple(x[:3] for x in species), state, [dict(K=2.), dict(K=.5)], k, 1, (0, 1, 2, 5, 9))
        elif kind == 'tails 4':
            _, masses, species, Ms, k, state, own = arg[:-1]
            compare(ck, 'beyond the grids', masses, species, state, Ms, k, 2, (0, 1, 2, 4), own)
        elif kind == 'tails 3':
            _, masses, species, k, state, own = arg[:-1]
            compare(ck, 'beyond the grids', masses, tuple(x[:3] for x in species), state, [dict(K=2.), dict(K=.5)], k, 1, (0, 1, 2, 5, 8), own)
        elif kind == 'balance':
            _, masses, species, Ms, state = arg
            balance(ck, masses, species, state, Ms, 2 if len(masses) == 4 else 1)
        else:
            _, masses, species, Ms, state = arg
            conservation(ck, masses, species, state, Ms, 2 if len(masses) == 4 else 1)


def explore(ck, tier):
    args, n = [], 0
    kinds4 = [FULL, CREATION, DECAY, F_1, F_F, F_1_VAC, F_F_VAC]
    for masses in MASSES4:
        heavy = sum(masses) > 5
        for e, Ms in enumerate(ELEMENTS):
            for k in kinds4:
                n += 1
                if k in (F_1_VAC, F_F_VAC) and not heavy:
                    continue
                if not ck.thorough and k != FULL and (n + e) % 3:
                    continue
                args.append(('four', masses, SPECIES[(n + e) % 4], Ms, k, STATES[(n // 4 + n) % 4]))
    for masses in MASSES3:
        for sp in SPECIES:
            for st in STATES:
                for k in kinds4:
                    n += 1
                    if ck.thorough or (n % 7 == 0) or k == FULL:
                        args.append(('three', masses, sp, k, st))
    # decoupled species with temperatures of their own and grids that end early
    decoupled = [s[:3] + ((0, 0, 0, 0),) for s in SPECIES]
    hot = (.9, .6, .75, .5)
    for r, reach in enumerate([(24., 24., 3., 3.), (24., 3., 24., 3.), (3., 24., 3., 24.), (24., 2., 2., 2.)]):
        own = tuple(zip(reach, hot[r:] + hot[:r]))
        for i, masses in enumerate(MASSES4):
            for k in (F_1, F_F, CREATION, FULL):
                n += 1
                if ck.thorough or (i + r) % 4 == 0 and (n + i) % 2 == 0:
                    args.append(('tails 4', masses, decoupled[n % 3], ELEMENTS[n % 2], k, STATES[n % 4], own, STATES[n % 4]))
        if reach[0] > 20:
            for i, masses in enumerate(MASSES3):
                for k in (F_1, F_F, FULL):
                    n += 1
                    args.append(('tails 3', masses, decoupled[n % 3], k, STATES[n % 4], own[:3] if r else tuple(zip((24., 2., 2.5), hot)), STATES[n % 4]))
    for st in STATES[:2]:
        args += [('balance', m, SPECIES[i % 2], ELEMENTS[i % 2], st) for i, m in enumerate(MASSES4) if ck.thorough or i % 2 == 0]
        args += [('balance', m, tuple(x[:3] for x in SPECIES[i % 2]), [dict(K=1.)], st) for i, m in enumerate(MASSES3)]
        args += [('conservation', m, tuple(x[:3] for x in SPECIES[i % 3]), [dict(K=1.)], st) for i, m in enumerate(MASSES3)]
        args += [('conservation', m, SPECIES[i % 3], ELEMENTS[0], st) for i, m in enumerate(MASSES4[4:7])]
    ck.count('configurations', len(args))
    args.sort(key=lambda a: a[0] not in ('conservation', 'balance'))
    ck.shards(shard, args)
