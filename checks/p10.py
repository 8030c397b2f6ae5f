"""P10: the library of processes. Every selection of species and every pattern of mixing the library can be asked for,
against conservation laws, published matrix elements and widths, lifetimes and branching ratios."""
import functools
import itertools
import math
from collections import Counter

import numpy

from checks.p09 import agree, polynomial, symmetrised
from mc.harness import quiet

PROPERTY = 'P10'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['widths of meson decays agree with branching ratio / lifetime to 3.5 % (the accuracy of the tabulated constants)',
               'sterile widths are compared for the Dirac species, per helicity state, with the literature formulas',
               'tables are compared with published values to the printed accuracy (masses 0.2 %, lifetimes 3 %)']
BOUNDS = {'quick': 'all ordered selections of neutrinos x leptons (15 x 15); the 8 kinds of collision integral; all 7 mixing patterns x 5 masses x 2 sterile kinds x all lepton selections; all 2^11 subsets of primary mesons; all 18 quark pairs; primary channels x decay-product options',
          'thorough': 'as quick, with subsets of primary mesons in both orders and all 8 kinds of collision integral'}

MESONS = ['neutral_pion', 'charged_pion', 'charged_kaon', 'kaon_long', 'kaon_short', 'eta', 'neutral_rho', 'charged_rho', 'omega', 'eta_prime', 'phi']
# name: (mass / MeV, charge, degrees of freedom, own antiparticle, fermion, lifetime / s)
PUBLISHED = {
    'Photon': (0., 0, 2, True, False, None), 'Gluon': (0., 0, 16, True, False, None),
    'Neutron': (939.565, 0, 4, False, True, None), 'Proton': (938.272, 1, 4, False, True, None),
    'Neutral pion': (134.977, 0, 1, True, False, 8.52e-17), 'Charged pion': (139.570, -1, 2, False, False, 2.6033e-8),
    'Charged kaon': (493.677, -1, 2, False, False, 1.238e-8), 'Kaon long': (497.611, 0, 1, True, False, 5.116e-8),
    'Kaon short': (497.611, 0, 1, True, False, 8.954e-11), 'Eta': (547.862, 0, 1, True, False, 5.02e-19),
    'Charged rho': (775.11, -1, 6, False, False, 4.41e-24), 'Neutral rho': (775.49, 0, 3, True, False, 4.41e-24),
    'Omega': (782.65, 0, 3, True, False, 7.75e-23), 'Eta prime': (957.78, 0, 1, True, False, 3.36e-21), 'Phi': (1019.46, 0, 3, True, False, 1.55e-22),
    'Electron neutrino': (0., 0, 2, False, True, None), 'Muon neutrino': (0., 0, 2, False, True, None), 'Tau neutrino': (0., 0, 2, False, True, None),
    'Electron': (0.51099, -1, 4, False, True, None), 'Muon': (105.658, -1, 4, False, True, 2.197e-6), 'Tau': (1776.86, -1, 4, False, True, 2.903e-13),
    'Up quark': (2.2, 2. / 3, 12, False, True, None), 'Down quark': (4.7, -1. / 3, 12, False, True, None), 'Charm quark': (1280., 2. / 3, 12, False, True, None),
    'Strange quark': (96., -1. / 3, 12, False, True, None), 'Top quark': (173100., 2. / 3, 12, False, True, None), 'Bottom quark': (4180., -1. / 3, 12, False, True, None),
}
FLAVOUR = {'Electron neutrino': 'e', 'Electron': 'e', 'Muon neutrino': 'm', 'Muon': 'm', 'Tau neutrino': 't', 'Tau': 't'}
G_R = 0.2312


def species():
    from common import UNITS, LinearSpacedGrid
    from library.SM import particles as P
    from particles import Particle
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=3 * UNITS.MeV)
    out = {'photon': Particle(grid=grid, **P.photon), 'gluon': Particle(grid=grid, **P.gluon)}
    for family in (P.hadrons, P.leptons, P.quarks):
        for k, v in vars(family).items():
            if isinstance(v, dict) and 'name' in v:
                out[k] = Particle(grid=grid, **v)
    return out


def sterile(kind, mass, theta):
    from common import UNITS, LinearSpacedGrid
    from library.NuMSM import particles as P
    from particles import Particle
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=3 * UNITS.MeV)
    make = P.dirac_sterile_neutrino if kind == 'dirac' else P.sterile_neutrino
    return Particle(grid=grid, **make(mass=mass * UNITS.MeV, mixing_angle=theta))


def conserved(ck, integral):
    """ charge in every reaction; lepton family numbers among the known species, total lepton number with a Dirac sterile one """
    q, families, total, has_sterile, majorana_sterile = 0., Counter(), 0, False, False
    for item in integral.reaction:
        sign = (-1 if item.antiparticle else 1) * item.side
        name = item.specie.name
        if name in PUBLISHED:
            q += sign * PUBLISHED[name][1]
        if name in FLAVOUR:
            families[FLAVOUR[name]] += sign
            total += sign
        if 'Sterile' in name:
            has_sterile = True
            majorana_sterile |= bool(item.specie.majorana)
            total += sign
    text = [(i.side, i.specie.name, bool(i.antiparticle)) for i in integral.reaction]
    ck.require(abs(q) < 1e-9, 'electric charge is conserved', text, q)
    if not has_sterile:
        ck.require(not any(families.values()), 'lepton family numbers are conserved', text)
    elif not majorana_sterile:
        ck.require(total == 0, 'lepton number is conserved', text)
    ms = [i.specie.mass for i in integral.reaction]
    sides = [i.side for i in integral.reaction]
    for lone in (-1, 1):
        if sides.count(lone) == 1:
            ck.require(ms[sides.index(lone)] > sum(m for m, s in zip(ms, sides) if s != lone), 'a decay is kinematically possible', text)


def key(integral):
    return (integral.particle.symbol, tuple(sorted(i.specie.symbol for i in integral.reaction if i.side == -1)),
            tuple(sorted(i.specie.symbol for i in integral.reaction if i.side == 1)))


def total_polynomials(ck, interactions, unit):
    """ {reaction: summed matrix element on canonical positions, in units of `unit`} over all interactions """
    out = {}
    for inter in interactions:
        for integral in inter.integrals:
            conserved(ck, integral)
            slots = [(i.side, i.specie.symbol) for i in integral.reaction]
            p = polynomial(integral.Ms, slots)
            acc = out.setdefault(key(integral), {})
            for t, c in p.items():
                acc[t] = acc.get(t, 0.) + c / unit
    return out


def canonical_terms(first, left, right, terms):
    """ terms given with letters for the particles of the reaction written as first + left -> right """
    slots = [(-1, first)] + [(-1, s) for s in left] + [(1, s) for s in right]
    order = [0] + sorted(range(1, 4), key=lambda i: slots[i])
    where = {old: new for new, old in enumerate(order)}
    out = {}
    for (kind, a, b), c in terms.items():
        t = (kind, tuple(where[i] for i in a), tuple(where[i] for i in b))
        out[t] = out.get(t, 0.) + c
    return symmetrised(out, [('first',)] + [slots[i] for i in order[1:]])


def standard(neutrinos, leptons):
    """ Published table (in units of 32 G_F^2), particles and antiparticles of a species added: 0 + 1 -> 2 + 3 """
    s, t, u = ((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))
    out = {}

    def put(first, left, right, terms):
        out[(first, tuple(sorted((first,) + tuple(left))), tuple(sorted(right)))] = canonical_terms(first, left, right, terms)
    for a in neutrinos:
        put(a, (a,), (a, a), {('p',) + s: 2., ('p',) + u: 4.})
        for b in neutrinos:
            if a != b:
                put(a, (b,), (a, b), {('p',) + s: 1., ('p',) + u: 1.})
                put(a, (a,), (b, b), {('p',) + u: 1.})
        for l in leptons:
            g = G_R + 0.5 if {'ν_e': 'e', 'ν_μ': 'μ', 'ν_τ': 'τ'}[a] == l else G_R - 0.5
            # nu nubar -> l l+;   nu l -> nu l  and  nu l+ -> nu l+
            put(a, (a,), (l, l), {('p',) + u: 4 * g**2, ('p',) + t: 4 * G_R**2, ('m', (2, 3), (0, 1)): 4 * g * G_R})
            put(a, (l,), (a, l), {('p',) + s: 4 * (g**2 + G_R**2), ('p',) + u: 4 * (g**2 + G_R**2), ('m', (1, 3), (0, 2)): -8 * g * G_R})
            put(l, (l,), (a, a), {('p',) + u: 4 * g**2, ('p',) + t: 4 * G_R**2, ('m', (0, 1), (2, 3)): 4 * g * G_R})
            put(l, (a,), (l, a), {('p',) + s: 4 * (g**2 + G_R**2), ('p',) + u: 4 * (g**2 + G_R**2), ('m', (0, 2), (1, 3)): -8 * g * G_R})
    return out


def selections(items):
    return [p for k in range(1, len(items) + 1) for p in itertools.permutations(items, k)]


KINDS = ('Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation', 'F_decay')


def of_kind(ck, asked, plain, want):
    """ the same reactions, every one of the kind that was asked for """
    a, b = [i for x in asked for i in x.integrals], [i for x in plain for i in x.integrals]
    ck.require(Counter(map(key, a)) == Counter(map(key, b)), 'the kind of integral does not change the reactions')
    for i in a:
        ck.require(i.kind == want(i), 'integrals are of the kind that was asked for', str(i), str(i.kind))


def weak(ck, arg):
    from common import CONST
    from library.SM import interactions as I
    S = species()
    unit = 32 * CONST.G_F**2
    _, nus = arg
    for leps in [()] + selections(['electron', 'muon', 'tau']):
        with ck.case('neutrino interactions', nus, leps):
            N, L = [S[n] for n in nus], [S[l] for l in leps]
            got = total_polynomials(ck, I.neutrino_interactions(leptons=L, neutrinos=N), unit)
            want = standard([n.symbol for n in N], [l.symbol for l in L])
            ck.require(set(got) == set(want), 'reactions of the neutrinos', sorted(set(want) ^ set(got)))
            for k in got:
                agree(ck, got[k], want[k], k)
            ck.state(('weak', nus, leps))
            ck.trace()
            ck.outcome(tuple(sorted(want)))
        with ck.case('charged current', nus, leps):
            inters = I.lepton_interactions(leptons=L, neutrinos=N)
            got = total_polynomials(ck, inters, unit)
            flav = {'Electron neutrino': 'Electron', 'Muon neutrino': 'Muon', 'Tau neutrino': 'Tau'}
            pairs = [(a, b) for a in L for b in L if a is not b and any(flav[n.name] == a.name for n in N) and any(flav[n.name] == b.name for n in N)]
            nu = {flav[n.name]: n for n in N}
            decays = {}
            for a, b in pairs:
                if a.mass > b.mass:
                    # a -> nu_a b nubar_b: 128 G_F^2 (a . nubar_b)(b . nu_a)
                    k = (a.symbol, (a.symbol,), tuple(sorted((nu[a.name].symbol, b.symbol, nu[b.name].symbol))))
                    slots = [(-1, a.symbol), (1, nu[a.name].symbol), (1, b.symbol), (1, nu[b.name].symbol)]
                    order = [0] + sorted((1, 2, 3), key=lambda i: slots[i])
                    where = {o: n for n, o in enumerate(order)}
                    terms = {('p', (where[0], where[3]), (where[1], where[2])): 4.}
                    decays[k] = symmetrised(terms, [('first',)] + [slots[i] for i in order[1:]])
            mine = {k: v for k, v in got.items() if len(k[1]) == 1}
            ck.require(set(mine) == set(decays), 'leptonic decays', sorted(set(mine) ^ set(decays)))
            for k in mine:
                agree(ck, mine[k], decays[k], k)
                creation = [c for c in got if len(c[2]) == 1 and c[1] == k[2] and c[2] == k[1]]
                ck.require(sorted(c[0] for c in creation) == sorted(k[2]), 'every product of a leptonic decay is followed', k, creation)
            ck.state(('cc', nus, leps))
            ck.trace()
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    for leps, kind in itertools.product((('electron',), ('tau', 'electron'), ('electron', 'muon', 'tau')), KINDS):
        with ck.case('kind of weak interactions', nus, leps, kind):
            N, L = [S[n] for n in nus], [S[l] for l in leps]
            for build in (I.neutrino_interactions, I.lepton_interactions):
                of_kind(ck, build(leptons=L, neutrinos=N, kind=getattr(Kind, kind)), build(leptons=L, neutrinos=N), lambda i: getattr(Kind, kind))
            ck.state(('weak kind', nus, leps, kind))
            ck.trace()


def lam(a, b, c):
    return max(0., (a - b - c)**2 - 4 * b * c)


@functools.lru_cache(None)
def phase_space(M, masses):
    if len(masses) == 2:
        return math.sqrt(lam(M**2, masses[0]**2, masses[1]**2)) / (8 * math.pi * M**2)
    a, b, c = masses
    # s = substitution that removes the square-root end points
    x, w = numpy.polynomial.legendre.leggauss(400)
    lo, hi = (a + b)**2, (M - c)**2
    phi = (x + 1) * math.pi / 4
    s = lo + (hi - lo) * numpy.sin(phi)**2
    ds = (hi - lo) * 2 * numpy.sin(phi) * numpy.cos(phi) * math.pi / 4
    f = numpy.sqrt(numpy.maximum(0, (M**2 - s - c**2)**2 - 4 * s * c**2)) * numpy.sqrt(numpy.maximum(0, (s - a**2 - b**2)**2 - 4 * a**2 * b**2)) / s
    return float(numpy.sum(w * ds * f)) / (128 * math.pi**3 * M**2)


def closure(primary):
    """ mesons whose decays follow from the primary ones: daughters of daughters """
    D = {'neutral_pion': [], 'charged_pion': [], 'charged_kaon': ['charged_pion', 'neutral_pion'], 'kaon_long': ['charged_pion', 'neutral_pion'],
         'kaon_short': ['charged_pion', 'neutral_pion'], 'eta': ['charged_pion', 'neutral_pion'], 'neutral_rho': ['charged_pion'],
         'charged_rho': ['charged_pion', 'neutral_pion'], 'omega': ['charged_pion', 'neutral_pion'],
         'eta_prime': ['neutral_rho', 'eta', 'charged_pion', 'neutral_pion'],
         'phi': ['neutral_rho', 'charged_kaon', 'kaon_long', 'kaon_short', 'neutral_pion', 'charged_pion']}
    out, todo = set(), list(primary)
    while todo:
        m = todo.pop()
        if m not in out:
            out.add(m)
            todo += D[m]
    return out


CHANNELS = {'neutral_pion': ['γγ'], 'charged_pion': ['μ ν_μ'], 'charged_kaon': ['e ν_e π0', 'π π π', 'μ ν_μ', 'π π0'],
            'kaon_long': ['e ν_e π', 'μ ν_μ π', 'π0 π0 π0', 'π π π0'], 'kaon_short': ['π π', 'π0 π0'], 'eta': ['γ γ', 'π0 π0 π0', 'π π π0', 'γ π π'],
            'neutral_rho': ['π π'], 'charged_rho': ['π π0'], 'omega': ['π π π0', 'γ π0'], 'eta_prime': ['η π π', 'η π0 π0', 'γ ρ0'],
            'phi': ['K K', 'K0L K0S', 'π0 ρ0']}
CHANNELS['neutral_pion'] = ['γ γ']
SPIN = {'neutral_rho': 3, 'charged_rho': 3, 'omega': 3, 'phi': 3}


def branching(specie, symbols):
    found = [v for k, v in specie.BR.items() if Counter(k) == Counter(''.join(symbols))]
    return found


def mesons(ck, arg):
    _, subsets, kinds = arg
    from library.SM import interactions as I
    from common import utils
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    S = species()
    order = [S[m] for m in MESONS]
    for subset in subsets:
        for kind in kinds:
            if ck.broken:
                return
            with ck.case('decays of mesons', subset, kind):
                inters = I.meson_interactions(primary_mesons=[S[m] for m in subset], mesons=order, leptons=[S['electron'], S['muon']],
                                              neutrinos=[S['neutrino_e'], S['neutrino_mu']], photon=[S['photon']], muon_tau=[1, 0],
                                              kind=getattr(Kind, kind) if kind else None)
                decays, creations = Counter(), {}
                width = {}
                for inter in inters:
                    for integral in inter.integrals:
                        conserved(ck, integral)
                        ck.require(integral.kind == (getattr(Kind, kind) if kind else Kind.Full), 'kind of a decay', str(integral))
                        t = utils.reaction_type(integral)
                        if t.DECAY and integral.particle.name in ('Muon', 'Tau'):
                            continue
                        if t.DECAY:
                            prods = tuple(sorted(i.specie.symbol for i in integral.reaction if i.side == 1))
                            decays[(integral.particle.symbol, prods)] += 1
                            m = integral.particle.mass
                            ms = tuple(i.specie.mass for i in integral.reaction if i.side == 1)
                            width[(integral.particle.symbol, prods)] = sum(M.K for M in integral.Ms) * phase_space(m, ms) / (2 * m) * integral.particle.lifetime
                        elif t.CREATION:
                            creations.setdefault((integral.reaction[-1].specie.symbol, tuple(sorted(i.specie.symbol for i in integral.reaction[:-1]))), []).append(integral.particle.symbol)
                want = Counter((S[m].symbol, tuple(sorted(c.split()))) for m in closure(subset) for c in CHANNELS[m])
                ck.require(decays == want, 'every decay of every meson involved appears exactly once', sorted((want - decays)), sorted((decays - want)))
                back = {S[m].symbol: m for m in MESONS}
                for (mother, prods), value in width.items():
                    br = branching(S[back[mother]], prods)
                    ck.require(len(br) == 1, 'a branching ratio for every channel', mother, prods)
                    ck.close(value / SPIN.get(back[mother], 1), br[0], 'partial width agrees with branching ratio and lifetime', 0.035, 0., mother, prods)
                    followed = creations.get((mother, prods), [])
                    ck.require(followed, 'a decay creates its products', mother, prods)
                    ck.require(len(set(followed)) == len(followed), 'a product is created once per channel', mother, prods, followed)
                ck.state(('mesons', subset, kind))
                ck.trace()
                ck.outcome(tuple(sorted(want)))


def rate(mass, what, **k):
    """ literature widths in units of G_F^2 theta^2 (mass in the code's units) """
    M = mass
    if what == 'neutral scalar':
        x = (k['m'] / M)**2
        return k['f']**2 * M**3 / (32 * math.pi) * (1 - x)**2
    if what == 'neutral vector':
        x = (k['m'] / M)**2
        return k['f']**2 * k['kappa']**2 * M**3 / (32 * math.pi) * (1 + 2 * x) * (1 - x)**2
    xl, xm = (k['ml'] / M)**2, (k['m'] / M)**2
    root = math.sqrt(lam(1., xl, xm))
    if what == 'charged scalar':
        return k['f']**2 * k['V']**2 * M**3 / (16 * math.pi) * ((1 - xl)**2 - xm * (1 + xl)) * root
    return k['f']**2 * k['V']**2 * M**3 / (16 * math.pi) * ((1 - xl)**2 + xm * (1 + xl) - 2 * xm**2) * root


def sterile_channels(ck, arg):
    _, kind, mass, pattern, theta = arg
    from common import CONST, UNITS, utils
    from library.NuMSM import interactions as I
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    S = species()
    thetas = dict(zip(('electron', 'muon', 'tau'), [theta * p for p in pattern]))
    N = sterile(kind, mass, theta)
    nus = [S['neutrino_e'], S['neutrino_mu'], S['neutrino_tau']]
    flav_l = {'electron': 'electron', 'muon': 'muon', 'tau': 'tau'}
    unit = 32 * CONST.G_F**2
    for leps in [p for k in range(0, 4) for p in itertools.permutations(['electron', 'muon', 'tau'], k)]:
        L = [S[l] for l in leps]
        with ck.case('sterile and leptons', kind, mass, pattern, theta, leps):
            inters = I.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L)
            got = total_polynomials(ck, inters, unit)
            for k in got:
                ck.require('N' in k[1] + k[2], 'every sterile reaction involves the sterile neutrino', k)
            decays = {tuple(k[2]): sum(v for t, v in p.items() if t[0] == 'p') for k, p in got.items() if k[0] == 'N' and len(k[1]) == 1}
            want = Counter()
            for a in nus:
                th = thetas[a.flavour]**2
                for b in nus:
                    if th:
                        want[tuple(sorted((a.symbol, b.symbol, b.symbol)))] += th * (2. if a is b else 1.)
                for l in L:
                    if th and N.mass > 2 * l.mass:
                        g = G_R + 0.5 if l.flavour == a.flavour else G_R - 0.5
                        want[tuple(sorted((a.symbol, l.symbol, l.symbol)))] += 4 * th * (g**2 + G_R**2)
            for l, other in itertools.permutations(L, 2):
                th = thetas[l.flavour]**2
                if th and N.mass > l.mass + other.mass:
                    nu = [n for n in nus if n.flavour == other.flavour][0]
                    want[tuple(sorted((l.symbol, other.symbol, nu.symbol)))] += 4 * th
            ck.require(set(decays) == set(k for k, v in want.items()), 'decay channels of the sterile neutrino', sorted(set(decays) ^ set(want)))
            for k in decays:
                ck.close(decays[k], want[k], 'width of a leptonic channel of the sterile neutrino', 1e-9, 0., k)
            for inter in inters:
                for integral in inter.integrals:
                    special = hasattr(integral.particle, 'fast_decay')
                    ck.require(integral.kind == (Kind.F_creation if special else Kind.Full), 'kind of a sterile reaction', str(integral))
            ck.state(('sterile', kind, mass, pattern, theta, leps))
            ck.trace()
            ck.outcome(tuple(sorted(want)))
    for name in KINDS:
        with ck.case('kind of sterile interactions', kind, mass, pattern, theta, name):
            L, asked = [S[l] for l in ('electron', 'muon', 'tau')], getattr(Kind, name)
            of_kind(ck, I.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L, kind=asked),
                    I.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L),
                    lambda i: Kind.F_creation if hasattr(i.particle, 'fast_decay') else asked)
            Q = [S[q] for q in ('up', 'down', 'strange')]
            of_kind(ck, I.sterile_quark_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L, quarks=Q, kind=asked),
                    I.sterile_quark_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L, quarks=Q), lambda i: asked)
            M = [S[m] for m in MESONS if 'kaon' not in m]
            of_kind(ck, I.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L, mesons=M, kind=asked),
                    I.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=L, mesons=M),
                    lambda i: (Kind.F_creation if utils.reaction_type(i).CREATION else Kind.F_decay) if hasattr(i.particle, 'fast_decay') else asked)
            ck.state(('sterile kind', kind, mass, pattern, theta, name))
            ck.trace()
    selections_ = [MESONS] + [[m] for m in MESONS] + [MESONS[::-1]]
    for sel in selections_:
        sel = [m for m in sel if m not in ('charged_kaon', 'kaon_long', 'kaon_short')]
        if not sel:
            continue
        for leps in (('electron', 'muon'), ('muon',), ('electron', 'muon', 'tau')):
            with ck.case('sterile and hadrons', kind, mass, pattern, theta, sel, leps):
                inters = I.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=[S[l] for l in leps], mesons=[S[m] for m in sel])
                got, followed = Counter(), Counter()
                for inter in inters:
                    for integral in inter.integrals:
                        conserved(ck, integral)
                        k = key(integral)
                        ck.require('N' in k[1] + k[2], 'every sterile reaction involves the sterile neutrino', k)
                        t = utils.reaction_type(integral)
                        special = hasattr(integral.particle, 'fast_decay')
                        ck.require(integral.kind == ((Kind.F_creation if t.CREATION else Kind.F_decay) if special else Kind.Full), 'kind of a hadronic reaction', str(integral))
                        if k[0] == 'N' and len(k[1]) == 1:
                            ms = tuple(i.specie.mass for i in integral.reaction if i.side == 1)
                            got[k[2]] += sum(M.K for M in integral.Ms) * phase_space(N.mass, ms) / (2 * N.mass) / 2
                        if t.CREATION:
                            followed[(k[0], k[1])] += 1
                want = {}
                V = 0.974
                for m in sel:
                    P = S[m]
                    f = {'neutral_pion': 130.2, 'charged_pion': 130.2, 'eta': 81.7, 'charged_rho': 209., 'neutral_rho': 208.9, 'omega': 195.5, 'eta_prime': 94.7, 'phi': 229.5}[m] * UNITS.MeV
                    vector = m in ('charged_rho', 'neutral_rho', 'omega', 'phi')
                    if PUBLISHED[P.name][1] == 0:
                        for n in nus:
                            if thetas[n.flavour] and N.mass > P.mass:
                                kappa = {'neutral_rho': 1 - 2 * G_R, 'omega': 4 * G_R / 3, 'phi': 4 * G_R / 3 - 1}.get(m)
                                want[tuple(sorted((n.symbol, P.symbol)))] = thetas[n.flavour]**2 * rate(N.mass, 'neutral vector' if vector else 'neutral scalar', m=P.mass, f=f, kappa=kappa)
                    else:
                        for l in leps:
                            if thetas[l] and N.mass > P.mass + S[l].mass:
                                want[tuple(sorted((S[l].symbol, P.symbol)))] = thetas[l]**2 * rate(N.mass, 'charged vector' if vector else 'charged scalar', m=P.mass, ml=S[l].mass, f=f, V=V)
                ck.require(set(got) == set(want), 'hadronic decay channels of the sterile neutrino', sorted(set(got) ^ set(want)))
                for k in got:
                    n_int = 2. if kind == 'majorana_both' else 1.
                    ck.close(got[k] / CONST.G_F**2, n_int * want[k], 'hadronic width of the sterile neutrino', 1e-6, 0., k)
                    for p in k:
                        ck.require(followed[(p, k)], 'every product of a hadronic decay is followed', k, p)
                ck.state(('hadrons', kind, mass, pattern, theta, tuple(sel), leps))
                ck.trace()


def quarks(ck, arg):
    _, theta = arg
    from common import CONST
    from library.NuMSM import interactions as I
    S = species()
    unit = 32 * CONST.G_F**2
    up, down = ['up', 'charm', 'top'], ['down', 'strange', 'bottom']
    V = {('up', 'down'): .974, ('up', 'strange'): .225, ('up', 'bottom'): .004, ('charm', 'down'): .225, ('charm', 'strange'): .973, ('charm', 'bottom'): .041,
         ('top', 'down'): .009, ('top', 'strange'): .040, ('top', 'bottom'): .999}
    for mass in (10., 1500., 500000.):
        N = sterile('dirac', mass, theta)
        for pattern in itertools.product((0., 1., 2.), repeat=3):
            thetas = dict(zip(('electron', 'muon', 'tau'), [theta * p for p in pattern]))
            for qs in [[u] for u in up] + [[d] for d in down] + [[u, d] for u in up for d in down] + [up + down]:
                if ck.broken:
                    return
                if len(qs) == 6 and mass != 1500.:
                    continue
                with ck.case('sterile and quarks', mass, pattern, qs):
                    nus = [S['neutrino_e'], S['neutrino_mu'], S['neutrino_tau']]
                    leps = [S['electron'], S['muon'], S['tau']]
                    got = total_polynomials(ck, I.sterile_quark_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=leps, quarks=[S[q] for q in qs]), unit)
                    want = {}
                    for n in nus:
                        for q in qs:
                            if thetas[n.flavour]:
                                # left and right couplings of the quark to the neutral current
                                g = G_R if q in up else G_R / 2
                                want[tuple(sorted((n.symbol, S[q].symbol, S[q].symbol)))] = thetas[n.flavour]**2 * (16. / 9 * g**2 + (3 - 4 * g)**2 / 9.)
                    for l in leps:
                        for u in qs:
                            for d in qs:
                                if u in up and d in down and thetas[l.flavour]:
                                    want[tuple(sorted((l.symbol, S[u].symbol, S[d].symbol)))] = thetas[l.flavour]**2 * 4 * V[(u, d)]**2
                    scat = {}
                    for k, p in got.items():
                        ck.require('N' in k[1] + k[2], 'every sterile reaction involves the sterile neutrino', k)
                        if k[0] == 'N':
                            rest = list(k[1] + k[2])
                            rest.remove('N')
                            scat.setdefault(tuple(sorted(rest)), []).append((len(k[1]), sum(v for t, v in p.items() if t[0] == 'p')))
                    ck.require(set(scat) == set(want), 'quark channels of the sterile neutrino', sorted(set(scat) ^ set(want)))
                    for k, values in scat.items():
                        for n_in, v in values:
                            if n_in == 1:
                                ck.close(v, want[k], 'strength of a quark channel', 1e-9, 0., k, n_in)
                    ck.state(('quarks', mass, pattern, tuple(qs)))
                    ck.trace()


def products(ck, arg):
    """ secondary decays asked for by the primary channels """
    _, mass, pattern = arg
    from common import utils
    from library.NuMSM import interactions as NI
    from library.SM import interactions as SMI
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    S = species()
    thetas = dict(zip(('electron', 'muon', 'tau'), [1e-3 * p for p in pattern]))
    N = sterile('dirac', mass, 1e-3)
    nus = [S['neutrino_e'], S['neutrino_mu'], S['neutrino_tau']]
    leps = [S['electron'], S['muon']]
    use = [m for m in MESONS]
    for muon_dec, kind in itertools.product((False, True), (None, 'Full', 'F_1', 'F_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'Full_vacuum_decay')):
        with ck.case('decay products', mass, pattern, muon_dec, kind):
            k_ = getattr(Kind, kind) if kind else None
            primary = [NI.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=leps),
                       NI.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=leps, mesons=[S[m] for m in use])]
            made = set(i.specie.name for main in primary for inter in main for integral in inter.integrals for i in integral.reaction if i.side == 1)
            out = NI.interactions_decay_products(interactions_primary=primary, interactions_SM=None, muon_dec=muon_dec, neutrinos=nus, leptons=leps,
                                                 mesons=[S[m] for m in use], photon=[S['photon']], kind=k_)
            vacuum = kind in ('F_1_vacuum_decay', 'F_f_vacuum_decay')
            decays = Counter()
            for inter in out:
                for integral in inter.integrals:
                    t = utils.reaction_type(integral)
                    conserved(ck, integral)
                    ck.require(t.CREATION or t.DECAY, 'only decays and their inverse are followed for decay products', str(integral))
                    if t.CREATION:
                        ck.require(integral.kind == (Kind.F_1_vacuum_decay if vacuum else Kind.F_creation), 'kind of a creation term', str(integral.kind))
                    else:
                        ck.require(integral.kind == (Kind.F_f_vacuum_decay if vacuum else Kind.F_decay), 'kind of a decay term', str(integral.kind))
                        decays[(integral.particle.symbol, tuple(sorted(i.specie.symbol for i in integral.reaction[1:])))] += 1
            involved = closure([m for m in use if S[m].name in made])
            want = Counter((S[m].symbol, tuple(sorted(c.split()))) for m in involved for c in CHANNELS[m])
            mes = Counter({k: v for k, v in decays.items() if k[0] != 'μ'})
            ck.require(mes == want, 'every decay of every meson produced appears exactly once', sorted((want - mes)), sorted((mes - want)))
            muons = sum(v for k, v in decays.items() if k[0] == 'μ')
            expected = 1 if ('Muon' in made and not muon_dec) or ('charged_pion' in involved and not muon_dec and 'Muon' not in made) else 0
            ck.require(muons == expected, 'muon decay appears once when muons are produced and not already followed', muons, expected)
            ck.state(('products', mass, pattern, muon_dec, kind))
            ck.trace()


def tables(ck, _):
    from common import UNITS, statistics
    for k, p in species().items():
        with ck.case('table', p.name):
            m, q, dof, own, fermion, tau = PUBLISHED[p.name]
            ck.close(p.mass / UNITS.MeV, m, 'mass', 2e-3, 0.)
            ck.close(p.Q, q, 'charge', 1e-12)
            ck.require(p.dof == dof, 'degrees of freedom', p.dof, dof)
            ck.require(bool(p.majorana) == own, 'own antiparticle', p.majorana)
            ck.require(p.statistics is (statistics.FERMION if fermion else statistics.BOSON) or p.statistics == (statistics.FERMION if fermion else statistics.BOSON), 'statistics')
            if tau:
                ck.close(p.lifetime / UNITS.s, tau, 'lifetime', 0.03)
            if getattr(p, 'BR', None):
                total = sum(p.BR.values())
                ck.require(0.9 < total < 1.001, 'branching ratios are a (nearly complete) partition', total)
            ck.state(p.name)
    for kind, dof in (('dirac', 4), ('majorana', 2)):
        for mass in (1., 33.9, 500.):
            with ck.case('sterile', kind, mass):
                p = sterile(kind, mass, 2e-3)
                ck.close([p.mass / UNITS.MeV, p.mixing_angle], [mass, 2e-3], 'mass and mixing are those asked for', 1e-12)
                ck.require(p.dof == dof and bool(p.majorana) == (kind == 'majorana') and p.Q == 0 and p.statistics == statistics.FERMION, 'sterile species')
                ck.state((kind, mass))


def shard(ck, arg):
    with quiet():
        {'tables': tables, 'weak': weak, 'mesons': mesons, 'sterile': sterile_channels, 'quarks': quarks, 'products': products}[arg[0]](ck, arg)


def explore(ck, tier):
    jobs = [('tables',), ('quarks', 1e-2)]
    patterns = [p for p in itertools.product((0., 1.), repeat=3) if any(p)]
    masses = (5., 33.9, 120., 300., 1200.)
    for kind in ('dirac', 'majorana'):
        for mass in masses:
            for p in patterns + [(1., 2., 3.)]:
                jobs.append(('sterile', kind, mass, p, 1e-3))
    if ck.thorough:
        jobs += [('sterile', 'dirac', m, p, th) for m in (106., 140., 250., 400., 600., 780., 1000., 5000.) for p in patterns for th in (1e-3, 0.5)]
        jobs += [('quarks', 0.3)]
    jobs += [('weak', n) for n in selections(['neutrino_e', 'neutrino_mu', 'neutrino_tau'])]
    for mass in masses:
        for p in patterns:
            jobs.append(('products', mass, p))
    subsets = [tuple(m for m, b in zip(MESONS, bits) if b) for bits in itertools.product((0, 1), repeat=len(MESONS))]
    kinds = (None, 'Full', 'F_1', 'F_f', 'Full_vacuum_decay', 'F_1_vacuum_decay', 'F_f_vacuum_decay', 'F_creation') if ck.thorough else (None,)
    if ck.thorough:
        subsets += [s[::-1] for s in subsets]
    step = 64
    for k in range(0, len(subsets), step):
        jobs.append(('mesons', subsets[k:k + step], kinds))
    jobs.append(('mesons', [(m,) for m in MESONS], ('F_1', 'F_f_vacuum_decay', 'F_decay')))
    ck.shards(shard, jobs)
