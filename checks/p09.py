"""P09: crossings of a declared interaction. Every small declared process (all species and particle/antiparticle assignments
over a species alphabet) x every shape of matrix element, against an independent enumeration of its crossings."""
import itertools
from collections import Counter

from mc.harness import quiet

PROPERTY = 'P09'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['matrix elements are compared as polynomials in scalar products, symmetrised over identical species on the same side (species and antispecies share one distribution)',
               'constant four-particle matrix elements are declared once per process and keep their value however many crossings coincide']
BOUNDS = {'quick': 'all processes 2-2, 1-3 over 3 species (two mass assignments, one Majorana) x all 16 antiparticle assignments x 4 matrix elements; all 1-2 processes x all 8 assignments x 2 matrix elements; 8 kinds; all multisets of <= 4 prebuilt integrals',
          'thorough': 'as quick with 4 species (81 -> 256 processes per shape), 3 mass assignments and 8 matrix elements'}

SPECIES = {
    'light': [('a', 0., False), ('b', 1., False), ('c', 2.5, True), ('d', 1., False)],
    'edge': [('a', 1., False), ('b', 2., False), ('c', 3., True), ('d', 0., True)],
    'heavy': [('a', 0., True), ('b', 0., False), ('c', 7., False), ('d', 3., False)],
}
ELEMENTS = [
    [dict(K1=1.5, order=(0, 1, 2, 3))],
    [dict(K1=2., order=(0, 3, 1, 2)), dict(K1=0.25, order=(0, 2, 1, 3)), dict(K2=-3., order=(2, 3, 0, 1))],
    [dict(K1=1., K2=0.5, order=(0, 1, 2, 3)), dict(K2=7., order=(1, 3, 0, 2))],
    [dict(K=11., order=(0, 1, 2, 3))],
    [dict(K2=1., order=(0, 3, 1, 2))],
    [dict(K1=3., order=(1, 2, 0, 3)), dict(K1=5., order=(0, 1, 3, 2)), dict(K1=-1., order=(3, 1, 0, 2))],
    [dict(K2=1., order=(0, 1, 2, 3)), dict(K2=2., order=(2, 3, 0, 1)), dict(K2=4., order=(0, 2, 1, 3)), dict(K2=8., order=(1, 3, 0, 2))],
    [dict(K1=1e-10, K2=1e10, order=(3, 0, 2, 1))],
]


def species(ck, masses):
    from particles import Particle
    from common import UNITS, LinearSpacedGrid
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=3 * UNITS.MeV)
    return [Particle(name='species ' + n, symbol=n, mass=m * UNITS.MeV, majorana=j, grid=grid) for n, m, j in SPECIES[masses]]


def crossings(parts, anti, n_in):
    """ All reactions of the process with a first particle: {(first index, set on the left)}: independent enumeration """
    n = len(parts)
    for size in range(1, n):
        for left in itertools.combinations(range(n), size):
            for first in left:
                crossed = [(i in left) != (i < n_in) for i in range(n)]
                flag = [(not anti[i] if not parts[i].majorana else False) if crossed[i] else anti[i] for i in range(n)]
                if flag[first]:
                    continue
                right = [i for i in range(n) if i not in left]
                if len(left) == 1 and parts[left[0]].mass <= sum(parts[i].mass for i in right):
                    continue
                if len(right) == 1 and parts[right[0]].mass <= sum(parts[i].mass for i in left):
                    continue
                yield first, left, right, crossed, flag


def key(parts, first, left, right):
    return (parts[first].symbol, tuple(sorted(parts[i].symbol for i in left)), tuple(sorted(parts[i].symbol for i in right)))


def symmetrised(terms, classes):
    """ terms: {('p'|'m', pair, pair): c} over positions 0..3; classes: label of every position (0 is alone) """
    groups = {}
    for i, c in enumerate(classes):
        groups.setdefault(c, []).append(i)
    maps = [{}]
    for members in groups.values():
        maps = [{**m, **dict(zip(members, image))} for m in maps for image in itertools.permutations(members)]
    out = {}
    for (kind, pair1, pair2), c in terms.items():
        for m in maps:
            p, q = tuple(sorted(m[i] for i in pair1)), tuple(sorted(m[i] for i in pair2))
            k = (kind,) + (tuple(sorted((p, q))) if kind == 'p' else (p, q))
            out[k] = out.get(k, 0.) + c / len(maps)
    return {k: v for k, v in out.items() if abs(v) > 1e-13 * max(abs(x) for x in out.values())}


def classes_of(slots):
    """ slots: [(side, symbol)] with the first particle first; canonical positions: first, then sorted """
    return [('first',)] + [s for s in slots[1:]]


def canonical(slots):
    """ order of the positions: first particle, then by (side, symbol) """
    return [0] + sorted(range(1, len(slots)), key=lambda i: slots[i])


def polynomial(Ms, slots):
    """ what the built integral says, on canonical positions """
    order = canonical(slots)
    where = {old: new for new, old in enumerate(order)}
    terms = {}
    for M in Ms:
        i, j, k, l = [where[o] for o in M.order]
        for kind, c in (('p', M.K1), ('m', M.K2)):
            if c:
                t = (kind, (i, j), (k, l))
                terms[t] = terms.get(t, 0.) + c
    return symmetrised(terms, [('first',)] + [slots[i] for i in order[1:]]) if terms else {}


def expected_polynomial(elements, parts, reactions):
    total = {}
    label = None
    for first, left, right, crossed, _ in reactions:
        idx = [first] + [i for i in left if i != first] + list(right)
        slots = [(-1, parts[i].symbol) if i in left else (1, parts[i].symbol) for i in idx]
        order = canonical(slots)
        where = {idx[old]: new for new, old in enumerate(order)}
        label = [('first',)] + [slots[i] for i in order[1:]]
        for e in elements:
            a, b, c, d = e['order']
            i, j, k, l = [where[o] for o in (a, b, c, d)]
            sign = -1. if crossed[a] != crossed[b] else 1.
            for kind, coef in (('p', e.get('K1', 0.)), ('m', sign * e.get('K2', 0.))):
                if coef:
                    t = (kind, (i, j), (k, l))
                    total[t] = total.get(t, 0.) + coef
    return symmetrised(total, label) if total else {}


def agree(ck, got, want, what):
    scale = max([abs(v) for v in list(got.values()) + list(want.values())] or [1.])
    for k in set(got) | set(want):
        ck.require(abs(got.get(k, 0.) - want.get(k, 0.)) <= 1e-11 * scale, 'matrix element of a crossed reaction', k, got, want, what)


def process(ck, arg):
    _, masses, n_species, assignments, shape, elements = arg
    from interactions import CrossGeneratingInteraction
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    from common import UNITS
    pool = species(ck, masses)[:n_species]
    n_in, n_out = shape
    n = n_in + n_out
    kinds = [Kind.Full, Kind.F_1, Kind.F_decay, None]
    for number, assignment in enumerate(assignments):
        parts = [pool[i] for i in assignment]
        for anti in itertools.product((False, True), repeat=n):
            for e_number, element in enumerate(elements):
                if ck.broken:
                    return
                kind = kinds[(number + e_number) % 4]
                names = [p.symbol for p in parts]
                with ck.case('process', masses, names[:n_in], names[n_in:], anti, element):
                    if n == 4:
                        Ms = tuple(FourParticleM(**e) for e in element)
                        cls = FourParticleIntegral
                    else:
                        Ms = tuple(ThreeParticleM(K=e['K']) for e in element)
                        cls = ThreeParticleIntegral
                    inter = CrossGeneratingInteraction(name='test', particles=(tuple(parts[:n_in]), tuple(parts[n_in:])),
                                                       antiparticles=(anti[:n_in], anti[n_in:]), Ms=Ms, integral_type=cls,
                                                       washout_temperature=1.25 * UNITS.MeV, kind=kind)
                    want = {}
                    for r in crossings(parts, anti, n_in):
                        want.setdefault(key(parts, r[0], r[1], r[2]), []).append(r)
                    got = {}
                    for integral in inter.integrals:
                        items = integral.reaction
                        ck.require(items[0].side == -1 and items[0].specie is integral.particle, 'an integral belongs to its first incoming particle', str(integral))
                        ck.require(not items[0].antiparticle, 'integrals are kept for particles only', str(integral))
                        k = (integral.particle.symbol, tuple(sorted(i.specie.symbol for i in items if i.side == -1)),
                             tuple(sorted(i.specie.symbol for i in items if i.side == 1)))
                        ck.require(k not in got, 'one integral for one reaction', k)
                        ck.require(k in want, 'a reaction that is no crossing of the process', k)
                        got[k] = integral
                        ck.require(integral.kind == (kind if kind is not None else Kind.Full), 'kind of the collision integral')
                        ck.require(integral.washout_temperature == 1.25 * UNITS.MeV, 'washout temperature of the integral')
                        ck.require(len(items) == n and Counter(i.specie.symbol for i in items) == Counter(names), 'species of the reaction', k)
                    ck.require(set(got) == set(want), 'a crossing is missing', sorted(set(want) - set(got)))
                    for k, integral in got.items():
                        items = integral.reaction
                        flags = [(i.side, i.specie.symbol, bool(i.antiparticle)) for i in items]
                        allowed = []
                        for first, left, right, crossed, flag in want[k]:
                            idx = [first] + [i for i in left if i != first] + list(right)
                            allowed.append(Counter((-1 if i in left else 1, parts[i].symbol, flag[i]) for i in idx))
                        ck.require(Counter(flags) in allowed, 'antiparticles of a crossed reaction', flags, [sorted(a.items()) for a in allowed])
                        if n == 3:
                            ck.close(sum(M.K for M in integral.Ms), len(want[k]) * sum(e['K'] for e in element), 'matrix element of a crossed decay', 1e-12)
                            continue
                        if any(e.get('K') for e in element):
                            ck.close(sum(M.K for M in integral.Ms), sum(e['K'] for e in element), 'constant matrix element', 1e-12)
                            continue
                        slots = [(i.side, i.specie.symbol) for i in items]
                        agree(ck, polynomial(integral.Ms, slots), expected_polynomial(element, parts, want[k]), k)
                    for M, e in zip(Ms, element):
                        ck.require(all(getattr(M, a) == e.get(a, 0.) for a in ('K1', 'K2', 'K') if hasattr(M, a)), 'declared matrix elements are left alone')
                    ck.trace()
                    ck.state((masses, tuple(names), n_in, anti, e_number))
                    ck.outcome(tuple(sorted(want)))
                    if number == 7 and anti[0] and e_number == 1:
                        ck.sample({'process': names, 'anti': anti, 'integrals': [str(k) for k in sorted(want)]})


def misc(ck, _):
    from interactions import CrossGeneratingInteraction, Interaction, IntegralItem
    from interactions.three_particle import ThreeParticleM, ThreeParticleIntegral
    from interactions.four_particle import FourParticleM, FourParticleIntegral
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as Kind
    a, b, c, d = species(ck, 'light')
    for kind in (Kind.Full, Kind.F_1, Kind.F_f, Kind.Full_vacuum_decay, Kind.F_1_vacuum_decay, Kind.F_f_vacuum_decay, Kind.F_creation, Kind.F_decay, None,
                 8, -1, 'Full', 'F_1', 99):
        with ck.case('kind', str(kind)):
            try:
                inter = CrossGeneratingInteraction(name='k', particles=((c,), (a, b)), antiparticles=((False,), (False, False)),
                                                   Ms=(ThreeParticleM(K=1.),), integral_type=ThreeParticleIntegral, kind=kind)
            except ValueError:
                ck.require(kind in (8, -1, 'Full', 'F_1', 99), 'a valid kind is accepted', str(kind))
            else:
                ck.require(kind not in (8, -1, 'Full', 'F_1', 99), 'an unknown kind is refused', str(kind))
                ck.require(all(i.kind == (Kind.Full if kind is None else kind) for i in inter.integrals) and inter.integrals, 'kind handed to the integrals')
                ck.require(all(i.washout_temperature == 0 for i in inter.integrals), 'default washout temperature')
            ck.state(('kind', str(kind)))
    # orders of momenta must be permutations
    for order in itertools.product(range(4), repeat=4):
        with ck.case('order', order):
            try:
                M = FourParticleM(K1=1., order=order)
            except Exception:
                ck.require(len(set(order)) < 4, 'a permutation is accepted', order)
            else:
                ck.require(len(set(order)) == 4, 'a meaningless order of momenta is refused', order)
                ck.require(set(map(frozenset, (M.order[:2], M.order[2:]))) == set(map(frozenset, (order[:2], order[2:]))) and set(M.order[:2]) == set(order[:2]),
                           'pairs of momenta are kept', M.order)
            ck.state(('order', order))
    # prebuilt integrals: all sequences with repetition of up to four of five integrals
    def prebuilt(which):
        parts = {'A': ((a, b), (a, b)), 'B': ((a, b), (b, a)), 'C': ((a, a), (b, b)), 'D': ((b, a), (a, b)), 'E': ((a, b, a), (b,))}[which]
        items = tuple(IntegralItem(side=s, specie=p, antiparticle=False, index=i, crossed=False)
                      for i, (s, p) in enumerate([(-1, p) for p in parts[0]] + [(1, p) for p in sorted(parts[1])]))
        return FourParticleIntegral(particle=items[0].specie, reaction=items, Ms=(FourParticleM(K1=1., order=(0, 1, 2, 3)), FourParticleM(K2=2., order=(0, 2, 1, 3))), kind=Kind.Full)
    group = {'A': 1, 'B': 1, 'C': 2, 'D': 3, 'E': 4}
    for size in range(5):
        for word in itertools.product('ABCDE', repeat=size):
            with ck.case('explicit interaction', word):
                inter = Interaction(name='explicit', integrals=[prebuilt(w) for w in word])
                ck.require(len(inter.integrals) == len(set(group[w] for w in word)), 'one integral for one reaction', len(inter.integrals), word)
                k1 = sum(M.K1 for i in inter.integrals for M in i.Ms)
                k2 = sum(M.K2 for i in inter.integrals for M in i.Ms)
                ck.close([k1, k2], [size, 2. * size], 'strength of merged integrals', 1e-12)
                ck.state(word)
                ck.trace()


def shard(ck, arg):
    with quiet():
        (misc if arg[0] == 'misc' else process)(ck, arg)


def explore(ck, tier):
    n_species, masses, elements = (4, ('light', 'edge', 'heavy'), ELEMENTS) if ck.thorough else (3, ('light', 'edge'), ELEMENTS[:4])
    jobs = [('misc',)]
    for m in masses:
        for shape in ((2, 2), (1, 3), (3, 1), (1, 2), (2, 1)):
            if not ck.thorough and shape == (3, 1):
                continue
            todo = list(itertools.product(range(n_species), repeat=sum(shape)))
            el = elements if sum(shape) == 4 else [[dict(K=2.)], [dict(K=0.5), dict(K=3.)]]
            size = 9 if sum(shape) == 4 else 27
            for k in range(0, len(todo), size):
                jobs.append(('process', m, n_species, todo[k:k + size], shape, el))
    ck.shards(shard, jobs)
