"""P11: the angular kernels of four-particle reactions. Every quadruple of momenta of a lattice, every momentum order, sides and mass assignment,
against the exact value of the integrals that define the kernels (finite parts of Fourier integrals, in integer arithmetic)."""
import itertools
import math
from fractions import Fraction

import numpy

from mc.harness import ulps

PROPERTY = 'P11'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['each kernel is a homogeneous piecewise polynomial of degree at most five with walls where a signed sum of the momenta vanishes, so the lattice determines it in every chamber it reaches',
               'agreement to 1e-12 of the scale of the largest momentum']
BOUNDS = {'quick': 'all momenta of {0..10}^4 for the elementary kernels, their scaled and one-ulp neighbours on the walls; all 24 orders x 7 side patterns (up to the overall sign) x a quarter of masses {0,1,3}^4 x momenta {0.5,2,5}^4 for the combined kernels',
          'thorough': 'all momenta of {0..18}^4; all 24 orders x 14 side patterns x masses {0,1,3}^4 x momenta {0.5,2,5}^4'}

# ---- reference: sum of c * exp(i a x) / x^n, integrated over the whole line ------------------------------------------

def expansion(brackets):
    """ Terms of prod_k g_k with g = sin(q x) (0) or q cos(q x) - sin(q x)/x (1), as
        [(signs, powers of each q, n, coefficient)] """
    terms = [((), (), 0, 1 + 0j)]
    for b in brackets:
        new = []
        for signs, powers, n, c in terms:
            for s in (1, -1):
                # sin(q x) = sum_s s exp(i s q x) / (2 i), cos = sum_s exp(i s q x) / 2
                if b:
                    new.append((signs + (s,), powers + (1,), n, c * 0.5))
                    new.append((signs + (s,), powers + (0,), n + 1, -c * s / 2j))
                else:
                    new.append((signs + (s,), powers + (0,), n, c * s / 2j))
        terms = new
    return terms


def integral(brackets, q, extra):
    """ (4/pi) int_0^inf dx x^-extra prod g_k, exactly for integers q: FP int exp(iax)/x^n = i pi sgn(a) (ia)^(n-1)/(n-1)!
        q: list of integer arrays; returns Fraction-free integers over a common denominator """
    total = 0
    den = 2 ** len(brackets) * math.factorial(len(brackets) + extra)
    for signs, powers, n, c in expansion(brackets):
        n += extra
        a = sum(s * x for s, x in zip(signs, q))
        # (4/pi) * 1/2 * i pi sgn(a) (i a)^(n-1)/(n-1)! = 2 i^n sgn(a) a^(n-1)/(n-1)!
        w = 2 * (1j ** n) * c * den / math.factorial(n - 1)
        assert abs(w.imag) < 1e-6 and abs(w.real - round(w.real)) < 1e-6
        poly = 1
        for k, x in zip(powers, q):
            poly = poly * x ** k
        total = total + int(round(w.real)) * numpy.sign(a) * a ** (n - 1) * poly
    return total, den


KERNELS = {'D1': ((0, 0, 0, 0), 2), 'D2': ((0, 0, 1, 1), 2), 'D3': ((1, 1, 1, 1), 2),
           'Db1': ((0, 0, 0), 1), 'Db2': ((0, 1, 1), 1)}


def sgn(x):
    return (x > 0) - (x < 0)


def exact(name, q):
    """ The same for a single tuple of floats, in rational arithmetic """
    brackets, extra = KERNELS[name]
    q = [Fraction(x) for x in q]
    total, den = Fraction(0), 2 ** len(brackets) * math.factorial(len(brackets) + extra)
    for signs, powers, n, c in expansion(brackets):
        n += extra
        a = sum(s * x for s, x in zip(signs, q))
        w = int(round((2 * (1j ** n) * c * den / math.factorial(n - 1)).real))
        poly = Fraction(1)
        for k, x in zip(powers, q):
            poly *= x ** k
        total += w * sgn(a) * a ** (n - 1) * poly
    return float(total / den)


# ---- elementary kernels ----------------------------------------------------------------------------------------------

DEGREE = {'D1': 1, 'D2': 3, 'D3': 5, 'Db1': 0, 'Db2': 2}


def lattice(ck, name, first, N):
    from interactions.four_particle.cpp import integral as cpp
    fn = getattr(cpp, name)
    brackets, extra = KERNELS[name]
    dim = len(brackets)
    axes = [numpy.array([first])] + [numpy.arange(N + 1)] * (dim - 1)
    q = [x.ravel().astype(object if N > 40 else numpy.int64) for x in numpy.meshgrid(*axes, indexing='ij')]
    total, den = integral(brackets, q, extra)
    want = total / den
    for idx, w in enumerate(want):
        args = [int(x[idx]) for x in q]
        scale = float(max(1, max(args))) ** DEGREE[name]
        outside = 2 * max(args) > sum(args)
        with ck.case('kernel', name, args):
            got = fn(*[float(a) for a in args])
            ck.require(abs(got - w) <= 1e-12 * scale, 'kernel equals its defining integral', got, float(w))
            if outside:
                ck.require(abs(got) <= 1e-12 * scale, 'kernel vanishes where momentum cannot be conserved', got)
            for power in (30, -20):
                z = 2. ** power
                got_z = fn(*[z * a for a in args])
                ck.require(abs(got_z - w * z ** DEGREE[name]) <= 1e-11 * (scale * z ** DEGREE[name]), 'kernel scales with the unit of momentum', got_z, power)
        ck.state((name,) + tuple(args))
        ck.outcome((name, bool(w), outside))
        ck.trace()
        if ck.broken:
            return


def walls(ck, name):
    """ momenta within one ulp of the walls of the chambers: continuity """
    from interactions.four_particle.cpp import integral as cpp
    fn = getattr(cpp, name)
    dim = len(KERNELS[name][0])
    for base in itertools.product((0.1, 0.3, 0.7), repeat=dim - 1):
        for signs in itertools.product((1, -1), repeat=dim - 1):
            last = sum(s * b for s, b in zip(signs, base))
            if last <= 0:
                continue
            for near in (last,) + ulps(last):
                if near <= 0:
                    continue
                for args in set(itertools.permutations(base + (near,))):
                    want = exact(name, args)
                    with ck.case('kernel next to a wall', name, args):
                        got = fn(*args)
                        tol = 1e-12
                        if name.startswith('Db') and abs(2 * max(args) - sum(args)) < 1e-12:
                            # a step: which side the sum falls on is within the rounding of the momenta
                            inside = exact(name, [x * (1 - 1e-9) if x == max(args) else x for x in args])
                            ck.require(min(abs(got - v) for v in (0., .5 * inside, inside)) <= 1e-8, 'kernel next to a wall', got, want)
                        else:
                            ck.require(abs(got - want) <= tol, 'kernel next to a wall', got, want)
                    ck.state((name, args))


# ---- combined kernels ------------------------------------------------------------------------------------------------

def combined(p, E, m, K1, K2, order, s, cache):
    def k(name, *idx):
        q = tuple(p[i] for i in idx)
        if (name, q) not in cache:
            cache[name, q] = exact(name, q)
        return cache[name, q]
    i, j, kk, l = order
    out = K1 * (E[0] * E[1] * E[2] * E[3] * k('D1', 0, 1, 2, 3) + s[0] * s[1] * s[2] * s[3] * k('D3', 0, 1, 2, 3)
                + E[i] * E[j] * s[kk] * s[l] * k('D2', i, j, kk, l) + E[kk] * E[l] * s[i] * s[j] * k('D2', kk, l, i, j))
    return out + K2 * m[i] * m[j] * (E[kk] * E[l] * k('D1', 0, 1, 2, 3) + s[kk] * s[l] * k('D2', i, j, kk, l))


def at_rest(p, E, m, K1, K2, order, s, cache):
    """ the limit of combined() / (p0 E0) for p0 -> 0 """
    def k(name, *idx):
        q = tuple(p[i] for i in idx)
        if (name, q) not in cache:
            cache[name, q] = exact(name, q)
        return cache[name, q]
    i, j, kk, l = order
    out = K1 * E[1] * E[2] * E[3] * k('Db1', 1, 2, 3)
    pair, other = ((i, j), (kk, l)) if 0 in (i, j) else ((kk, l), (i, j))
    partner = pair[0] + pair[1]
    out += K1 * E[partner] * s[other[0]] * s[other[1]] * k('Db2', partner, *other)
    if 0 in (i, j):
        # m0 = E0 for a massive particle at rest
        out += 0. if m[0] == 0 else K2 * m[partner] * (E[kk] * E[l] * k('Db1', 1, 2, 3) + s[kk] * s[l] * k('Db2', partner, kk, l))
    else:
        out += K2 * m[i] * m[j] * E[partner] * k('Db1', 1, 2, 3)
    return out


def sides_alphabet():
    return [s for s in itertools.product((-1, 1), repeat=4) if len(set(s)) == 2]


def element(ck, arg):
    from interactions.four_particle.cpp import integral as cpp
    order, thorough = arg
    cache, count = {}, 0
    for m in itertools.product((0., 1., 3.), repeat=4):
        for p in itertools.product((0.5, 2., 5.), repeat=4):
            count += 1
            if not thorough and (count + sum(order[:2])) % 4:
                continue
            E = [math.sqrt(x * x + y * y) for x, y in zip(p, m)]
            scale = max(E) ** 5
            E_rest = [m[0]] + E[1:]
            p_rest = (0.,) + p[1:]
            for s in sides_alphabet():
                if not thorough and s[0] > 0:
                    continue                 # the overall sign of the sides drops out; thorough covers both
                with ck.case('combined kernel', order, s, p, m):
                    for K1, K2 in ((1., 0.), (0., 1.), (2., -3.)):
                        got = cpp.D(list(p), E, list(m), K1, K2, list(order), list(s))
                        want = combined(p, E, m, K1, K2, order, s, cache)
                        ck.require(abs(got - want) <= 1e-11 * scale, 'combined kernel is the matrix element averaged over angles', (K1, K2), got, want)
                    if p[0] == 0.5:
                        for K1, K2 in ((1., 0.), (0., 1.), (2., -3.)):
                            got = cpp.Db(list(p_rest), E_rest, list(m), K1, K2, list(order), list(s))
                            want = at_rest(p_rest, E_rest, m, K1, K2, order, s, cache)
                            ck.require(abs(got - want) <= 1e-11 * scale, 'combined kernel for a particle at rest', (K1, K2), got, want)
                ck.trace()
                ck.state((order, s, p, m))
        if ck.broken:
            return


def limits(ck, _):
    """ the rest-frame kernel is the limit of the general one, on the code's own kernels """
    from interactions.four_particle.cpp import integral as cpp
    for order in itertools.permutations(range(4)):
        for p in itertools.product((0.5, 2., 3., 5.), repeat=3):
            big = max(p)
            if abs(2 * big - sum(p)) < 1e-9:
                continue                      # on the wall the limit depends on the side
            for m in ((1., 0., 0., 0.), (1., 2., 0., 3.), (3., 1., 1., 2.)):
                for s in sides_alphabet():
                    E = [m[0]] + [math.sqrt(x * x + y * y) for x, y in zip(p, m[1:])]
                    tiny = 1e-4
                    E1 = [math.sqrt(tiny ** 2 + m[0] ** 2)] + E[1:]
                    with ck.case('limit of a slow particle', order, p, m, s):
                        rest = cpp.Db([0.] + list(p), E, list(m), 1., .5, list(order), list(s))
                        slow = cpp.D([tiny] + list(p), E1, list(m), 1., .5, list(order), list(s)) / (tiny * E1[0])
                        ck.require(abs(rest - slow) <= 1e-3 * max(E) ** 4, 'a particle at rest is the limit of slow ones', rest, slow)
                    ck.trace()


def shard(ck, arg):
    {'lattice': lambda: lattice(ck, *arg[1:]), 'walls': lambda: walls(ck, arg[1]),
     'element': lambda: element(ck, arg[1:]), 'limits': lambda: limits(ck, None)}[arg[0]]()


def explore(ck, tier):
    N = 18 if ck.thorough else 10
    args = [('limits',)]
    args += [('element', order, ck.thorough) for order in itertools.permutations(range(4))]
    args += [('walls', name) for name in KERNELS]
    args += [('lattice', name, first, N) for name in KERNELS for first in range(N + 1)]
    ck.sample({'kernel': 'D2', 'momenta': [1, 2, 3, 4], 'exact': exact('D2', (1, 2, 3, 4))})
    ck.shards(shard, args)
