"""P05: quadrature. Monomials span the space the rules are exact on: every monomial up to the degree of the rule,
on every interval of an alphabet, for every rule and configured order, against closed forms."""
import itertools
import math
import sys

import numpy

from mc.harness import environ

PROPERTY = 'P05'
NEEDS_EXTENSIONS = False
ASSUMPTIONS = ['relative tolerance 1e-9 against the magnitude of the integrand']
BOUNDS = {'quick': 'orders {1, 2, 3, 5, 8, 16, 30, 64, 100, 128}: all monomials up to degree min(2n-1, 120) on 17 intervals (10^-15 to 10^13 wide), both orientations; 2D: all monomials of total degree <= 10 (and within the order) on 8 variable-bound regions x 4 orders; 3 exponential families, adaptive and fixed',
          'thorough': '13 orders from 1 to 200: all monomials up to degree min(2n-1, 250) on 17 intervals; 2D total degree <= 16 x 7 orders'}

INTERVALS = [(-1., 1.), (0., 1.), (0., 20.), (1e-3, 0.5), (-3., 2.), (5., 5.5), (0., 1e-6), (2., -1.), (1., 0.),
             (-1e3, 1e3), (0.1, 0.10001), (3., 3.), (-7., 0.), (100., 101.),
             (0., 1e-13), (-2e-16, 1e-15), (3e11, 7e12)]


def fresh():
    """ import the integrators under the current environment """
    for name in [n for n in sys.modules if n.split('.')[0] in ('common', 'environment', 'particles', 'interactions')]:
        del sys.modules[name]
    import common.integrators as I
    from common.integrators import gauss_laguerre, gauss_legendre, paired
    return I, gauss_laguerre, gauss_legendre, paired


def one_dimension(ck, arg):
    order, intervals, top = arg
    with environ(GAUSS_LEGENDRE_ORDER=str(order), GAUSS_LAGUERRE_ORDER=str(order)):
        I, laguerre, legendre, paired = fresh()
        for (a, b) in intervals:
            for k in range(0, min(2 * order - 1, top) + 1):
                m = max(abs(a), abs(b))
                exact = ((b / m)**(k + 1) - (a / m)**(k + 1)) / (k + 1) * m
                f = lambda x: (x / m)**k
                with ck.case('legendre', order, a, b, k):
                    ck.close(I.gaussian(f, a, b), exact, 'fixed-order integral of a monomial', 1e-9, 1e-12 * abs(b - a))
                    got, _ = I.integrate_1D(f, (a, b))
                    ck.close(got, exact, 'integral of a monomial', 1e-9, 1e-12 * abs(b - a))
                    got, _ = I.integrate_1D(f, bounds=[a, b])
                    two = paired.integrate_1D(lambda x: numpy.array([f(x), 3 - 2 * f(x)]), (a, b))
                    ck.close(two, (exact, 3 * (b - a) - 2 * exact), 'paired integrals of a monomial', 1e-9, 1e-11 * abs(b - a))
                    got = I.lambda_integrate((a, b))(lambda s: lambda x: s * f(x))(2.)
                    ck.close(got, 2 * exact, 'integral of a decorated integrand', 1e-9, 1e-12 * abs(b - a))
                ck.state((order, a, b, k))
                ck.outcome((order, exact))
            ck.trace()
        with ck.case('empty interval', order):
            ck.require(I.gaussian(lambda x: 1 / (x - 3.), 3., 3.) == 0, 'integral over an empty interval')
        for k in range(0, min(2 * order - 1, 40) + 1) if order <= 128 else ():
            with ck.case('laguerre', order, k):
                got, _ = laguerre.integrate_1D(lambda x: x**k)
                ck.close(got / math.factorial(k), 1., 'exponentially weighted integral of a monomial', 1e-8)
            ck.state(('laguerre', order, k))
            ck.trace()
        with ck.case('rule', order):
            ck.require(len(legendre.points) == order == len(legendre.weights), 'configured number of nodes', len(legendre.points))
            ck.require(len(laguerre.points) == order == len(laguerre.weights), 'configured number of nodes', len(laguerre.points))


REGIONS = {
    'square': ((0., 1.), lambda x: 0. * x, lambda x: 1. + 0. * x),
    'triangle': ((0., 2.), lambda x: 0. * x, lambda x: x),
    'strip': ((-1., 2.), lambda x: x - 1., lambda x: x + 0.5),
    'parabola': ((0., 1.5), lambda x: x * x, lambda x: 3. + 0. * x),
    'reversed': ((1., 0.), lambda x: 2. + 0. * x, lambda x: x),
    'empty': ((0., 2.), lambda x: 1. + x, lambda x: 1. + x),
    'point': ((2., 2.), lambda x: 0. * x, lambda x: x),
    'upside down': ((0., 2.), lambda x: 3. + 0. * x, lambda x: x),
}
CURVED = {'parabola': 2}


def moments(region, i, j):
    """ exact integral of x^i y^j over the region, by polynomial algebra """
    (a, b), g, h = REGIONS[region]
    P = numpy.polynomial.Polynomial
    x = P([0., 1.])
    inner = (h(x)**(j + 1) - g(x)**(j + 1)) * (1. / (j + 1))
    if not isinstance(inner, P):
        inner = P([inner])
    F = (inner * x**i).integ()
    return F(b) - F(a)


def two_dimensions(ck, arg):
    region, top, order = arg
    with environ(GAUSS_LEGENDRE_ORDER=str(order)):
        plane(ck, region, top, order, *fresh())


def plane(ck, region, top, order, I, _laguerre, _legendre, paired):
    (a, b), g, h = REGIONS[region]
    for i, j in itertools.product(range(top + 1), repeat=2):
        if i + j > top or CURVED.get(region, 1) * (j + 1) + i + 1 > 2 * order - 1:
            continue
        exact = moments(region, i, j)
        f = lambda x, y: x**i * y**j
        with ck.case('two dimensions', region, order, i, j):
            got, _ = I.integrate_2D(f, ((a, b), (g, h)))
            ck.close(got, exact, 'two-dimensional integral', 1e-9, 1e-10)
            ck.close(I.double_gaussian(f, a, b, g, h), exact, 'two-dimensional integral', 1e-9, 1e-10)
            both = paired.integrate_2D(lambda x, y: (f(x, y), -3. * f(x, y) * x), ((a, b), (g, h)))
            ck.close(both, (exact, -3. * moments(region, i + 1, j)), 'paired two-dimensional integrals', 1e-9, 1e-9)
        ck.state((region, order, i, j))
        ck.trace()


def simpson(ck, _):
    _, _, _, paired = fresh()
    for n, k in itertools.product(range(3, 40, 2), range(4)):
        grid = numpy.linspace(0.5, 3., n)
        exact = (3.**(k + 1) - 0.5**(k + 1)) / (k + 1)
        with ck.case('simpson', n, k):
            got = paired.integrate_1D_simpsons((grid**k, 2 * grid**k), grid)
            ck.close(got, (exact, 2 * exact), "Simpson's rule", 1e-11)
            other = numpy.linspace(-1., 1., n + 2)
            table = other[:, None]**k * grid[None, :]**k
            inner = (1. - (-1.)**(k + 1)) / (k + 1)
            got = paired.integrate_2D_simpsons((table, -table), (grid, other))
            ck.close(got, (exact * inner, -exact * inner), "Simpson's rule in two dimensions", 1e-10, 1e-12)
        ck.state((n, k))
        ck.trace()


def families(ck, adaptive):
    """ the integrands of the code: x^k exp(-c x), thermal occupation numbers """
    with environ(FIXED_ORDER_1D_QUADRATURE='' if adaptive else '1'):
        I, _, _, _ = fresh()
        for k, c, (a, b) in itertools.product(range(0, 7), (0.3, 1., 4.), ((0., 10.), (0., 25.), (1., 3.), (3., 1.))):
            def primitive(x):
                return -math.exp(-c * x) * sum(math.factorial(k) / math.factorial(i) * x**i / c**(k - i + 1) for i in range(k + 1))
            exact = primitive(b) - primitive(a)
            with ck.case('exponential', adaptive, k, c, a, b):
                got, err = I.integrate_1D(lambda x: x**k * numpy.exp(-c * x), (a, b))
                ck.close(got, exact, 'integral of an exponential', 1e-7, 1e-12)
            ck.state((adaptive, k, c, a, b))
            ck.trace()
        # a kink tells the configured rule: adaptive subdivision resolves it, the fixed rule is its own weighted sum
        for kink in (0.3, 0.77, 0.5):
            f = lambda x: numpy.abs(x - kink) ** 0.5
            exact = (kink**1.5 + (1 - kink)**1.5) / 1.5
            with ck.case('kink', adaptive, kink):
                got, _ = I.integrate_1D(f, (0., 1.))
                if adaptive:
                    ck.close(got, exact, 'adaptive integral', 1e-6)
                else:
                    x, w = numpy.polynomial.legendre.leggauss(100)
                    ck.close(got, 0.5 * sum(w * f(0.5 * x + 0.5)), 'fixed-order integral', 1e-12)
            ck.state((adaptive, kink))
            ck.trace()


def shard(ck, arg):
    {'1d': one_dimension, '2d': two_dimensions, 'simpson': simpson, 'families': families}[arg[0]](ck, arg[1])


def explore(ck, tier):
    t = ck.thorough
    jobs = [('simpson', None), ('families', True), ('families', False)]
    for order in ((1, 2, 3, 4, 5, 8, 13, 16, 30, 64, 100, 128, 200) if t else (1, 2, 3, 5, 8, 16, 30, 64, 100, 128)):
        jobs.append(('1d', (order, INTERVALS, 250 if t else 120)))
    for region in REGIONS:
        for order in ((2, 3, 5, 8, 30, 100, 150) if t else (2, 3, 8, 100)):
            jobs.append(('2d', (region, 16 if t else 10, order)))
    ck.shards(shard, jobs)
