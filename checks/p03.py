"""P03: momentum grids and reading a sampled distribution. Every small grid x every assignment of sample
values x every class of query momentum, in Python and in both compiled modules, against the definition."""
import itertools
import math

import numpy

from mc.harness import environ

PROPERTY = 'P03'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['samples are physical: 0 <= f < 1 for fermions, f >= 0 for bosons (the zero-momentum sample of a massless boson may be infinite)',
               'grids have at least two strictly increasing nodes', 'relative tolerance 1e-8 for interpolated values']
BOUNDS = {'quick': 'all 25 grids of <= 4 nodes over a 6-node alphabet x all sample assignments over 6 values x 4 masses x 2 statistics x 2 temperatures x 25 query classes; linear and logarithmic grids of 2..120 samples x 7 maxima; 150 heuristic grids',
          'thorough': 'all 31 grids of <= 6 nodes over a 6-node alphabet x all sample assignments over 6 values x 4 masses x 2 statistics x 2 temperatures; grids of 2..600 samples'}

NODES = (0., 0.5, 1., 2., 5., 20.)
VALUES = {1: (0., 1e-30, 1e-3, 0.3, 0.5, 0.999), -1: (0., 1e-30, 1e-3, 0.3, 1., 37.)}
MASSES = (0., 0.5, 3., 30.)
TEMPERATURES = (1., 0.37)


def occupancy(g, eta):
    """ 1 / (exp(g) + eta), without overflow """
    if g > 700:
        return math.exp(-g) if g < 745 else 0.
    if g == float('inf'):
        return 0.
    return 1. / (math.exp(g) + eta) if math.exp(g) + eta else float('inf')


def log_ratio(f, eta):
    if f == 0:
        return float('inf')
    if f == float('inf'):
        return 0.
    return math.log(1. / f - eta)


def definition(grid, f, p, m, eta, T):
    E = [math.hypot(x, m) for x in grid]
    Ep = math.hypot(p, m)
    if p > grid[-1]:
        return f[-1] * math.exp((E[-1] - Ep) / T)
    for i, x in enumerate(grid):
        if x == p:
            return f[i]
    i = max(j for j, x in enumerate(grid) if x < p)
    lo, hi = log_ratio(f[i], eta), log_ratio(f[i + 1], eta)
    if math.isinf(lo) or math.isinf(hi):
        return 0.
    w = (Ep - E[i]) / (E[i + 1] - E[i])
    return occupancy(w * hi + (1 - w) * lo, eta)


def queries(grid):
    out = list(grid)
    for lo, hi in zip(grid, grid[1:]):
        out += [lo + (hi - lo) * w for w in (1e-6, 0.25, 0.5, 0.9, 1 - 1e-6)]
        out += [float(numpy.nextafter(hi, lo))]
    out += [float(numpy.nextafter(grid[-1], 1e9)), grid[-1] * 1.1, grid[-1] * 3 + 1.]
    return out


def grids(limit):
    for n in range(1, limit):
        for rest in itertools.combinations(NODES[1:], n):
            yield (0.,) + rest


def bracket(ck, f, grid, ps, got, m, eta, T, what):
    """ The consequences a user sees, independently of the exact formula """
    for p, g in zip(ps, got):
        want = definition(grid, f, p, m, eta, T)
        ck.close(g, want, what, 1e-8, 1e-290, p)
        if p <= grid[-1]:
            j = [k for k in range(len(grid) - 1) if grid[k] <= p <= grid[k + 1]][0]
            lo, hi = sorted((f[j], f[j + 1]))
            ck.require(lo * (1 - 1e-9) <= g <= hi * (1 + 1e-9), what + ': outside the neighbouring samples', p, g, lo, hi)


def modules():
    import interactions.three_particle.cpp.integral as three
    import interactions.four_particle.cpp.integral as four
    return {'3p': three, '4p': four}


def sampled(ck, arg):
    grid, m, eta, T, deep = arg
    ps = queries(grid)
    garr = numpy.array(grid)
    parr = numpy.array(ps)
    mods = modules()
    for f in itertools.product(VALUES[eta], repeat=len(grid)):
        if ck.broken:
            return
        if eta == -1 and m == 0 and f[0] == 37.:
            f = (float('inf'),) + f[1:]
        farr = numpy.array(f)
        for name, mod in mods.items():
            with ck.case(name, 'interpolate', grid, f, m, eta, T):
                got = numpy.asarray(mod.distribution_interpolation(garr, farr, parr, m, eta, T, False))
                bracket(ck, f, grid, ps, got, m, eta, T, 'sampled distribution ' + name)
                ck.outcome(tuple(got))
            ck.state((name, grid, f, m, eta, T))
            ck.trace()
        if f[-1] == VALUES[eta][3]:
            ck.sample({'grid': grid, 'f': f, 'm': m, 'eta': eta, 'T': T}, limit=2)
    if deep:
        return
    # below the grid
    shifted = tuple(x + 0.25 for x in grid)
    for name, mod in mods.items():
        with ck.case(name, 'below the grid', shifted):
            try:
                mod.distribution_interpolation(numpy.array(shifted), garr * 0 + 0.25, numpy.array([0.1]), m, eta, T, False)
            except Exception:
                ck.trace()
            else:
                ck.require(False, 'a momentum below the grid is answered', name)
        # species in equilibrium: the thermal function, whatever the samples hold
        with ck.case(name, 'equilibrium', m, eta, T):
            pos = parr[parr > 0] if m == 0 and eta == -1 else parr
            got = numpy.asarray(mod.distribution_interpolation(garr, garr * 0 + 0.77, pos, m, eta, T, True))
            ck.close(got, [occupancy(math.hypot(p, m) / T, eta) for p in pos], 'equilibrium distribution ' + name, 1e-11, 1e-290)
        # thermal shapes with a chemical potential are reproduced everywhere
        for mu in (0., -0.7):
            with ck.case(name, 'thermal shape', grid, m, eta, T, mu):
                f = numpy.array([occupancy(math.hypot(p, m) / T - mu, eta) for p in grid])
                ps_in = [p for p in ps if p <= grid[-1]]
                got = numpy.asarray(mod.distribution_interpolation(garr, f, numpy.array(ps_in), m, eta, T, False))
                ck.close(got, [occupancy(math.hypot(p, m) / T - mu, eta) for p in ps_in], 'thermal shape ' + name, 1e-8, 1e-290)
        for x, want in lookup(grid):
            with ck.case(name, 'lookup', grid, x):
                ck.require(tuple(mod.binary_find(garr, x)) == want, 'bracketing nodes ' + name, x, mod.binary_find(garr, x), want)
                ck.state(('lookup', name, grid, x))


def lookup(grid):
    yield -1., (-1, 0)
    for i, x in enumerate(grid):
        yield x, (i, i)
        if i + 1 < len(grid):
            for w in (1e-9, 0.5, 1 - 1e-9):
                yield x + w * (grid[i + 1] - x), (i, i + 1)
    yield float(numpy.nextafter(grid[-1], 1e9)), (len(grid) - 1, -1)
    yield grid[-1] * 10 + 1, (len(grid) - 1, -1)


def long_lookup(ck, sizes):
    """ binary search over long tables: every node, every gap """
    import common
    for n in sizes:
        for kind in ('even', 'geometric'):
            grid = numpy.linspace(0., 7., n) if kind == 'even' else 7. * (1.2 ** numpy.arange(n) - 1) / (1.2 ** (n - 1.) - 1)
            if kind == 'geometric' and n > 150:
                continue
            for name, mod in modules().items():
                with ck.case(name, 'lookup', kind, n):
                    for x, want in lookup(grid):
                        got = tuple(mod.binary_find(grid, x))
                        ck.require(got == want, 'bracketing nodes ' + name, x, got, want)
                        ck.transitions += 1
                        ck.state(('long', name, kind, n, x))
            if kind == 'even':
                with ck.case('python', 'lookup', n):
                    g = common.LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=7.)
                    for x, want in lookup(g.TEMPLATE):
                        got = common.binary_find(g, x)
                        got = tuple(int(numpy.ravel(v)[0]) for v in got)
                        ck.require(got == want, 'bracketing nodes python', x, got, want)
                        ck.transitions += 1


def species(ck, arg):
    """ The same reading through a particle object and through the Python implementation """
    eta, mass, samples = arg
    import common
    from common import Params, UNITS, statistics
    from particles import Particle
    grid = common.LinearSpacedGrid(MOMENTUM_SAMPLES=samples, MAX_MOMENTUM=4 * UNITS.MeV)
    nodes = tuple(grid.TEMPLATE)
    ps = [p for p in queries([x / UNITS.MeV for x in nodes])]
    for T_dec in (0.5, 3.):            # in equilibrium at 1 MeV / decoupled
        params = Params(T=1. * UNITS.MeV, dy=0.1)
        with ck.case('species', eta, mass, samples, T_dec):
            part = Particle(name='x', mass=mass * UNITS.MeV, decoupling_temperature=T_dec * UNITS.MeV, params=params, grid=grid,
                            statistics=statistics.FERMION if eta == 1 else statistics.BOSON)
        for f in itertools.product(VALUES[eta][1:], repeat=samples):
            if ck.broken:
                return
            with ck.case('species', eta, mass, samples, T_dec, f):
                part._distribution = numpy.array(f)
                if T_dec < 1:
                    use = [p for p in ps if p > 0]
                    want = [occupancy(math.hypot(p, mass), eta) for p in use]
                    got = [float(part.distribution(p * UNITS.MeV)) for p in use]
                    ck.close(got, want, 'distribution of a species in equilibrium', 1e-10, 1e-290)
                    got = [float(numpy.ravel(common.interp(part, p * UNITS.MeV, part.conformal_mass))[0]) for p in use[:4]]
                    ck.close(got, want[:4], 'python reading in equilibrium', 1e-10, 1e-290)
                    break
                cm = mass / T_dec
                want = [definition([x / UNITS.MeV for x in nodes], f, p, cm, eta, 1.) for p in ps]
                got = [float(part.distribution(p * UNITS.MeV)) for p in ps]
                ck.close(got, want, 'distribution of a decoupled species', 1e-7, 1e-290)
                got = [float(numpy.ravel(common.interp(part, p * UNITS.MeV, cm * UNITS.MeV))[0]) for p in ps]
                ck.close(got, want, 'python reading of a decoupled species', 1e-7, 1e-290)
                vec = numpy.asarray(part.distribution(numpy.array(ps) * UNITS.MeV))
                ck.close(vec, want, 'distribution of a decoupled species (vector)', 1e-7, 1e-290)
                # the plasma expands and is heated, the decoupled species keeps its own comoving temperature
                then = params.a, params.aT, params.T
                params.a, params.aT = 3. * params.a, 1.4 * params.aT
                params.T = params.aT / params.a
                vec = numpy.asarray(part.distribution(numpy.array(ps) * UNITS.MeV))
                params.a, params.aT, params.T = then
                ck.close(vec, want, 'distribution of a decoupled species in a later plasma', 1e-7, 1e-290)
            ck.state((arg, T_dec, f))
            ck.trace()


def tables(ck, arg):
    """ linear and cubic interpolation """
    import common
    limit, = arg
    steps = (0.5, 1., 2.)
    for n in range(2, limit + 1):
        for gaps in itertools.product(steps, repeat=n - 1):
            grid = numpy.concatenate([[0.], numpy.cumsum(gaps)])
            for values in itertools.product((-1., 0., 2.5), repeat=n):
                if ck.broken:
                    return
                f = numpy.array(values)
                with ck.case('linear', tuple(grid), values):
                    read = common.linear_interpolation(f, grid)
                    cube = common.cubic_interpolation(f, grid)
                    for i, x in enumerate(grid):
                        ck.close(read(x), f[i], 'linear interpolation at a node', 1e-14)
                        ck.close(cube(x), f[i], 'cubic interpolation at a node', 1e-14)
                    for x in (grid[-1] * 1.0001, grid[-1] + 5.):
                        ck.close(read(x), f[-1], 'linear interpolation beyond the table')
                        ck.close(cube(x), f[-1], 'cubic interpolation beyond the table')
                    for i in range(n - 1):
                        for w in (0.125, 0.5, 0.75, 1 - 1e-6):
                            x = grid[i] + w * (grid[i + 1] - grid[i])
                            v = (x - grid[i]) / (grid[i + 1] - grid[i])
                            ck.close(read(x), (1 - v) * f[i] + v * f[i + 1], 'linear interpolation between nodes', 1e-9, 1e-12)
                            if i in (0, n - 2):
                                ck.close(cube(x), (1 - v) * f[i] + v * f[i + 1], 'cubic interpolation in the outer gaps', 1e-9, 1e-12)
                ck.state(('table', tuple(grid), values))
                ck.trace()
    for n in range(4, 30):
        grid = numpy.linspace(0., 3., n)
        for a, b, c in itertools.product((0., 1.7), (0., -2., 1.), (0., 0.5)):
            with ck.case('cubic', n, a, b, c):
                cube = common.cubic_interpolation(a + b * grid + c * grid**2, grid)
                inner = grid[1:-2, None] + (grid[1] - grid[0]) * numpy.array([0.1, 0.5, 0.99])
                for x in inner.ravel():
                    ck.close(cube(x), a + b * x + c * x * x, 'cubic interpolation reproduces a parabola on an even grid', 1e-9, 1e-11)
            ck.state(('parabola', n, a, b, c))


def shapes(ck, sizes):
    import common
    from common import UNITS
    for n in sizes:
        for top in (1e-3, 0.5, 1., 20., 100., 333.3, 1e5):
            for via in ('argument', 'environment'):
                if via == 'environment' and n % 10 != 1:
                    continue
                env = {'MOMENTUM_SAMPLES': str(n), 'MAX_MOMENTUM_MEV': str(int(top))} if via == 'environment' else {}
                if via == 'environment' and top < 1:
                    continue
                with environ(**env), ck.case('grid', n, top, via):
                    limit = (int(top) if via == 'environment' else top) * UNITS.MeV
                    kw = {} if via == 'environment' else {'MOMENTUM_SAMPLES': n, 'MAX_MOMENTUM': limit}
                    lin, log = common.LinearSpacedGrid(**kw), common.LogSpacedGrid(**kw)
                    for g in (lin, log):
                        t = g.TEMPLATE
                        ck.require(len(t) == n == g.MOMENTUM_SAMPLES, 'number of samples', len(t))
                        ck.require(t[0] == 0 and g.MIN_MOMENTUM == 0, 'the grid starts at zero momentum', t[0])
                        ck.close(t[-1], limit, 'the grid ends at the maximum', 1e-12)
                        ck.close(g.MAX_MOMENTUM, limit, 'stated maximum', 1e-12)
                        ck.close(g.BOUNDS, (0., limit), 'stated bounds', 1e-12)
                        ck.require(numpy.all(numpy.diff(t) > 0), 'the grid increases strictly')
                    ck.close(lin.TEMPLATE, limit * numpy.arange(n) / (n - 1.), 'even spacing', 1e-11, 1e-14 * limit)
                    gaps = numpy.diff(log.TEMPLATE)
                    ck.close(gaps[1:] / gaps[:-1], numpy.full(n - 2, 1.2), 'gaps of the logarithmic grid grow by 1.2', 1e-4)
                ck.state((n, top, via))
                ck.trace()


def heuristic(ck, arg):
    import common
    from common import UNITS
    M, aT, b, c = arg
    for tau in (1e-3, 0.02, 0.1, 0.35, 1., 5., 50.):
        with ck.case('heuristic grid', M, tau, aT, b, c):
            kw = {}
            if aT is not None:
                kw['aT'] = aT * UNITS.MeV
            if b is not None:
                kw['b'] = b
            if c is not None:
                kw['c'] = c
            g = common.HeuristicGrid(M * UNITS.MeV, tau * UNITS.s, **kw)
            t = g.TEMPLATE
            ck.require(t[0] == 0 and g.MIN_MOMENTUM == 0, 'the grid starts at zero momentum')
            ck.require(numpy.all(numpy.diff(t) > 0) and numpy.all(numpy.isfinite(t)), 'the grid increases strictly')
            ck.require(len(t) == g.MOMENTUM_SAMPLES and t[-1] == g.MAX_MOMENTUM and tuple(g.BOUNDS) == (0, g.MAX_MOMENTUM), 'stated size and bounds')
            a_max = math.sqrt((0.8 if b is None else b) * tau)
            T_max = (1. if aT is None else aT) / a_max
            ck.close(t[-1], a_max * (M + math.sqrt(M * T_max)) * UNITS.MeV, 'the grid reaches the momentum of the latest decay products', 1e-9)
        ck.state((arg, tau))
        ck.trace()


PARTS = {'sampled': sampled, 'species': species, 'tables': tables, 'shapes': shapes, 'heuristic': heuristic, 'lookup': long_lookup}


def shard(ck, arg):
    PARTS[arg[0]](ck, arg[1])


def explore(ck, tier):
    jobs = [('tables', (5 if ck.thorough else 4,))]
    limit = 6 if ck.thorough else 4
    for grid in sorted(grids(limit), key=len, reverse=True):
        for m, eta, T in itertools.product(MASSES, (1, -1), TEMPERATURES):
            jobs.append(('sampled', (grid, m, eta, T, False)))
    for eta, mass, n in itertools.product((1, -1), (0., 0.7, 5.), (2, 3, 4) if ck.thorough else (2, 3)):
        jobs.append(('species', (eta, mass, n)))
    top = 600 if ck.thorough else 120
    for i in range(8):
        jobs.append(('shapes', range(2 + i, min(top, 200), 8)))
        jobs.append(('lookup', range(2 + i, top, 8)))
    for M, aT, b, c in itertools.product((5., 33.9, 140., 300., 1000.), (None, 2.), (None, 0.5), (None, 100)):
        jobs.append(('heuristic', (M, aT, b, c)))
    ck.shards(shard, jobs)
