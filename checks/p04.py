"""P04: time steppers. Every history length, every assignment of a small alphabet of derivative values, every
step size and stiffness, against weights derived here by exact rational interpolation."""
import itertools
import math
from fractions import Fraction

import numpy

PROPERTY = 'P04'
NEEDS_EXTENSIONS = False
ASSUMPTIONS = ['equally spaced histories (the code keeps a constant step)', 'relative tolerance 1e-12']
BOUNDS = {'quick': 'history lengths 0..8, explicit orders 1..5, all assignments of 4 derivative values (exact rational reference), 5 steps (zero included), 5 stiffness values; nine long histories (9 to 128 entries) with one distinguished entry at every position; all monomials of degree < order; scalar and array states',
          'thorough': 'history lengths 0..10, explicit orders 1..5, all assignments of 5 derivative values, 7 steps, 7 stiffness values; 13 long histories (10 to 1025 entries)'}


def weights(nodes):
    """ Integral over [0, 1] of the Lagrange basis on `nodes` (in units of the step), exactly """
    out = []
    for j, xj in enumerate(nodes):
        poly = [Fraction(1)]
        den = Fraction(1)
        for k, xk in enumerate(nodes):
            if k != j:
                poly = [Fraction(0)] + poly
                for i in range(len(poly) - 1):
                    poly[i] -= xk * poly[i + 1]
                den *= xj - xk
        out.append(sum(c / (i + 1) for i, c in enumerate(poly)) / den)
    return out


EXPLICIT = {n: weights([Fraction(-n + 1 + i) for i in range(n)]) for n in range(1, 6)}
IMPLICIT = {n: weights([Fraction(-n + 2 + i) for i in range(n)]) for n in range(1, 6)}
STEPS = (0.25, 1., 0., 1e-3, -0.5, 7., 1e-9)
STIFF = (0., -2., 0.5, -1e6, 1e-7, -37.5, 1e-3)
VALUES = (0., 1., -2., 3., 1e5)


def explicit(ck, arg):
    from common.integrators import adams_bashforth_correction
    n, values, steps = arg
    for fs in itertools.product(values, repeat=n):
        if ck.broken:
            return
        for h in steps:
            for order in [None] + list(range(1, min(n, 5) + 1)):
                use = order or min(n, 5)
                want = float(sum(w * Fraction(f) for w, f in zip(EXPLICIT[use], fs[-use:])) * Fraction(h))
                scale = abs(h) * max(map(abs, fs[-use:]))
                with ck.case('explicit', fs, h, order):
                    got = adams_bashforth_correction(fs=list(fs), h=h, order=order) if order else adams_bashforth_correction(fs=list(fs), h=h)
                    ck.close(got, want, 'explicit multistep correction', 1e-12, 1e-13 * scale)
                ck.state(('explicit', fs, h, order))
        ck.outcome(fs)
        ck.trace()


def implicit(ck, arg):
    from common.integrators import adams_moulton_solver
    n, values, steps, stiff = arg
    for fs in itertools.product(values, repeat=n):
        if ck.broken:
            return
        for h, B, A, y in itertools.product(steps, stiff, (0., 1.5), (0., -0.75)):
            for order in [None] + list(range(1, min(n + 1, 5) + 1)):
                use = order or min(n + 1, 5)
                w = IMPLICIT[use]
                past = fs[len(fs) - (use - 1):]
                rhs = Fraction(y) + Fraction(h) * (sum(c * Fraction(f) for c, f in zip(w, past)) + w[-1] * Fraction(A))
                factor = 1 - Fraction(h) * Fraction(B) * w[-1]
                if factor == 0:
                    continue
                want = float(rhs / factor)
                scale = (abs(y) + abs(h) * (abs(A) + sum(map(abs, past)))) / abs(float(factor))
                with ck.case('implicit', fs, h, B, A, y, order):
                    kw = {'order': order} if order else {}
                    got = adams_moulton_solver(y=y, fs=list(fs), A=A, B=B, h=h, **kw)
                    ck.close(got, want, 'implicit multistep solution', 1e-11, 1e-12 * scale)
                    # the defining equation, on the answer itself
                    resid = got - (y + h * (sum(float(c) * f for c, f in zip(w, past)) + float(w[-1]) * (A + B * got)))
                    ck.require(abs(resid) <= 1e-10 * (abs(y) + abs(h) * (abs(A) + sum(map(abs, past)) + abs(B * got)) + abs(got)),
                               'the implicit equation is solved', resid, got)
                ck.state(('implicit', fs, h, B, A, y, order))
        ck.outcome(fs)
        ck.trace()


def polynomials(ck, _):
    """ y' = t^k is integrated without error while k stays below the order """
    from common import integrators as I
    for n, degree, h, t0 in itertools.product(range(1, 9), range(5), (0.25, 0.1, 2.), (0., 1., -3.)):
        exact = ((t0 + h)**(degree + 1) - t0**(degree + 1)) / (degree + 1)
        fs = [(t0 + h * (i - n + 1))**degree for i in range(n)]
        scale = sum(map(abs, fs)) * abs(h) + abs(exact)
        if degree < min(n, 5):
            with ck.case('polynomial, explicit', n, degree, h, t0):
                ck.close(I.adams_bashforth_correction(fs=fs, h=h), exact, 'explicit correction of a polynomial', 1e-9, 1e-11 * scale)
                arr = [numpy.array([f, -2 * f, 0.]) for f in fs]
                ck.close(I.adams_bashforth_correction(fs=arr, h=h), numpy.array([exact, -2 * exact, 0.]), 'explicit correction of an array', 1e-9, 1e-11 * scale)
            ck.state(('p', n, degree, h, t0))
        if degree < min(n + 1, 5):
            with ck.case('polynomial, implicit', n, degree, h, t0):
                end = (t0 + h)**degree
                got = I.adams_moulton_solver(y=0.3, fs=fs, A=end, B=0., h=h)
                ck.close(got, 0.3 + exact, 'implicit correction of a polynomial', 1e-9, 1e-11 * scale)
                arr = [numpy.array([f, -2 * f]) for f in fs]
                got = I.adams_moulton_solver(y=numpy.array([0.3, 0.]), fs=arr, A=numpy.array([end, -2 * end]), B=numpy.array([0., -0.5]), h=h)
                w = float(IMPLICIT[min(n + 1, 5)][-1])
                ck.close(got, numpy.array([0.3 + exact, -2 * exact / (1 + 0.5 * h * w)]), 'implicit correction of an array', 1e-9, 1e-11 * scale)
            ck.state(('q', n, degree, h, t0))
        ck.trace()


def lengthy(ck, n):
    """ Only the latest entries of a long history count: one distinguished entry at every position """
    from common import integrators as I
    for at, order in itertools.product(range(n), [None, 1, 2, 3, 4, 5]):
        use = order or 5
        fs = [1. + (i % 7) for i in range(n)]
        fs[at] = -1e6
        kw = {'order': order} if order else {}
        with ck.case('long history', n, at, order):
            want = .5 * sum(float(w) * f for w, f in zip(EXPLICIT[use], fs[-use:]))
            ck.close(I.adams_bashforth_correction(fs=list(fs), h=.5, **kw), want, 'explicit correction over a long history', 1e-11, 1e-9)
            w = [float(x) for x in IMPLICIT[use]]
            want = (2. + .5 * sum(x * f for x, f in zip(w, fs[n - (use - 1):] + [3.]))) / (1. + .5 * .25 * w[-1])
            ck.close(I.adams_moulton_solver(y=2., fs=list(fs), A=3., B=-.25, h=.5, **kw), want, 'implicit solution over a long history', 1e-11, 1e-9)
        ck.state(('long', n, at, order))
        ck.trace()


def onestep(ck, _):
    from common import integrators as I
    rates = {'const': lambda t, y: 2., 't': lambda t, y: t, 'y': lambda t, y: -y, 'ty': lambda t, y: t * y + 1.}
    for name, y, t, h in itertools.product(rates, (0., 1., -3.5), (0., 2., -1.), (0.5, 1e-3, -0.25)):
        f = rates[name]
        with ck.case('one step', name, y, t, h):
            ck.close(I.euler_correction(y=y, t=t, f=f, h=h), h * f(t, y), 'forward Euler', 1e-13)
            k1 = f(t, y)
            ck.close(I.heun_correction(y=y, t=t, f=f, h=h), h * (k1 + f(t + h, y + h * k1)) / 2, "Heun's method", 1e-12, 1e-15)
        ck.state((name, y, t, h))
        ck.trace()
    for y, t, A, B, h in itertools.product((0., 1., -3.5), (0., 1.), (0., 2., -1.), (0., -3., 0.5, -1e5), (0.5, 1e-3, 3.)):
        with ck.case('implicit Euler', y, A, B, h):
            got = I.implicit_euler(y=y, t=t, A=A, B=B, h=h)
            ck.require(abs(got - (y + h * (A + B * got))) <= 1e-11 * (abs(y) + abs(h * A) + abs(h * B * got) + abs(got)), 'backward Euler', got)
            arr = I.implicit_euler(y=numpy.array([y, 0.]), t=t, A=numpy.array([A, 0.]), B=numpy.array([B, -1.]), h=h)
            ck.close(arr, [got, 0.], 'backward Euler on arrays', 1e-13)
        ck.state((y, t, A, B, h))
        ck.trace()


def impossible(ck, _):
    """ An order that the history cannot serve is refused or served with what there is """
    from common import integrators as I
    for n, order in itertools.product(range(0, 5), range(1, 6)):
        fs = [1., 3., -2., 5.][:n]
        for name, short, call, want in (
                ('explicit', order > n, lambda: I.adams_bashforth_correction(fs=list(fs), h=0.5, order=order),
                 lambda: 0.5 * sum(float(w) * f for w, f in zip(EXPLICIT[n], fs)) if n else 0.),
                ('implicit', order > n + 1, lambda: I.adams_moulton_solver(y=1., fs=list(fs), A=2., B=0., h=0.5, order=order),
                 lambda: 1. + 0.5 * sum(float(w) * f for w, f in zip(IMPLICIT[n + 1], fs + [2.])))):
            if not short:
                continue
            with ck.case('impossible order', name, n, order):
                try:
                    got = call()
                except Exception:
                    ck.trace()
                else:
                    ck.close(got, want(), 'an order beyond the history uses what there is', 1e-12, 1e-12)
            ck.state((name, n, order))


def shard(ck, arg):
    {'lengthy': lengthy, 'impossible': impossible, 'explicit': explicit, 'implicit': implicit, 'polynomials': polynomials, 'onestep': onestep}[arg[0]](ck, arg[1])


def explore(ck, tier):
    t = ck.thorough
    values = VALUES if t else VALUES[:4]
    lengths = [('lengthy', n) for n in ((10, 11, 13, 16, 20, 32, 64, 100, 128, 150, 200, 257, 1025) if t else (9, 10, 11, 13, 16, 32, 64, 100, 128))]
    jobs = lengths + [('impossible', None), ('polynomials', None), ('onestep', None)]
    for n in range(1, 9 if t else 7):
        jobs.append(('explicit', (n, values if n < 6 else values[:3] if n < 8 else values[:2], STEPS if t else STEPS[:5])))
    for n in range(7, 11 if t else 9):
        jobs.append(('explicit', (n, (0., 1.) if n > 7 else (0., 1., -2.), STEPS[:2])))
    for n in range(0, 9 if t else 6):
        vals = values if n < 4 else values[:3] if n < 6 else values[:2]
        for B in (STIFF if t else STIFF[:5]):
            jobs.append(('implicit', (n, vals, (STEPS if t else STEPS[:4]), (B,))))
    for n in range(6, 9):
        jobs.append(('implicit', (n, (0., 1.), STEPS[:2], STIFF[:3])))
    ck.shards(shard, jobs)
