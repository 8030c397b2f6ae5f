"""P02: the cosmological clock. All short histories of (density, comoving temperature, step) fed to the
real parameter object, from every start of a small alphabet, against a straight-line reference."""
import itertools
import math
import os

from mc.harness import environ

PROPERTY = 'P02'
NEEDS_EXTENSIONS = False
ASSUMPTIONS = ['total energy density is positive and finite', 'relative tolerance 1e-11 on every observable',
               'Planck mass 1.2209e22 MeV; MeV is read from the tree']
BOUNDS = {'quick': 'all histories of <= 3 steps over 18 (density, temperature drift, step) symbols from 48 starts; 12 runs of 3000 steps',
          'thorough': 'all histories of <= 4 steps over 18 symbols from 96 starts; 48 runs of 20000 steps'}
PI = math.pi


class Reference:
    """ What the state must be, from the definitions """
    def __init__(self, log, T, m, step, t, MeV):
        self.log, self.m, self.T, self.t = log, m, T, t
        self.Mp = 1.2209e22 * MeV
        self.a = m / T
        self.a_ini = self.a
        self.x = self.a * m
        self.aT = m
        self.step = step
        self.h = step
        self.dx = self.x * step if log else step
        self.H = 0.
        self.N_eff = 0.

    def advance(self):
        self.x += self.dx

    def update(self, rho, S):
        if self.log:
            self.dx = self.x * self.step
        self.rho, self.S = rho, S
        self.H = math.sqrt(8 * PI * rho / 3) / self.Mp
        photons = PI**2 / 15 * self.T**4
        self.N_eff = (rho - photons) / (7. / 8 * PI**2 / 15 * (self.T / 1.401)**4)
        old = self.a
        self.a = self.x / self.m
        self.T = self.aT / self.a
        self.t += (1 - old / self.a) / self.H


FIELDS = ['a', 'x', 'T', 'aT', 'H', 't', 'h', 'dx', 'N_eff', 'm', 'a_ini']


def compare(ck, real, ref, updated):
    for name in FIELDS + (['rho', 'S'] if updated else []):
        ck.close(getattr(real, name), getattr(ref, name), name, 1e-11, {'t': 1e-12 / ref.H if ref.H else 0., 'N_eff': 1e-11}.get(name, 0.))
    ck.close(real.a * real.T, real.aT, 'a T is the comoving temperature', 1e-12)
    ck.close(real.x, real.a * real.m, 'x = a m', 1e-12)


SYMBOLS = list(itertools.product((1., 1e-6, 7.3), (0., 0.02, -0.3), (1, 0)))


def start(log, T, m, step, t, MeV):
    from common import Params
    kw = {'T': T}
    kw['dy' if log else 'dx'] = step
    if m is not None:
        kw['m'] = m
    if t is not None:
        kw['t'] = t
    return Params(**kw), Reference(log, T, m if m is not None else MeV, step, t if t is not None else 0., MeV)


def rho_of(ref, factor):
    return factor * 10.75 * PI**2 / 30 * ref.T**4


def play(ck, real, ref, symbol, index):
    factor, drift, move = symbol
    real.aT += drift * ref.aT
    ref.aT += drift * ref.aT
    if move:
        real.x += real.dx
        ref.advance()
    rho, S = rho_of(ref, factor), 3.1 * ref.T**3 * factor
    t0 = real.t
    real.update(rho, S)
    ref.update(rho, S)
    compare(ck, real, ref, True)
    ck.require(real.t > t0 if move else abs(real.t - t0) < 1e-12 / ref.H, 'time runs forward exactly when the Universe expands', t0, real.t)


def histories(ck, arg):
    log, T, m, step, t, depth = arg
    from common import UNITS
    import copy
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
        with ck.case('start', log, T, m, step, t):
            real, ref = start(log, T, m, step, t, UNITS.MeV)
            compare(ck, real, ref, False)
            if log:
                ck.close(real.y, math.log(ref.a), 'logarithmic scale factor', 1e-12, 1e-14)
                ck.close(real.dy, step, 'dy', 1e-14)
            other, _ = start(log, T * 2, m, step, t, UNITS.MeV)
        if ck.n_violations:
            return
        untouched = {k: getattr(other, k) for k in FIELDS}

        def go(history, real, ref):
            fields = {k: v for k, v in vars(real).items()}
            for symbol in SYMBOLS:
                if ck.broken:
                    return
                r2, f2 = copy.copy(real), copy.copy(ref)
                seq = history + (symbol,)
                before = ck.n_violations
                with ck.case('history', (log, T, m, step, t), seq):
                    play(ck, r2, f2, symbol, len(seq))
                ck.state((log, T, m, step, t, seq))
                ck.outcome((r2.a, r2.T, r2.t))
                if len(seq) < depth and ck.n_violations == before:
                    go(seq, r2, f2)
                else:
                    ck.trace()
                    if ck.traces % 20000 == 1:
                        ck.sample({'start': [log, T, m, step, t], 'history': seq, 'T': r2.T, 't': r2.t})
            with ck.case('copies', (log, T, m, step, t), history):
                ck.require(fields == vars(real), 'a state changed when copies of it were advanced')
        go((), real, ref)
        with ck.case('isolation', log, T, m):
            ck.require(untouched == {k: getattr(other, k) for k in FIELDS}, 'another parameter object changed')


def run(ck, arg):
    log, T, m, step, kind, steps = arg
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
        with ck.case('run', arg):
            real, ref = start(log, T, m, step, None, UNITS.MeV)
            rho = rho_of(ref, 1.)
            returned = real.init_time(rho)
            ref.t = math.sqrt(3 / (32 * PI * rho)) * ref.Mp
            ck.close(real.t, ref.t, 'initial time of a radiation-dominated Universe', 1e-12)
            ck.close(returned, ref.t, 'initial time of a radiation-dominated Universe', 1e-12)
            for i in range(steps):
                play(ck, real, ref, (1., kind * 1e-5 * math.sin(i), 1), i)
                ck.transitions += 1
                ck.state((arg, i))
            if log and not kind:
                # radiation domination: t = 1/(2H) up to the first order of the step
                ck.require(abs(2 * real.H * real.t * (T / real.T)**0 - 1) < 3 * step, 't = 1/(2H) in radiation domination', real.H * real.t)
            ck.trace()


def refusals(ck):
    from common import Params, UNITS
    for log in (True, False):
        with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
            for kw in ({}, {'dx': 0.1} if log else {'dy': 0.1}):
                with ck.case('refuse', log, kw):
                    try:
                        Params(T=UNITS.MeV, **kw)
                    except Exception:
                        ck.trace()
                    else:
                        ck.require(False, 'a run without the step size of the configured scheme is accepted')
            with ck.case('accept', log):
                Params(T=UNITS.MeV, dx=0.1 * UNITS.MeV, dy=0.1)
            with ck.case('defaults', log):
                p = Params(T=UNITS.MeV, dx=0.1 * UNITS.MeV, dy=0.1)
                ck.close(p.t, 0., 'initial time'); ck.close(p.m, UNITS.MeV, 'normalisation'); ck.close(p.aT, p.m, 'initial aT')


def shard(ck, arg):
    {'histories': histories, 'run': run}[arg[0]](ck, arg[1])


def explore(ck, tier):
    from common import UNITS
    MeV = UNITS.MeV
    refusals(ck)
    jobs = []
    depth = 4 if ck.thorough else 3
    for log in (True, False):
        for T in (1e-2 * MeV, MeV, 10 * MeV, 1.3 * UNITS.GeV)[:4]:
            for m in (None, 2.5 * MeV, 1e-3 * MeV):
                for step in ((0.003, 0.5) if not ck.thorough else (0.003, 0.025, 0.5, 3.)):
                    scale = (m if m is not None else MeV)**2 / T
                    jobs.append(('histories', (log, T, m, step if log else step * scale, None if T != MeV else 1.5 * UNITS.s, depth)))
            for kind in (0, 1):
                for step in ((0.01,) if not ck.thorough else (0.001, 0.01, 0.1)):
                    jobs.append(('run', (log, T, None, step if log else step * MeV**2 / T, kind, 20000 if ck.thorough else 1500)))
    ck.shards(shard, jobs)
