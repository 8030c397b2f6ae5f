"""P25: no hidden memory. What a step does is decided by the state one can see: a Universe that has lived through any history continues exactly as
one built anew, in a process that has computed nothing before, and put into the same state."""
import collections
import os
import pickle
import sys

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P25'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the visible state is: the parameters, everything that is numbers, text or tables of them in species and in the Universe, and the settings',
               'agreement to 1e-12 of the largest value (the same instructions on the same numbers)']
BOUNDS = {'quick': '7 Universes (neutrinos with oscillations and nuclear rates, sterile neutrino, mesons, constant and momentum-dependent matrix elements with three- and four-particle reactions, species in equilibrium, thermal relics) x {logarithmic, linear} steps x '
                   'every sequence of up to 2 (for two of the Universes 3) out of 9 happenings (step, collision terms evaluated and discarded, heating, distributions replaced, distributions changed in place, a change of one in a million, another step size, near-disappearance of heavy species, another Universe in the process), '
                   'with and without the correction of order for some',
          'thorough': 'as quick with sequences of up to 3 happenings for all'}

TOL = 1e-12
SETTINGS = dict(MAX_MOMENTUM_MEV='30', FOUR_PARTICLE_GRID_RESOLUTION='3.')


# ---- processes -------------------------------------------------------------------------------------------------------

def forked(function, *arguments):
    """ what function(*arguments) returns in a process of its own that starts as a copy of this one """
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            os.close(r)
            try:
                out = ('ok', function(*arguments))
            except BaseException as e:
                import traceback
                out = ('error', '{}: {}'.format(type(e).__name__, e)[:300], traceback.format_exc()[-900:])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ('error', 'the process ended with status {}'.format(status), '')
    return pickle.loads(data)


# ---- Universes -------------------------------------------------------------------------------------------------------

def parameters(T, log, h):
    from common import Params, UNITS
    return Params(T=T * UNITS.MeV, dy=h) if log else Params(T=T * UNITS.MeV, dx=h / T * UNITS.MeV)


def weak(log):
    from common import LinearSpacedGrid, UNITS
    from evolution import Universe
    from library.SM import interactions as SMI, particles as SMP
    from particles import Particle
    M = UNITS.MeV
    u = Universe(params=parameters(1.2, log, .04))
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=12. * M)
    photon, electron = Particle(**SMP.photon), Particle(**SMP.leptons.electron)
    nus = [Particle(grid=grid, **dict(getattr(SMP.leptons, n), decoupling_temperature=5. * M)) for n in ('neutrino_e', 'neutrino_mu')]
    u.add_particles([photon, electron] + nus)
    u.interactions += SMI.neutrino_interactions(leptons=[electron], neutrinos=nus)
    u.init_oscillations(SMP.leptons.oscillations_map, nus, matter_effects=True)
    u.init_kawano(electron=electron, neutrino=nus[0])
    return u


def sterile(log):
    from common import LinearSpacedGrid, UNITS
    from evolution import Universe
    from library import NuMSM
    from library.SM import particles as SMP
    from particles import Particle
    M = UNITS.MeV
    u = Universe(params=parameters(12., log, .04))
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=20. * M)
    photon, electron = Particle(**SMP.photon), Particle(**SMP.leptons.electron)
    nu = Particle(grid=grid, **dict(SMP.leptons.neutrino_e, decoupling_temperature=30. * M))
    N = Particle(grid=LinearSpacedGrid(MOMENTUM_SAMPLES=6, MAX_MOMENTUM=24. * M), **NuMSM.particles.dirac_sterile_neutrino(mass=40. * M, mixing_angle=.01))
    N.decoupling_temperature = 20. * M
    u.add_particles([photon, electron, nu, N])
    u.interactions += NuMSM.interactions.sterile_leptons_interactions(thetas={'electron': .03}, sterile=N, neutrinos=[nu], leptons=[electron])
    return u


def mesons(log):
    from common import LinearSpacedGrid, UNITS
    from evolution import Universe
    from library import NuMSM
    from library.SM import interactions as SMI, particles as SMP
    from particles import Particle
    M = UNITS.MeV
    u = Universe(params=parameters(15., log, .03))
    g = lambda n, top: LinearSpacedGrid(MOMENTUM_SAMPLES=n, MAX_MOMENTUM=top * M)
    photon, electron = Particle(**SMP.photon), Particle(**SMP.leptons.electron)
    nu = Particle(grid=g(9, 220.), **dict(SMP.leptons.neutrino_e, decoupling_temperature=30. * M))
    mu = Particle(grid=g(8, 150.), **dict(SMP.leptons.neutrino_mu, decoupling_temperature=30. * M))
    muon = Particle(grid=g(9, 160.), **SMP.leptons.muon)
    pions = [Particle(grid=g(10, 220.), **getattr(SMP.hadrons, n)) for n in ('neutral_pion', 'charged_pion')]
    N = Particle(grid=g(7, 60.), **NuMSM.particles.dirac_sterile_neutrino(mass=200. * M, mixing_angle=.01))
    for q in pions + [muon, N]:
        q.decoupling_temperature = 20. * M
    u.add_particles([photon, electron, nu, mu, muon, N] + pions)
    primary = NuMSM.interactions.sterile_hadrons_interactions(thetas={'electron': 1e-3, 'muon': 1e-3, 'tau': 0.}, sterile=N, neutrinos=[nu, mu], leptons=[electron, muon], mesons=pions)
    u.interactions += primary + NuMSM.interactions.interactions_decay_products(interactions_primary=[primary], muon_dec=True, neutrinos=[nu, mu], leptons=[electron, muon], mesons=pions, photon=[photon])
    return u


def species(i, T, mass, dof=2, fermion=True, majorana=False, dec=1e6, samples=6, top=12., **kw):
    from common import LinearSpacedGrid, UNITS
    from particles import Particle, STATISTICS
    M = UNITS.MeV
    return Particle(name='species {}'.format(i), symbol='abcdefgh'[i], mass=mass * M, dof=dof, majorana=majorana, Q=0, decoupling_temperature=dec * M,
                    statistics=STATISTICS.FERMION if fermion else STATISTICS.BOSON, grid=LinearSpacedGrid(MOMENTUM_SAMPLES=samples + i, MAX_MOMENTUM=top * M), **kw)


def general(log, T=2., four=True, three=True):
    """ reactions of an arbitrary model """
    from common import UNITS
    from evolution import Universe
    from interactions import CrossGeneratingInteraction
    from interactions.four_particle import FourParticleIntegral, FourParticleM
    from interactions.three_particle import ThreeParticleIntegral, ThreeParticleM
    from library.SM import particles as SMP
    from particles import Particle
    M = UNITS.MeV
    u = Universe(params=parameters(T, log, .05))
    a, b = species(0, T, 0.), species(1, T, 1., fermion=False, dof=1, majorana=True)
    c, d = species(2, T, 6., dof=4), species(3, T, .5, dec=1e-3)
    u.add_particles([Particle(**SMP.photon), a, b, c, d])
    for n, q in enumerate((a, b, c)):
        q._distribution = .4 * numpy.exp(-q.grid.TEMPLATE / M * (.3 + .1 * n))
    weak = 3. * (1.166e-11 / M ** 2) ** 2
    if four:
        u.interactions.append(CrossGeneratingInteraction(name='constant', particles=((a, d), (b, d)), antiparticles=((False, False), (False, False)), Ms=(FourParticleM(K=weak * 30. * M ** 4),), integral_type=FourParticleIntegral))
        u.interactions.append(CrossGeneratingInteraction(name='weak', particles=((c, ), (a, d, d)), antiparticles=((False,), (True, False, True)), Ms=(FourParticleM(K1=3 * weak, order=(0, 1, 2, 3)), FourParticleM(K2=weak, K=weak * M ** 4)), integral_type=FourParticleIntegral))
    if three:
        u.interactions.append(CrossGeneratingInteraction(name='decay', particles=((c,), (a, b)), antiparticles=((False,), (True, False)), Ms=(ThreeParticleM(K=3e-21 * M ** 2),), integral_type=ThreeParticleIntegral))
    return u


def relics(log):
    """ species that decouple on the way, disappear at once, or never were in equilibrium """
    from common import UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    from particles import Particle
    u = Universe(params=parameters(1.05, log, .04))
    parts = [species(0, 1., 0., dec=1.), species(1, 1., .6, dec=.96), species(2, 1., 2., fermion=False, dof=3, dec=1.02), species(3, 1., 0., thermal_dyn=False, dec=5.), species(4, 1., 10., dec=0.),
             species(5, 1., 1., dec=.97, fast_decay=True, lifetime=1e-3 * UNITS.s, BR={'a': 1.})]
    u.add_particles([Particle(**SMP.photon), Particle(**SMP.leptons.electron)] + parts)
    u.init_kawano(electron=u.particles[[q.name for q in u.particles].index('Electron')], neutrino=parts[0])
    return u


SCENARIOS = {'weak': weak, 'sterile': sterile, 'mesons': mesons, 'four': lambda log: general(log, three=False), 'three': lambda log: general(log, four=False, T=1.), 'both': general, 'relics': relics}
OTHER = {'weak': 'relics', 'sterile': 'weak', 'mesons': 'four', 'four': 'both', 'three': 'mesons', 'both': 'three', 'relics': 'weak'}


# ---- visible state ---------------------------------------------------------------------------------------------------

def plain(x):
    if isinstance(x, numpy.ndarray):
        return x.dtype != object
    if x is None or isinstance(x, (bool, int, float, complex, str, bytes, numpy.generic)) or isinstance(x, type) and x.__module__ in ('builtins', 'numpy'):
        return True
    if isinstance(x, dict):
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple, set, frozenset, collections.deque)):
        return all(plain(y) for y in x)
    # tables and the like; what is built once and shared (parameters, species, reactions) is found where it belongs
    from mc import target
    origin = getattr(sys.modules.get(type(x).__module__), '__file__', None) or ''
    return type(x).__name__ != 'Params' and origin.startswith(os.path.realpath(target.REPO) + os.sep) and hasattr(x, '__dict__') and all(plain(v) for v in vars(x).values())


def capture(u):
    """ everything that is data """
    pick = lambda thing: {k: v for k, v in vars(thing).items() if plain(v)}
    return pickle.loads(pickle.dumps((pick(u.params), [pick(q) for q in u.particles], pick(u), dict(os.environ))))


def overlay(u, state):
    params, parts, universe, settings = state
    os.environ.clear()
    os.environ.update(settings)
    # what appears only on the way or is kept privately is not state but something kept for later
    put = lambda thing, data: vars(thing).update({k: v for k, v in data.items() if hasattr(thing, k) and k not in ('clock_start', 'log_throttler') and (k[0] != '_' or k == '_distribution')})
    put(u.params, params)
    for q, data in zip(u.particles, parts):
        put(q, data)
    put(u, universe)


def observe(u):
    """ what one can measure """
    p = u.params
    out = {('params', k): getattr(p, k, None) for k in ('aT', 'T', 'a', 'x', 't', 'rho', 'H', 'N_eff', 'S', 'h', 'dx', 'dy', 'HNL_energy')}
    out['fraction'] = u.fraction
    for name in ('data', 'kawano_data'):
        table = getattr(u, name, None)
        if table is not None:
            out[name, 'rows'] = len(table)
            if len(table):
                out[name] = [float(x) for x in table.data[len(table) - 1]]
    for q in u.particles:
        for k in ('_distribution', 'collision_integral', 'aT', 'T', 'density', 'energy_density', 'pressure', 'entropy', 'decayed', 't_decoupling', 'num_creation', 'decoupling_temperature'):
            if hasattr(q, k):
                out[q.name, k] = numpy.array(getattr(q, k), dtype=float)
        out[q.name, 'regime'] = q.regime.name
        for k, table in q.data.items():
            out[q.name, k, 'rows'] = len(table)
        out[q.name, 'terms'] = numpy.array([q.numerator(), q.denominator()], dtype=float)
    out['sterile gone'] = os.environ.get('STERILE_DECAYED')
    return out


def same(ck, got, expected, message, *detail):
    ck.require(set(got) == set(expected), message + ' (quantities)', sorted(map(str, set(got) ^ set(expected)))[:5], *detail)
    for k, v in expected.items():
        x = got[k]
        if v is None or isinstance(v, str):
            ck.require(x == v, message, k, x, v, *detail)
            continue
        if x is None:
            ck.require(False, message, k, x, v, *detail)
        x, v = numpy.asarray(x, dtype=float), numpy.asarray(v, dtype=float)
        ck.require(x.shape == v.shape, message + ' (shape)', k, x.shape, v.shape, *detail)
        with numpy.errstate(all='ignore'):
            ok = (x == v) | (numpy.isnan(x) & numpy.isnan(v)) | (numpy.abs(x - v) <= TOL * numpy.abs(v) + 1e-300)
        ck.require(numpy.all(ok), message, k, 'got', x, 'expected', v, *detail)


# ---- happenings ------------------------------------------------------------------------------------------------------

def step(u):
    u.make_step()
    u.save()
    u.step += 1


def discarded(u):
    u.init_interactions()
    u.calculate_collisions()
    for q in u.particles:
        q.collision_integrals = []


def heated(u):
    u.params.aT *= 1.03
    u.params.update(u.total_energy_density(), u.total_entropy())


def replaced(u):
    for n, q in enumerate(u.particles):
        if not q.in_equilibrium:
            q._distribution = q._distribution * (.7 + .1 * n / len(u.particles))


def in_place(u):
    for n, q in enumerate(u.particles):
        if not q.in_equilibrium:
            q._distribution *= 1.2 - .3 * numpy.linspace(0., 1., len(q._distribution))


def touched(u):
    """ looked at, then changed by next to nothing """
    u.update_particles()
    discarded(u)
    u.params.aT *= 1 + 1e-6
    for q in u.particles:
        if not q.in_equilibrium:
            q._distribution = q._distribution * (1 - 1e-6)
    u.params.update(u.total_energy_density(), u.total_entropy())


def resized(u):
    p = u.params
    if p.dy:
        p.dy *= 1.5
        p.h = p.dy
        p.dx = p.x * p.dy
    else:
        p.dx *= 1.5
        p.h = p.dx


def gone(u):
    for q in u.particles:
        if q.mass and not q.in_equilibrium:
            q._distribution = q._distribution * 1e-17


def elsewhere(u):
    name, log = u.other
    with environ():
        v = SCENARIOS[name](log)
        v.params.update(v.total_energy_density(), v.total_entropy())
        step(v)


LETTERS = {'S': step, 'C': discarded, 'H': heated, 'D': replaced, 'I': in_place, 'T': touched, 'B': resized, 'G': gone, 'X': elsewhere}


def begin(name, log):
    u = SCENARIOS[name](log)
    u.other = (OTHER[name], log)
    u.params.init_time(u.total_energy_density())
    u.params.update(u.total_energy_density(), u.total_entropy())
    u.save_params()
    return u


def stepped(u):
    step(u)
    return observe(u)


def tree(u, prefix, depth, letters):
    """ every history that begins with prefix: the state it ends in and what the next step makes of it """
    out = {prefix: (capture(u), forked(stepped, u))}
    if depth:
        for l in letters:
            def branch(l=l):
                LETTERS[l](u)
                return tree(u, prefix + l, depth - 1, letters)
            got = forked(branch)
            if got[0] == 'ok':
                out.update(got[1])
            else:
                out[prefix + l] = (None, got)
    return out


def lived(name, log, first, depth, letters):
    u = begin(name, log)
    if first:
        LETTERS[first](u)
    return tree(u, first, depth, letters)


def anew(name, log, state):
    u = begin(name, log)
    overlay(u, state)
    return stepped(u)


def shard(ck, arg):
    name, log, ab, first, depth = arg
    settings = dict(SETTINGS, LOGARITHMIC_TIMESTEP='1' if log else '', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1' if ab else '', Relativistic_decoupling=None, STERILE_DECAYED=None)
    letters = ''.join(LETTERS)
    with environ(**settings), quiet():
        histories = {}
        with ck.case('histories', *arg):
            got = forked(lived, name, log, first, depth, letters)
            ck.require(got[0] == 'ok', 'Universe runs', got[1:])
            histories = got[1]
        for history, (state, result) in sorted(histories.items(), key=lambda x: (len(x[0]), x[0])):
            with ck.case(name, log, ab, history):
                ck.require(result[0] == 'ok', 'next step is possible', result[1:])
                new = forked(anew, name, log, state)
                ck.require(new[0] == 'ok', 'next step of a new Universe is possible', new[1:])
                same(ck, result[1], new[1], 'the step depends on what was there before only through the state')
                # what was only looked at, or happened elsewhere, leaves no mark
                for idle in 'X' if name in ('mesons', 'relics') else 'XC':
                    if 'G' in history and idle == 'C':
                        continue             # what has all but disappeared is found to be gone by the evaluation
                    if history.endswith(idle) and history[:-1] in histories and len(history) > 1:
                        same(ck, result[1], histories[history[:-1]][1][1], 'evaluations and other Universes leave no mark', idle)
            ck.state((name, log, ab, pickle.dumps(state and state[1])))
            ck.outcome((name, str(sorted(result[1].items(), key=str))[:3000] if result[0] == 'ok' else None))
            ck.schedules += 1
            ck.trace()
            ck.sample(name, log, history)


def explore(ck, tier):
    with ck.case('loading'):
        # loaded but not used before the processes part
        import evolution, kawano, particles, interactions.four_particle, interactions.three_particle, library.NuMSM, library.SM    # noqa
    cases = [(name, log, False) for name in SCENARIOS for log in (True, False) if (name, log) not in (('four', False), ('both', True)) or ck.thorough] + [(name, True, True) for name in ('relics', 'three')]
    deep = cases if ck.thorough else [('three', False, False), ('relics', True, True)]
    jobs = [case + (first, 2 if case in deep else 1) for case in cases for first in LETTERS]
    # the long ones first
    jobs.sort(key=lambda j: (j[4] == 1, j[0] in ('three', 'mesons', 'relics')))
    ck.shards(shard, jobs)
