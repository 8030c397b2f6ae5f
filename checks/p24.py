"""P24: units. Everything the code says about physics, in the unit it announces, is the same whatever number stands for one electronvolt; the units
and constants themselves have their published values."""
import ast
import importlib.machinery
import itertools
import math
import os
import pickle
import sys

import numpy

from mc.harness import environ, quiet

PROPERTY = 'P24'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['numbers that stand for an electronvolt are powers of two apart, so that no result in units may change at all except by the order of rounding (1e-9 is allowed)',
               'published values to the number of digits the code gives']
BOUNDS = {'quick': '6 other electronvolts x {constants, library of particles, of processes, set-up of sterile neutrinos at 60 masses x 3 angles, momentum grids, thermodynamics of 24 species through 9 temperatures, '
                   'momentum ranges of collision integrals (540 four-particle, 180 three-particle), 14 short-lived species through 81 sequences of 2 steps, 40 collision integrals, runs of Universes (linear and logarithmic steps x collisions, decays, oscillations, QCD transition, nuclear rates, estimates), exported files}',
          'thorough': 'as quick with 14 other electronvolts and more masses, states and steps'}

SCALES = (-31, -12, 1, 13, 30, 47)
MORE = (-40, -25, -20, -5, 5, 20, 25, 37)
TOL = 1e-9


# ---- another electronvolt --------------------------------------------------------------------------------------------

class Rescaled(importlib.machinery.SourceFileLoader):
    """ loads a module of the code with the number that stands for an electronvolt multiplied """
    factor = 1.

    def get_code(self, fullname):
        # never from the cache of compiled modules
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data)
        for node in ast.walk(tree):
            if isinstance(node, ast.ClassDef) and node.name == 'UNITS':
                for line in node.body:
                    if isinstance(line, (ast.Assign, ast.AnnAssign)) and line.value and any(isinstance(t, ast.Name) and t.id == 'eV' for t in getattr(line, 'targets', None) or [line.target]):
                        line.value = ast.copy_location(ast.BinOp(line.value, ast.Mult(), ast.Constant(self.factor)), line.value)
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)


class Finder(object):
    def __init__(self, root, factor):
        self.root, self.factor = root, factor

    def find_spec(self, name, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec and spec.origin and spec.origin.startswith(self.root + os.sep) and spec.origin.endswith('.py'):
            spec.loader = type('Loader', (Rescaled,), {'factor': self.factor})(name, spec.origin)
            return spec
        return None


def elsewhere(k, function, argument):
    """ what function(argument) returns in a process in which an electronvolt is 2^k times the usual number """
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        status = 1
        try:
            os.close(r)
            from mc import target
            sys.meta_path.insert(0, Finder(os.path.realpath(target.REPO), 2. ** k))
            try:
                from common import UNITS
                out = ('ok', function(argument), float(UNITS.MeV))
            except Exception as e:
                import traceback
                out = ('error', '{}: {}'.format(type(e).__name__, e), traceback.format_exc()[-1500:])
            data = pickle.dumps(out)
            while data:
                data = data[os.write(w, data):]
            status = 0
        finally:
            os._exit(status)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    _, status = os.waitpid(pid, 0)
    if not data:
        return ('error', 'the process ended with status {}'.format(status), '')
    return pickle.loads(data)


# ---- what there is to compare: dictionaries of numbers in announced units ----------------------------------------------

DIMENSION = {'keV': 1, 'eV': 1, 'MeV': 1, 'GeV': 1, 'TeV': 1, 's': -1, 'kg': 1, 'm': -1, 'N': 2, 'K9': 1, 'g_cm3': 4}
CONSTANTS = {'M_p': 1, 'G': -2, 'G_F': -2, 'H': 1, 'sin_theta_w_2': 0, 'g_R': 0, 'g_L': 0, 'f_K': 1, 'f_eta_c': 1, 'f_D': 1, 'f_Ds': 1, 'f_Ds_star': 1, 'eta': 0, 'alpha': 0, 'lambda_QCD': 1,
             'M_W': 1, 'delta_m12_sq': 2, 'delta_m13_sq': 2, 'rate_normalization': -5, 'MSW_constant': -4}


def constants(_):
    from common import CONST, UNITS
    out = {}
    for name, d in DIMENSION.items():
        out['unit', name] = getattr(UNITS, name) / UNITS.MeV ** d
    for name, d in CONSTANTS.items():
        out['constant', name] = getattr(CONST, name) / UNITS.MeV ** d
    return out


PUBLISHED = {
    # natural units, CODATA; MeV
    ('unit', 'eV'): (1e-6, 1e-12), ('unit', 'keV'): (1e-3, 1e-12), ('unit', 'MeV'): (1., 1e-12), ('unit', 'GeV'): (1e3, 1e-12), ('unit', 'TeV'): (1e6, 1e-12),
    ('unit', 's'): (1 / 6.582119569e-22, 1e-6), ('unit', 'kg'): (1 / 1.78266192e-30, 1e-6), ('unit', 'm'): (1 / 1.973269804e-13, 1e-5), ('unit', 'N'): (1.2315950e-6 * 1e6, 2e-3),
    ('unit', 'K9'): (.0861733326, 1e-5), ('unit', 'g_cm3'): (4.3101e-6, 2e-4),
    ('constant', 'M_p'): (1.220890e22, 1e-4), ('constant', 'G'): (6.70883e-45, 2e-4), ('constant', 'G_F'): (1.1663787e-11, 5e-4), ('constant', 'sin_theta_w_2'): (.2312, 2e-3),
    ('constant', 'g_R'): (.2312, 2e-3), ('constant', 'g_L'): (.7312, 2e-3), ('constant', 'f_K'): (155.6, 5e-3), ('constant', 'f_eta_c'): (335., .06), ('constant', 'f_D'): (212., 1e-2),
    ('constant', 'f_Ds'): (249., 1e-2), ('constant', 'f_Ds_star'): (315., 2e-2), ('constant', 'eta'): (6.1e-10, 1e-2), ('constant', 'alpha'): (1 / 137.035999, 1e-5),
    ('constant', 'lambda_QCD'): (150., 1e-9), ('constant', 'M_W'): (80379., 1e-3), ('constant', 'delta_m12_sq'): (7.37e-17, 1e-2), ('constant', 'delta_m13_sq'): (2.56e-15, 1e-2),
    ('constant', 'rate_normalization'): (17.5426, 5e-4), ('constant', 'H'): (1.447e-39, .02),
    ('constant', 'MSW_constant'): (16 * 1.2020569 * math.sqrt(2) * 1.1663787e-11 / math.pi / 80379. ** 2, 2e-3),
}
MASSY = {'mass': 1, 'lifetime': -1, 'decoupling_temperature': 1, 'decay_constant': 1, 'width': 1}


def particles(_):
    """ every entry of the library of particles """
    from common import UNITS
    from library import NuMSM, SM
    out = {}

    def entry(name, value):
        for k, v in value.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                out[name, k] = v / UNITS.MeV ** MASSY.get(k, 0)
            elif isinstance(v, dict):
                for kk, x in v.items():
                    if isinstance(x, (int, float)):
                        out[name, k, str(kk)] = x

    def walk(name, thing):
        for k, v in sorted(vars(thing).items()):
            if k.startswith('__'):
                continue
            if isinstance(v, dict) and 'mass' in v:
                entry(name + '.' + k, v)
            elif isinstance(v, type):
                walk(name + '.' + k, v)
    walk('SM', SM.particles)
    entry('sterile', NuMSM.particles.dirac_sterile_neutrino())
    entry('majorana', NuMSM.particles.sterile_neutrino())
    entry('sterile 200', NuMSM.particles.dirac_sterile_neutrino(mass=200. * UNITS.MeV, mixing_angle=.1))
    return out


def integrals_of(inters):
    """ matrix elements in powers of MeV """
    from common import UNITS
    out = {}
    for n, inter in enumerate(inters):
        for i, integral in enumerate(inter.integrals):
            four = len(integral.reaction) == 4
            for j, M in enumerate(integral.Ms):
                key = (n, inter.name, i, str([(q.side, q.specie.symbol) for q in integral.reaction]), j)
                out[key + ('K',)] = M.K if four else M.K / UNITS.MeV ** 2
                if four:
                    out[key + ('K1',)], out[key + ('K2',)] = M.K1 * UNITS.MeV ** 4, M.K2 * UNITS.MeV ** 4
    return out


def flat(x):
    for y in x:
        if isinstance(y, (list, tuple)):
            for z in flat(y):
                yield z
        else:
            yield y


def processes(_):
    from common import LinearSpacedGrid, UNITS
    from library import NuMSM, SM
    from library.SM import interactions as SMI, particles as SMP
    from library.NuMSM import interactions as NI
    from particles import Particle
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=3, MAX_MOMENTUM=3 * UNITS.MeV)

    def make(group, *names):
        return [Particle(grid=grid, **getattr(group, n)) for n in names]
    leptons = make(SMP.leptons, 'electron', 'muon', 'tau')
    nus = make(SMP.leptons, 'neutrino_e', 'neutrino_mu', 'neutrino_tau')
    photon = Particle(grid=grid, **SMP.photon)
    N = Particle(grid=grid, **NuMSM.particles.dirac_sterile_neutrino(mass=1200. * UNITS.MeV))
    thetas = {'electron': 1e-3, 'muon': .02, 'tau': 3e-5}
    inters = SMI.neutrino_interactions(leptons=leptons[:1], neutrinos=nus) + SMI.lepton_interactions(leptons=leptons, neutrinos=nus)
    inters += NI.sterile_leptons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=leptons)
    mesons = [Particle(grid=grid, **v) for k, v in sorted(vars(SMP.hadrons).items()) if isinstance(v, dict) and 'mass' in v and k not in ('neutron', 'proton')]
    inters += NI.sterile_hadrons_interactions(thetas=thetas, sterile=N, neutrinos=nus, leptons=leptons, mesons=mesons)
    inters += SMI.meson_interactions(primary_mesons=mesons, mesons=mesons, leptons=leptons, neutrinos=nus, photon=[photon], muon_tau=[1, 0])
    return integrals_of(flat(inters))


def sterile(arg):
    from common import UNITS, kinematics as K
    M = UNITS.MeV
    out = {}
    thorough, = arg
    masses = [.7 * 1.13 ** i for i in range(70)] + [105.658, 105.66, 106., 115.6, 134.98, 135.1, 135.33, 139.5, 139.57, 139.9, 150., 150.001, 493.7, 547.9, 775.2, 1019.5]
    if thorough:
        masses += [.7 * 1.03 ** i for i in range(280)]
    for mass, theta in itertools.product(masses, (1e-4, .01, .3)):
        with environ(Relativistic_decoupling=None):
            out[mass, theta, 'rel'] = K.decoupling_temperature_relativistic(mass * M, theta) / M
            out[mass, theta, 'dec'] = K.decoupling_temperature(mass * M, theta) / M
            out[mass, theta, 'kind'] = 1. if os.environ.get('Relativistic_decoupling') else 0.
            for name in ('HNL', 'neutrino', 'meson', 'lepton'):
                out[mass, theta, name, 'resolution'] = getattr(K, 'grid_resolution_' + name)(mass * M, theta) / M
                n, top = getattr(K, 'grid_params_' + name)(mass * M, theta)
                out[mass, theta, name, 'top'] = top / M
                out[mass, theta, name, 'samples'] = n // 2 if n > 1 << 30 else n
    return out


def grids(_):
    from common import UNITS
    import common
    M = UNITS.MeV
    out = {}
    from common import GRID, HeuristicGrid, LinearSpacedGrid, LogSpacedGrid
    todo = {'default': GRID, 'lin': LinearSpacedGrid(MOMENTUM_SAMPLES=11, MAX_MOMENTUM=7. * M), 'lin0': LinearSpacedGrid(), 'log': LogSpacedGrid(MOMENTUM_SAMPLES=12, MAX_MOMENTUM=30. * M), 'log0': LogSpacedGrid(),
            'heuristic': HeuristicGrid(50. * M, 2. * UNITS.s), 'heuristic2': HeuristicGrid(120. * M, .3 * UNITS.s, aT=2. * M)}
    for name, g in todo.items():
        out[name, 'min'], out[name, 'max'] = g.MIN_MOMENTUM / M, g.MAX_MOMENTUM / M
        for i, x in enumerate(g.TEMPLATE):
            out[name, i] = x / M
    return out


def species_table(arg):
    """ histories of species through falling temperatures """
    from common import LinearSpacedGrid, Params, UNITS
    from library.SM import particles as SMP
    from particles import Particle, STATISTICS
    M = UNITS.MeV
    log, = arg
    out = {}
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''):
        for mass, stat, dec in itertools.product((0., .4, 3., 60.), ('FERMION', 'BOSON'), (0., 2.5, 1e4)):
            p = Params(T=8. * M, dy=.1, dx=.01 * M)
            q = Particle(name='q', symbol='q', mass=mass * M, dof=3, statistics=getattr(STATISTICS, stat), decoupling_temperature=dec * M, Q=0, majorana=False,
                         grid=LinearSpacedGrid(MOMENTUM_SAMPLES=41, MAX_MOMENTUM=20. * M))
            if dec > 100:
                q._distribution = .3 * numpy.exp(-q.grid.TEMPLATE / M)
            q.set_params(p)
            for n in range(9):
                p.x *= 1.5
                p.a, p.t = p.x / p.m, p.t + n * UNITS.s
                p.T, p.H, p.rho = p.aT / p.a, 1e-20 * M, M ** 4
                q.update()
                key = (mass, stat, dec, n)
                out[key + ('regime',)] = str(q.regime.name)
                for name, d in (('density', 3), ('energy_density', 4), ('pressure', 4), ('entropy', 3), ('numerator', 3), ('denominator', 3)):
                    v = getattr(q, name, None)
                    v = v() if callable(v) else v
                    if v is not None:
                        out[key + (name,)] = float(v) / M ** d
                for i in (0, 3, 17, 40):
                    out[key + ('f', i)] = float(q._distribution[i])
                    out[key + ('f between', i)] = float(q.distribution(q.grid.TEMPLATE[i] * .7 + .1 * M))
    return out


def collisions(arg):
    """ collision integrals of a small alphabet """
    from checks import p12
    from common import UNITS
    part, thorough = arg
    M = UNITS.MeV
    out = {}
    configurations = list(itertools.product(range(len(p12.MASSES4)), (p12.FULL, p12.CREATION, p12.F_F), range(2)))[part::8]
    for i, kind, s in configurations:
        state = p12.STATES[(i + s) % 4]
        with environ(LOGARITHMIC_TIMESTEP='1' if state[3] else '', **p12.SETTINGS):
            elements = p12.ELEMENTS[(i + s) % 3]
            params, parts, inter = p12.build(p12.MASSES4[i], p12.SPECIES[i % 4], state, elements, kind, 2, samples=6)
            for n, integral in enumerate(inter.integrals):
                if n % 3 != s and not thorough:
                    continue
                integral.initialize()
                got = integral.integrate(integral.particle.grid.TEMPLATE, stepsize=params.h)
                unit = 1. if state[3] else 1. / M
                for j, x in enumerate(numpy.ravel(got)):
                    out['4', i, kind, s, n, j] = float(x) / unit
    for i, kind, s in list(itertools.product(range(len(p12.MASSES3)), (p12.FULL, p12.CREATION, p12.F_F), range(4)))[part::8]:
        state = p12.STATES[s]
        with environ(LOGARITHMIC_TIMESTEP='1' if state[3] else '', **p12.SETTINGS):
            params, parts, inter = p12.build(p12.MASSES3[i], tuple(x[:3] for x in p12.SPECIES[(i + s) % 4]), state, [dict(K=2.)], kind, 1, samples=10)
            for n, integral in enumerate(inter.integrals):
                integral.initialize()
                got = integral.integrate(integral.particle.grid.TEMPLATE, stepsize=params.h)
                unit = 1. if state[3] else 1. / M
                for j, x in enumerate(numpy.ravel(got)):
                    out['3', i, kind, s, n, j] = float(x) / unit
    return out


def ranges(arg):
    """ momenta at which collision integrals are evaluated """
    from checks import p14
    log, = arg
    out = {}
    sterile = 'Sterile neutrino (Dirac)'
    with environ(LOGARITHMIC_TIMESTEP='1' if log else '', MAX_MOMENTUM_MEV='30', FOUR_PARTICLE_GRID_RESOLUTION='3.', Relativistic_decoupling=None), quiet():
        for g, energy, T, own, heavy in itertools.product(((21, 20.), (7, 3.), (40, 8.), (11, 100.), (101, 50.)), (None, 12., 70.), (.4, 2.), (False, True), (5., 60., 150.)):
            for what, masses in (('scattering', (0., 1., 1., 0.)), ('creation', (0., 1., 2., heavy)), ('decay', (heavy, 0., 1., 2.))):
                w = p14.World(T=T, log=log)
                w.params.HNL_energy = energy * w.MeV if energy else None
                parts = [w.species(m, g[0], g[1], symbol='abcd'[i], name=sterile if own and m == max(masses) and (i in (0, 3)) else 'x%d' % i) for i, m in enumerate(masses)]
                for q in parts:
                    q.data['params']['density'][:1] = q.density
                points, _ = p14.run(w.integral(parts, p14.SIDES4[what], p14.F_1), True)
                key = (g, energy, T, own, heavy, what)
                out[key + ('n',)] = float(len(points))
                for i, x in enumerate(points):
                    out[key + (i,)] = float(x) / w.MeV
            w = p14.World(T=T, log=log)
            parts = [w.species(m, g[0], g[1], symbol='abc'[i]) for i, m in enumerate((0., .5, heavy))]
            points, _ = p14.run(w.integral(parts, p14.SIDES3['creation'], p14.F_1), False)
            for i, x in enumerate(points):
                out[g, energy, T, own, heavy, '3', i] = float(x) / w.MeV
    return out


def short(arg):
    """ histories of short-lived species """
    from checks import p22
    from common import UNITS
    spec, = arg
    M = UNITS.MeV
    out = {}
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        for sequence in itertools.product(range(len(p22.LETTERS)), repeat=2):
            q = p22.make(p22.SPECIES[spec], 1.5, 2., .01, True)
            for n, l in enumerate(sequence):
                p22.move(q.params, n, .01, True)
                q.update()
                for t in p22.LETTERS[l]:
                    q.collision_integrals.append(p22.Term(q, *t))
                got = q.integrate_collisions()
                for i in (1, 7, 40, 150):
                    out[sequence, n, i] = float(got[i])
                    out[sequence, n, i, 'f'] = float(q._distribution[i])
                out[sequence, n, 'number'] = float(getattr(q, 'num_creation', 0.)) / M ** 3
                out[sequence, n, 'density'] = float(q.density) / M ** 3
                q.update_distribution()
    return out


HISTORY = {'aT': 1, 'T': 1, 'a': 0, 'x': 1, 't': -1, 'rho': 4, 'N_eff': 0, 'S': 3}


def history(u, log, out):
    from common import UNITS
    for i in range(len(u.data)):
        for name, d in HISTORY.items():
            out['universe', name, i] = float(u.data[name][i]) / UNITS.MeV ** d
        out['universe', 'fraction', i] = float(u.data['fraction'][i]) / UNITS.MeV ** (1 if log else 0)
    for q in u.particles:
        for i in range(len(q._distribution)):
            out['f', q.name, i] = float(q._distribution[i])
        out['aT', q.name] = float(q.aT) / UNITS.MeV
        table = q.data['params']
        for i in range(len(table)):
            out['species', q.name, i, 'T'] = float(table['T'][i]) / UNITS.MeV
            out['species', q.name, i, 'n'] = float(table['density'][i]) / UNITS.MeV ** 3
            out['species', q.name, i, 'rho'] = float(table['energy_density'][i]) / UNITS.MeV ** 4


def runs(arg):
    """ short runs of whole Universes """
    from common import LinearSpacedGrid, Params, UNITS
    from evolution import Universe
    from library import NuMSM
    from library.SM import interactions as SMI, particles as SMP
    from particles import Particle
    import semianalytic
    which, log, steps = arg
    M = UNITS.MeV
    out = {}
    folder = None
    with environ(LOGARITHMIC_TIMESTEP='1' if log else '', MAX_MOMENTUM_MEV='30', FOUR_PARTICLE_GRID_RESOLUTION='3.'):
        T = {'weak': 1.2, 'rates': 2., 'decay': 12., 'qcd': 160., 'estimates': 3., 'files': 2.}[which]
        if which in ('files', 'rates'):
            import tempfile
            folder = os.path.join(tempfile.mkdtemp(prefix='p24-'), 'out')
        u = Universe(folder=folder, params=Params(T=T * M, dy=.3 if which == 'estimates' else .05) if log else Params(T=T * M, dx=M if which == 'estimates' else .05 * M / T))
        grid = LinearSpacedGrid(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=12. * M)
        photon, electron = Particle(**SMP.photon), Particle(**SMP.leptons.electron)
        nus = [Particle(grid=grid, **dict(getattr(SMP.leptons, n), decoupling_temperature=5. * M)) for n in ('neutrino_e', 'neutrino_mu')]
        u.add_particles([photon, electron] + nus)
        if which == 'weak':
            u.interactions += SMI.neutrino_interactions(leptons=[electron], neutrinos=nus)
            u.init_oscillations(SMP.leptons.oscillations_map, nus, matter_effects=True)
        if which in ('rates', 'files', 'estimates'):
            u.init_kawano(electron=electron, neutrino=nus[0])
        if which == 'estimates':
            u.step_monitor = semianalytic.step_monitor
        if which == 'decay':
            N = Particle(grid=LinearSpacedGrid(MOMENTUM_SAMPLES=7, MAX_MOMENTUM=20. * M), **NuMSM.particles.dirac_sterile_neutrino(mass=40. * M, mixing_angle=.01))
            N.decoupling_temperature = 20. * M
            u.add_particles([N])
            u.interactions += NuMSM.interactions.sterile_leptons_interactions(thetas={'electron': .03}, sterile=N, neutrinos=nus[:1], leptons=[electron])
        if which == 'qcd':
            u.add_particles([Particle(**SMP.quarks.up), Particle(**SMP.quarks.down), Particle(**SMP.gluon)])
        final = T / 1.05 ** (steps - .5) * M if which != 'estimates' else .05 * M
        if which == 'files':
            u.export_freq = 2
        try:
            u.evolve(final, export=which == 'files')
        except (SystemExit, FileNotFoundError, OSError):
            if which != 'files':
                raise
        if which == 'qcd':
            u.QCD_transition(hadrons=[Particle(**SMP.hadrons.neutral_pion), Particle(**SMP.hadrons.charged_pion)])
            u.evolve(final / 1.1, export=False, init_time=False)
        history(u, log, out)
        if which == 'estimates':
            time, ratio, helium = u.BBN_estimates
            out['estimates', 'time'], out['estimates', 'ratio'], out['estimates', 'helium'] = time / UNITS.s, ratio, helium
        if which in ('rates', 'estimates'):
            for i, row in enumerate(u.kawano_data.data[:len(u.kawano_data)]):
                units = [UNITS.s, M, M, M / UNITS.s, M ** 4, 1 / UNITS.s] + [1.] * 6
                for j, (x, y) in enumerate(zip(row, units)):
                    out['rates', i, j] = float(x) / y
        if which == 'files':
            for fn in sorted(os.listdir(folder)):
                if fn == 'log.txt':
                    continue
                with open(os.path.join(folder, fn)) as f:
                    for i, line in enumerate(f):
                        for j, word in enumerate(line.split()):
                            if log and fn == 'evolution.txt' and j == u.data.columns.index('fraction'):
                                # the column announces no unit
                                continue
                            try:
                                out['file', fn, i, j] = float(word)
                            except ValueError:
                                out['file', fn, i, j] = word
        if folder:
            import shutil
            shutil.rmtree(os.path.dirname(folder), ignore_errors=True)
    return out


# ---- exploration -----------------------------------------------------------------------------------------------------

def shard(ck, arg):
    name, argument, scales = arg
    function = globals()[name]
    with quiet():
        base = None
        with ck.case('usual units', name, argument):
            base = elsewhere(0, function, argument)
            ck.require(base[0] == 'ok', 'runs in the usual units', base[1:])
        if base is None or base[0] != 'ok':
            return
        number, base = base[2], base[1]
        ck.state((name, argument, 0))
        ck.count('quantities', len(base))
        if name == 'constants':
            for k, (value, tol) in PUBLISHED.items():
                with ck.case('published', k):
                    ck.close(base[k], value, 'published value', tol)
            with ck.case('derived units'):
                u = lambda n: base['unit', n]
                ck.close(u('N'), u('kg') * u('m') / u('s') ** 2, 'a newton is a kilogram metre per second squared', 2e-3)
                ck.close(u('g_cm3'), 1e-3 * u('kg') / (1e-2 * u('m')) ** 3, 'density unit', 2e-4)
                ck.close(base['constant', 'G'], 6.674e-11 * u('N') * u('m') ** 2 / u('kg') ** 2, 'constant of gravitation', 2e-3)
                ck.close(base['constant', 'G'] * base['constant', 'M_p'] ** 2, 1., 'Planck mass', 1e-9)
                ck.close(u('m') / u('s'), 1 / 299792458., 'speed of light', 1e-5)
        for k in scales:
            with ck.case('other units', name, argument, k):
                out = elsewhere(k, function, argument)
                ck.require(out[0] == 'ok', 'runs in other units', out[1:])
                if out[2] != number * 2. ** k:
                    ck.count('not in other units')
                    continue
                out = out[1]
                ck.require(set(out) == set(base), 'the same quantities exist in all units', sorted(map(str, set(out) ^ set(base)))[:5])
                for key, v in base.items():
                    x = out[key]
                    if isinstance(v, str):
                        ck.require(x == v, 'the same in all units', key, x, v)
                    elif not (x == v or x != x and v != v):
                        ck.require(abs(x - v) <= TOL * abs(v) + 1e-290, 'the same in all units', key, x, v)
            ck.state((name, argument, k))
            ck.outcome((name, len(base)))
            ck.trace()


def explore(ck, tier):
    scales = SCALES + (MORE if ck.thorough else ())
    jobs = [('constants', None), ('particles', None), ('processes', None), ('sterile', (ck.thorough,)), ('grids', None), ('species_table', (True,)), ('species_table', (False,))]
    jobs += [('ranges', (log,)) for log in (True, False)] + [('short', (i,)) for i in range(14)]
    jobs += [('collisions', (part, ck.thorough)) for part in range(8)]
    jobs += [('runs', (which, log, 9 if ck.thorough else 5)) for which in ('weak', 'decay', 'rates', 'estimates', 'qcd', 'files') for log in (True, False)]
    ck.shards(shard, [(name, argument, scales) for name, argument in jobs])
