"""P20: the QCD transition. Real Universes of all combinations of a small alphabet of quarks, hadrons and other species go through the transition at
every step of a run; next to them the written-out reference of P17; lists of interactions and filters over all their small arguments."""
import itertools
import math

import numpy

from checks import p17
from mc.harness import environ, quiet

PROPERTY = 'P20'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the species themselves are decided by P07, P08 and P15, the evolution before and after by P17', 'interactions given as quarkic are those of the Universe',
               'hadrons are not in the Universe before the transition']
BOUNDS = {'quick': 'all subsets of 5 quarks and gluons x 4 sets of hadrons x 5 sets of other species x 3 temperatures; transitions after 0..4 steps followed by 0..3 steps x linear/logarithmic x '
                   'Adams-Bashforth/Euler; interaction lists of up to 4 entries with all sublists; filters over all subsets of 4 names x 8 sums of sides',
          'thorough': 'as quick, all sets of other species, transitions after 0..7 steps and lists of up to 5 entries'}

QUARKS = {'Up quark': .3, 'Strange quark': 1.9, 'Charm quark': 2.5, 'Bottom quark': 60., 'Gluon': 0.}
HADRONS = {'Neutral pion': (1.35, 'BOSON', 1), 'Charged pion': (1.4, 'BOSON', 2), 'Proton': (9.4, 'FERMION', 4), 'Heavy meson': (2.2, 'BOSON', 3)}
OTHERS = {'photon': p17.KINDS['photon'], 'electron': p17.KINDS['electron'], 'neutrino': p17.KINDS['neutrino'], 'late': p17.KINDS['late'], 'heavy': p17.KINDS['heavy'], 'sterile': p17.KINDS['sterile'],
          'relic': p17.KINDS['relic']}


def alphabet():
    for n, m in QUARKS.items():
        p17.KINDS[n] = (m, 'BOSON', 16, 0., True, 0) if n == 'Gluon' else (m, 'FERMION', 12, 0., True, 2. / 3)
    for n, (m, stat, dof) in HADRONS.items():
        p17.KINDS[n] = (m, stat, dof, 0., True, 0)
    p17.KINDS['Down quark'] = (.6, 'FERMION', 12, 5., True, -1. / 3)      # not in equilibrium
    p17.KINDS['Top quark'] = (0., 'FERMION', 12, 0., True, 2. / 3)


def relativistic(members, T):
    """ degrees of freedom of the plasma """
    g = 0.
    for q in members:
        mass, stat, dof, dec, thermal, _ = p17.KINDS[q.name]
        if mass * 1. < T and q.in_equilibrium:
            g += dof * (7. / 8 if stat == 'FERMION' else 1.)
    return g


class Reference(p17.Reference):

    def transition(self, hadrons):
        from common import UNITS
        T = self.params.T / UNITS.MeV
        self.rows.pop()
        before = relativistic(self.members, T)
        self.members = [q for q in self.members if not (q.name.endswith(' quark') or q.name == 'Gluon')]
        new = p17.species(hadrons)
        for q in new.values():
            q.set_params(self.params)
        self.members += list(new.values())
        after = relativistic(self.members, T)
        self.params.aT *= (before / after) ** (1. / 3)
        self.expand()
        for q in self.members:
            q.update()
        self.expand()
        return before, after

    def evolve(self, T_final, init_time, seen=None):
        known = self.rho, self.S
        if init_time and self.started:
            from common import CONST
            self.total()
            self.params.t = math.sqrt(3 / (32 * math.pi * CONST.G * self.rho))
            self.rho, self.S = known
            init_time = False
        return super(Reference, self).evolve(T_final, init_time, seen)


def transit(ck, ref, u, hadrons, explicit):
    """ the same transition of the reference and of a Universe """
    from common import UNITS
    p = u.params
    old = (p.x, p.a, p.aT, p.T, p.t)
    kept = [q for q in u.particles if not (q.name.endswith(' quark') or q.name == 'Gluon')]
    loose = [(q, q._distribution.copy()) for q in kept if not q.in_equilibrium]
    rows = p17.table(u)
    before, after = ref.transition(hadrons)
    new = p17.species(hadrons)
    if hadrons or explicit:
        u.QCD_transition(hadrons=list(new.values()))
    else:
        u.QCD_transition()
    ck.require(p17.table(u) == rows[:-1], 'the state before the transition is replaced, the history before it stays', len(rows), len(u.data))
    ck.require(sorted(map(id, u.particles)) == sorted(map(id, kept + list(new.values()))), 'quarks and gluons are replaced by the hadrons', [q.name for q in u.particles])
    masses = [q.mass for q in u.particles]
    ck.require(masses == sorted(masses, reverse=True), 'species are ordered, the heaviest first', masses)
    ck.close(p.aT ** 3 * after, old[2] ** 3 * before, 'the entropy of the plasma is conserved', 1e-9)
    ck.close([p.x, p.a, p.t], [old[0], old[1], old[4]], 'neither time nor expansion', 1e-12)
    ck.close(p.T, p.aT / p.a, 'temperature after the transition', 1e-12)
    for q in new.values():
        ck.require(q.params is p, 'hadrons live in the Universe', q.name)
    for q in u.particles:
        if q.in_equilibrium:
            ck.close(q.T, p.T, 'species of the plasma have its temperature', 1e-12, 0, q.name)
    for q, f in loose:
        ck.close(q._distribution, f, 'species out of equilibrium are not affected', 0, 0, q.name)
    ck.close([p.aT, p.T, p.a, p.x, p.t, p.rho, p.H], [ref.params.aT, ref.params.T, ref.params.a, ref.params.x, ref.params.t, ref.rho, math.sqrt(8 * math.pi / 3 * ref.rho) / constant()],
             'state after the transition', 1e-9)
    return new


def constant():
    from common import CONST
    return CONST.M_p


def sets(ck, arg):
    quarks, thorough = arg
    from common import UNITS
    base = [('photon',), ('photon', 'electron'), ('photon', 'neutrino', 'late'), ('photon', 'electron', 'heavy', 'sterile'), ('photon', 'relic')]
    if thorough:
        base = [('photon',) + c for n in range(6) for c in itertools.combinations(sorted(set(OTHERS) - {'photon'}), n)]
    hadrons = [(), ('Neutral pion',), ('Neutral pion', 'Charged pion', 'Proton'), ('Heavy meson', 'Proton')]
    alphabet()
    for others, had, T, k in itertools.product(base, hadrons, (2., 1.9, 8.), (0, 1)):
        if ck.broken:
            return
        names = others + quarks
        h = .04
        with environ(LOGARITHMIC_TIMESTEP='1', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION=''), quiet():
            with ck.case('species', names, had, T, k):
                ref = Reference(names, (), T, h, True, False)
                u, members = p17.build(names, (), T, h, True)
                final = T * (.9999 if k else 2.) * UNITS.MeV
                ref.evolve(final, True)
                u.evolve(final, init_time=True, export=False)
                transit(ck, ref, u, had, T > 5)
                ck.outcome((before_after(ref, T)))
        ck.state(('species', names, had, T, k))
        ck.trace()


def before_after(ref, T):
    return round(ref.params.aT, 6)


def histories(ck, arg):
    names, had, couple, log, ab, most = arg
    from common import UNITS
    alphabet()
    T, h = 2., .05 if log else .03
    for k, n, init, twice in itertools.product(range(most), range(4), (False, True), (False, True)):
        if ck.broken:
            return
        if init and (k + n) % 2:
            continue
        with environ(LOGARITHMIC_TIMESTEP='1' if log else '', ADAMS_BASHFORTH_TEMPERATURE_CORRECTION='1' if ab else ''), quiet():
            with ck.case('history', names, had, couple, 'log' if log else 'linear', 'AB' if ab else 'Euler', k, n, init, twice):
                ref = Reference(names, couple, T, h, log, ab)
                u, members = p17.build(names, couple, T, h, log)
                ref.evolve(1e9 * UNITS.MeV, True)
                u.evolve(1e9 * UNITS.MeV, init_time=True, export=False)

                def go(steps):
                    # the rows of the starting points of segments are part of the history
                    for _ in range(steps):
                        t = u.params.T * (1 - 1e-13)
                        ref.evolve(ref.params.T * (1 - 1e-13), False)
                        u.evolve(t, init_time=False, export=False)
                go(k)
                transit(ck, ref, u, had, True)
                ref.evolve(1e9 * UNITS.MeV, init)
                u.evolve(1e9 * UNITS.MeV, init_time=init, export=False)
                p17.compare(ck, p17.table(u), ref.rows, 'history through the transition')
                go(n)
                if twice:
                    # nothing left to replace: entropy of the same plasma
                    old = u.params.aT
                    transit(ck, ref, u, (), True)
                    ck.close(u.params.aT, old, 'without quarks nothing changes', 1e-12)
                    go(1)
                p17.compare(ck, p17.table(u), ref.rows, 'history after the transition')
                for q in ref.members:
                    r = [r for r in u.particles if r.name == q.name][0]
                    ck.close(r.data['params']['density'][-1], q.data['params']['density'][-1], 'density', 1e-8, 0, q.name)
                    if not q.in_equilibrium:
                        ck.close(r._distribution, q._distribution, 'distribution', 1e-8, 1e-30, q.name)
                    ck.require(len(r.data['params']) == len(q.data['params']), 'history of species', q.name)
        ck.state(('history', names, had, couple, log, ab, k, n, init, twice))
        ck.trace()


class Named(object):
    integrals = ()

    def __init__(self, name, log):
        self.name, self.log = name, log

    def initialize(self):
        self.log.append(self.name)


def lists(ck, arg):
    thorough = arg
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        alphabet()
        for n in range(6 if thorough else 5):
            for quarkic in itertools.chain.from_iterable(itertools.combinations(range(n), i) for i in range(n + 1)):
                for order, had, sec, form in itertools.product((1, -1), (None, 0, 2), (None, 0, 1), (list, tuple)):
                    with ck.case('interactions', n, quarkic[::order], had, sec, form.__name__):
                        u, _ = p17.build(('photon', 'Up quark', 'Gluon'), (), 2., .05, True)
                        u.interactions[:] = []
                        log = []
                        # names are for people: decays of different mesons share one
                        present = [Named('same' if had == 0 else i, log) for i in range(n)]
                        u.interactions += present
                        u.evolve(1e9 * UNITS.MeV, export=False)
                        args = {'hadrons': list(p17.species(('Neutral pion',)).values())}
                        gone = [present[i] for i in quarkic[::order]]
                        if gone or order > 0:
                            args['quarkic_interactions'] = form(gone)
                        new = []
                        if had is not None:
                            args['hadronic_interactions'] = form(Named('h%d' % i, log) for i in range(had))
                            new += args['hadronic_interactions']
                        if sec is not None:
                            args['secondary_interactions'] = form(Named('s%d' % i, log) for i in range(sec))
                            new += args['secondary_interactions']
                        given = {k: tuple(v) for k, v in args.items()}
                        u.QCD_transition(**args)
                        want = [i for i in present if i not in gone] + new
                        ck.require(sorted(map(id, u.interactions)) == sorted(map(id, want)), 'interactions after the transition', [i.name for i in u.interactions])
                        ck.require({k: tuple(v) for k, v in args.items()} == given, 'the lists given are not changed')
                        del log[:]
                        u.evolve(u.params.T * (1 - 1e-13), init_time=False, export=False)
                        ck.require(sorted(log, key=str) == sorted((i.name for i in want), key=str), 'each interaction takes part in the next step', log)
                    ck.state(('interactions', n, quarkic, order, had, sec, form.__name__))
                    ck.trace()


def filters(ck, _):
    from common import utils
    names = 'ABCD'

    class Thing(object):
        def __init__(self, **kw):
            self.__dict__.update(kw)
    # integrals of 2 to 4 items: names and sides
    reactions = [r for n in (2, 3) for r in itertools.product([(a, s) for a in names[:3] for s in (-1, 1)], repeat=n) if r[0][1] == -1]
    reactions += [tuple((a, s) for a, s in zip(w, sides)) for w in ('ABCD', 'AABB', 'BACD', 'DDDA', 'CBBB') for sides in itertools.product((-1, 1), repeat=4)]
    subsets = [c for n in range(5) for c in itertools.combinations(names, n)]
    kinds = [None] + [list(k) for k in ((), (0,), (-2,), (0, 2), (2, -2), (1,), (-1, 3, 4))]
    with quiet():
        for subset, first, kind, split in itertools.product(subsets, (True, False, None), kinds, (1, 3)):
            with ck.case('filter', subset, first, kind, split):
                integrals = [Thing(reaction=[Thing(specie=Thing(name=a), side=s) for a, s in r]) for r in reactions]
                inters = [Thing(integrals=integrals[i::split]) for i in range(split)]
                before = [list(i.integrals) for i in inters]
                args = {}
                if first is not None:
                    args['first_only'] = first
                if kind is not None:
                    args['reaction_type'] = kind
                got = utils.interaction_filter(list(subset), inters, **args)
                ck.require([id(i) for i in got] == [id(i) for i in inters], 'the interactions are returned')
                for i, old in zip(got, before):
                    want = []
                    for integral in old:
                        who = [x.specie.name for x in integral.reaction]
                        if first is not False:
                            who = who[:1]
                        if not set(who) & set(subset) and sum(x.side for x in integral.reaction) not in (kind or ()):
                            want.append(integral)
                    ck.require(list(map(id, i.integrals)) == list(map(id, want)), 'integrals that remain')
            ck.state(('filter', subset, first, kind, split))
            ck.trace()
        for n in range(5):
            for word in itertools.product(('A', 'AB', 'C', ''), repeat=n):
                for gone in [c for k in range(4) for c in itertools.combinations(('A', 'AB', 'B', 'C D'), k)]:
                    with ck.case('particles', word, gone):
                        things = [Thing(name=w, mass=len(w)) for w in word]
                        got = utils.particle_filter(list(gone), things)
                        ck.require(list(map(id, got)) == [id(t) for t in things if t.name not in gone], 'particles that remain')
                        ck.require(len(things) == n, 'the list given is not changed')
                    ck.state(('particles', word, gone))


def library(ck, _):
    """ the real particles of the library """
    from common import Params, UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    from particles import Particle
    quarks = [getattr(SMP.quarks, q) for q in ('up', 'down', 'charm', 'strange', 'top', 'bottom')] + [SMP.gluon]
    leptons = [getattr(SMP.leptons, n) for n in ('electron', 'muon', 'tau', 'neutrino_e', 'neutrino_mu', 'neutrino_tau')] + [SMP.photon]
    hadrons = [getattr(SMP.hadrons, n) for n in ('neutral_pion', 'charged_pion', 'charged_kaon', 'proton', 'neutron')]
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        from common import statistics as STATISTICS

        def g(s, T):
            return sum(q['dof'] * (7. / 8 if q.get('statistics', STATISTICS.FERMION) is STATISTICS.FERMION else 1.) for q in s if q.get('mass', 0.) < T)
        for T, gone in itertools.product((160., 300., 1500.), [()] + [(q['name'],) for q in quarks]):
            with ck.case('library', T, gone):
                u = Universe(params=Params(T=T * UNITS.MeV, dy=.05))
                here = [q for q in quarks if q['name'] not in gone]
                u.add_particles([Particle(**q) for q in leptons + here])
                u.evolve(1e9 * UNITS.MeV, export=False)
                aT = u.params.aT
                u.QCD_transition(hadrons=[Particle(**q) for q in hadrons])
                ck.require(sorted(q.name for q in u.particles) == sorted(q['name'] for q in leptons + hadrons), 'quarks and gluons disappear', [q.name for q in u.particles])
                t = T * UNITS.MeV
                ck.close(u.params.aT ** 3 * g(leptons + hadrons, t), aT ** 3 * g(leptons + here, t), 'entropy', 1e-9)
            ck.state(('library', T, gone))
            ck.trace()


def shard(ck, arg):
    {'sets': sets, 'histories': histories, 'lists': lists, 'filters': filters, 'library': library}[arg[0]](ck, arg[1])


def explore(ck, tier):
    quarks = list(QUARKS)
    jobs = [('lists', ck.thorough), ('filters', None), ('library', None)]
    for names, had, couple in ((('photon', 'electron', 'Up quark', 'Gluon'), ('Neutral pion',), ()), (('photon', 'neutrino', 'late', 'Up quark', 'Strange quark'), ('Charged pion', 'Heavy meson'),
                               (('neutrino', 'late', .5), ('late', 'neutrino', .5))), (('photon', 'relic', 'electron', 'Gluon', 'Down quark'), (), (('relic', None, .02),)),
                               (('photon', 'heavy', 'Charm quark', 'Bottom quark', 'Top quark'), ('Proton',), ())):
        jobs += [('histories', (names, had, couple, log, ab, 8 if ck.thorough else 5)) for log in (True, False) for ab in (True, False)]
    jobs += [('sets', (c, ck.thorough)) for n in range(len(quarks) + 1) for c in itertools.combinations(quarks, n)]
    ck.shards(shard, jobs)
