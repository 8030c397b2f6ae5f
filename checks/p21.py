"""P21: the semi-analytic estimates. The monitor sees every sequence of states of a small alphabet of rates and temperatures up to a depth, next to an
automaton; all interleavings of two Universes; and real runs of Universes with nuclear rates."""
import copy
import itertools
import math

from mc.harness import environ, quiet

PROPERTY = 'P21'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['the monitor is used on Universes that keep a rate table', 'the rates themselves are decided by P19', 'lifetime of the neutron 885.7 s', 'deuterium is generated at 0.065 MeV']
BOUNDS = {'quick': 'all sequences of up to 4 states over 11 kinds of states, of up to 3 over 30, of up to 2 over 99; all interleavings of all pairs of 2-state sequences over 8 kinds; 16 real runs',
          'thorough': 'as quick with 5, 3 and 2 states; 32 real runs'}

LIFETIME = 885.7
T_D = .065
# the six rates, reactions that destroy neutrons at even places; None: no new row
RATES = {
    'none': None,
    'balance': (1., 1., 1., 1., 1., 1.),
    'most': (9., 1., 9., .5, 9., 1.3),
    'ten': (10.0001, 1., 0., 0., 0., 0.),
    'less': (0., 0., 9.9999, 0., 0., 1.),
    'capture': (0., .5, 0., .4, 30., .1),
    'decay': (0., 0., 1., 0., 0., 0.),
    'back': (.1, 1., .2, 1., .1, 2.1),
    'backward': (0., 0., .3, 3., .0, .1),
    'forth': (5., 3., 0., 0., 0., 2.),
    'e': (100., 80., 0., 0., 0., 0.),
}
TEMPERATURES = (3., .0651, .065, .0649, .02)


class Automaton(object):
    """ what is known after each state """

    def __init__(self):
        self.neutron = self.deuterium = self.estimates = None

    def see(self, q, T, t, rates):
        if self.neutron is None and rates is not None:
            there, back = rates[0] + rates[2] + rates[4], rates[1] + rates[3] + rates[5]
            if there > 10 * back or 10 * there < back:
                self.neutron = (T, t)
        if self.deuterium is None and T <= T_D:
            self.deuterium = (T, t)
        if self.neutron and self.deuterium and self.estimates is None:
            wait = self.deuterium[1] - self.neutron[1]
            n = math.exp(-q / self.neutron[0] - wait / LIFETIME)
            self.estimates = (wait, n, 2 * n / (1 + n))


class World(object):
    """ what the monitor needs of a Universe """

    def __init__(self):
        import kawano
        from common import Params, UNITS
        from common.utils import DynamicRecArray
        self.params = Params(T=5 * UNITS.MeV, dy=.05)
        self.kawano = kawano
        self.kawano_data = DynamicRecArray(kawano.heading)
        self._n = 0
        self._rates = None

    def move(self, state):
        """ next state: kind of rates and temperature """
        from common import UNITS
        kind, T = state
        self._n += 1
        p = self.params
        p.T = T * UNITS.MeV
        p.t = (7. * self._n ** 2 + self._n / (1 + T)) * UNITS.s
        p.N_eff = 3.
        rates = RATES[kind]
        if rates is not None:
            self._rates = rates
            k = self.kawano_data
            row = {c: 1e3 + i for i, c in enumerate(k.columns[:6])}
            row.update(dict(zip(k.columns[6:], rates)))
            k.append(row)
        return T, p.t / UNITS.s, self._rates


KNOWN = ('neutron_decoupling_parameters', 'deuterium_generation_parameters', 'BBN_estimates')


def look(ck, u, auto, kept):
    from common import UNITS
    for name, want in zip(KNOWN, (auto.neutron, auto.deuterium, auto.estimates)):
        ck.require(hasattr(u, name) == (want is not None), 'known as soon as it happened and not before: ' + name, want)
        if want is None:
            continue
        got = getattr(u, name)
        if name in kept:
            ck.require(got is kept[name], 'determined once: ' + name)
        kept[name] = got
        if name == 'BBN_estimates':
            ck.require(len(got) == 3, 'three estimates')
            ck.close([got[0] / UNITS.s, got[1], got[2]], want, 'time of decay, neutrons per proton, helium fraction', 1e-9)
        else:
            ck.require(got is not u.params, 'the state is remembered, not followed: ' + name)
            ck.close([got.T / UNITS.MeV, got.t / UNITS.s], want, name, 1e-9)


def sequences(ck, arg):
    first, alphabet, depth = arg
    import semianalytic
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        import kawano
        q = kawano.q / UNITS.MeV

        def go(u, auto, kept, word):
            for state in alphabet:
                if ck.broken:
                    return
                longer = word + (state,)
                v, a, k = copy.deepcopy(u, {id(u.kawano): u.kawano}), copy.copy(auto), {}
                for name in kept:
                    k[name] = getattr(v, name)
                done = False
                with ck.case('sequence', longer):
                    a.see(q, *v.move(state))
                    semianalytic.step_monitor(v)
                    look(ck, v, a, k)
                    done = True
                ck.state((q, longer))
                ck.trace()
                ck.outcome((a.neutron is None, a.deuterium is None, a.estimates and round(a.estimates[2], 3)))
                if done and len(longer) < depth:
                    go(v, a, k, longer)
        u, auto, kept = World(), Automaton(), {}
        with ck.case('sequence', (first,)):
            auto.see(q, *u.move(first))
            semianalytic.step_monitor(u)
            look(ck, u, auto, kept)
            go(u, auto, kept, (first,))


def interleaved(ck, arg):
    a, alphabet = arg
    import semianalytic
    from common import UNITS
    with environ(LOGARITHMIC_TIMESTEP='1'), quiet():
        import kawano
        q = kawano.q / UNITS.MeV
        for b in itertools.product(alphabet, repeat=2):
            for order in set(itertools.permutations('AABB')):
                with ck.case('interleaved', a, b, ''.join(order)):
                    us, autos, kept = {c: World() for c in 'AB'}, {c: Automaton() for c in 'AB'}, {c: {} for c in 'AB'}
                    words = {'A': iter(a), 'B': iter(b)}
                    for c in order:
                        autos[c].see(q, *us[c].move(next(words[c])))
                        semianalytic.step_monitor(us[c])
                        for d in 'AB':
                            look(ck, us[d], autos[d], kept[d])
                ck.schedules += 1
                ck.state(('interleaved', a, b, order))


def real(ck, arg):
    """ a Universe that goes through decoupling of neutrons """
    T, h, log, dec, both = arg
    import semianalytic
    from common import LinearSpacedGrid, Params, UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    from particles import Particle
    M = UNITS.MeV
    import kawano
    q = kawano.q / M
    with environ(LOGARITHMIC_TIMESTEP='1' if log else ''), quiet():
        with ck.case('real', *arg):
            u = Universe(params=Params(T=T * M, dy=h) if log else Params(T=T * M, dx=h * M))
            electron = Particle(**SMP.leptons.electron)
            nu = Particle(**dict(SMP.leptons.neutrino_e, decoupling_temperature=dec * M), grid=LinearSpacedGrid(MOMENTUM_SAMPLES=31, MAX_MOMENTUM=30. * M))
            u.add_particles([Particle(**SMP.photon), electron, nu])
            u.init_kawano(electron=electron, neutrino=nu)
            auto, kept, seen = Automaton(), {}, []

            def monitor(v):
                rows = len(v.kawano_data)
                rates = [float(x) for x in v.kawano_data.data[rows - 1]][6:] if rows else None
                auto.see(q, v.params.T / M, v.params.t / UNITS.s, rates)
                semianalytic.step_monitor(v)
                look(ck, v, auto, kept)
                seen.append(1)
            u.step_monitor = monitor
            u.evolve((.05 if both else .3) * M, export=False)
            look(ck, u, auto, kept)
            ck.require(len(seen) > 3 and auto.neutron is not None, 'the run goes through decoupling', len(seen))
            ck.require((auto.estimates is not None) == both, 'the run reaches deuterium generation')
            if auto.estimates and T < 12:
                ck.require(.05 < auto.estimates[2] < .5, 'helium fraction', auto.estimates)
        ck.state(('real', arg))
        ck.trace()


def shard(ck, arg):
    {'sequences': sequences, 'interleaved': interleaved, 'real': real}[arg[0]](ck, arg[1])


def explore(ck, tier):
    everything = [(k, T) for k in sorted(RATES) for T in TEMPERATURES] + [(k, T) for k in ('most', 'ten', 'less', 'decay') for T in (1e-6, .06499999, .06500001, 1., 40., 1e3, .1, .6, .01, .005, 9.)]
    middle = [(k, T) for k in ('none', 'balance', 'ten', 'less', 'back', 'backward') for T in TEMPERATURES]
    small = [('none', 3.), ('none', .065), ('balance', 3.), ('balance', .06), ('ten', .7), ('most', .7), ('decay', .065), ('backward', .0651), ('less', .0649), ('back', 3.), ('forth', 5.)]
    d = 1 if ck.thorough else 0
    jobs = [('sequences', (s, small, 4 + d)) for s in small] + [('sequences', (s, middle, 3 + (d and 0))) for s in middle] + [('sequences', (s, everything, 2)) for s in everything]
    pairs = small[:8]
    jobs += [('interleaved', (a, pairs)) for a in itertools.product(pairs, repeat=2)]
    configs = [(2., .05, True), (10.5, .1, True), (.8, .02, True), (2., .03, False)] + ([(1., .01, True), (30., .1, True), (.6, .05, True), (1., .02, False)] if ck.thorough else [])
    jobs = [('real', c + (dec, both)) for c in configs for dec, both in ((1.5, True), (1e-3, True), (1.5, False), (20., True))][::1 if ck.thorough else 1] + jobs
    ck.shards(shard, jobs)
