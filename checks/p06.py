"""P06: configuration. Every setting, unset and with every value class, alone and with every other setting changed."""
import itertools
import os

from mc.harness import environ

PROPERTY = 'P06'
NEEDS_EXTENSIONS = False
ASSUMPTIONS = ['a switch is turned off by the empty string and on by any other text (the convention of the project scripts)',
               'a switch that is off by default is only exercised as set/unset']
BOUNDS = {'quick': 'all 16+ settings x all value classes; all ordered pairs of settings, each unset/changed; all set-unset histories of length 4 on every setting',
          'thorough': 'as quick, plus all triples of settings and histories of length 7'}

DOCUMENTED = {
    'SPLIT_COLLISION_INTEGRAL': True, 'FIXED_ORDER_1D_QUADRATURE': True, 'GAUSS_LEGENDRE_ORDER': 100,
    'GAUSS_LAGUERRE_ORDER': 100, 'LOGARITHMIC_TIMESTEP': True, 'ADAMS_BASHFORTH_TEMPERATURE_CORRECTION': True,
    'ADAMS_MOULTON_DISTRIBUTION_CORRECTION': False, 'MOMENTUM_SAMPLES': 401, 'MAX_MOMENTUM_MEV': 100,
    'MAX_SCALE_FACTOR': 10, 'FOUR_PARTICLE_GRID_RESOLUTION': 0.24999, 'NORMAL_HIERARCHY_NEUTRINOS': True,
    'REGIME_SWITCHING_FACTOR': 1e3, 'SIMPSONS_INTEGRATION': False, 'SIMPSONS_NONEQ_PARTICLES': True,
    'LAGUERRE_GAUSS_FOR_MASSIVE_EQUILIBRIUM_PARTICLES': True,
}


def values(name):
    default = DOCUMENTED[name]
    if default is True:
        return [None, '', '1', '0', 'False', 'True', 'yes']
    if default is False:
        return [None, '', '1', '0', 'True']
    if isinstance(default, int):
        return [None, '1', '7', '51', '401', '1000']
    return [None, '0.5', '1', '1e3', '0.125', '64']


def meaning(name, text):
    default = DOCUMENTED[name]
    if text is None:
        return default
    if isinstance(default, bool):
        return bool(text)
    return type(default)(text)


def agree(ck, name, text):
    import environment
    got = environment.get(name)
    want = meaning(name, text)
    if isinstance(want, bool):
        ck.require(bool(got) == want, 'switch ' + name, text, got)
    else:
        ck.require(type(got) is type(want) and got == want, 'setting ' + name, text, got, want)


def alone(ck, _):
    import environment
    for name in DOCUMENTED:
        for text in values(name):
            with environ(**{name: text}), ck.case('setting', name, text):
                for other in DOCUMENTED:
                    agree(ck, other, text if other == name else None)
            ck.state((name, text))
            ck.outcome((name, str(meaning(name, text))))
            ck.trace()
    for text in (None, '', '1.25', 'x'):
        with environ(VERIF_UNLISTED=text), ck.case('unlisted', text):
            ck.require(environment.get('VERIF_UNLISTED') == text, 'a name without a default is passed through', environment.get('VERIF_UNLISTED'))
    for name, default in DOCUMENTED.items():
        with ck.case('default', name):
            got = environment.defaults.get(name, 'missing')
            ck.require(got == default and type(got) is type(default), 'shipped default of ' + name, got)
    for name in DOCUMENTED:
        if isinstance(DOCUMENTED[name], bool):
            continue
        for text in ('', 'many', '1,5') + (('0.5', '1e3') if isinstance(DOCUMENTED[name], int) else ()):
            with environ(**{name: text}), ck.case('nonsense', name, text):
                try:
                    got = environment.get(name)
                except ValueError:
                    ck.trace()
                else:
                    ck.require(False, 'an unreadable number is accepted', name, text, got)


def together(ck, arg):
    size, first = arg
    for rest in itertools.combinations([n for n in DOCUMENTED if n > first], size - 1):
        names = (first,) + rest
        for texts in itertools.product(*[(values(n)[1], values(n)[-1]) for n in names]):
            settings = dict(zip(names, texts))
            with environ(**settings), ck.case('together', names, texts):
                for n in DOCUMENTED:
                    agree(ck, n, settings.get(n))
            ck.state((names, texts))
            ck.trace()


def histories(ck, arg):
    name, length = arg
    alphabet = values(name)[:3]
    for history in itertools.product(alphabet, repeat=length):
        with environ(**{name: None}), ck.case('history', name, history):
            for text in history:
                if text is None:
                    os.environ.pop(name, None)
                else:
                    os.environ[name] = text
                agree(ck, name, text)
                ck.transitions += 1
        ck.state((name, history))
        ck.trace()


def helpers(ck, _):
    from common import utils
    for default in (None, False, True, 'x'):
        for text in (None, 'false', 'f', '0', '-1', '1', 'true', 'yes'):
            with environ(VERIF_FLAG=text), ck.case('flag', text, default):
                want = text not in ('false', 'f', '0', '-1') if text is not None else default not in (None, False)
                ck.require(bool(utils.getboolenv('VERIF_FLAG', default)) == want, 'boolean environment variable', text, default)
                ck.require(utils.getenv('VERIF_FLAG', default) == (text if text is not None else default), 'environment variable', text, default)
            ck.state((default, text))
            ck.trace()


def shard(ck, arg):
    {'alone': alone, 'together': together, 'histories': histories, 'helpers': helpers}[arg[0]](ck, arg[1])


def explore(ck, tier):
    jobs = [('alone', None), ('helpers', None)]
    for name in DOCUMENTED:
        for size in ((2, 3) if ck.thorough else (2,)):
            jobs.append(('together', (size, name)))
        jobs.append(('histories', (name, 7 if ck.thorough else 4)))
    ck.shards(shard, jobs)
