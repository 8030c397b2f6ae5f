"""P18: what a run leaves on disk. Every plan of steps, export intervals and folders is run in a child of its own inside a scratch folder;
then the child is killed (or its writes fail, or it is interrupted) at every single file operation, with the buffers lost, kept or torn."""
import builtins
import errno
import io
import itertools
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile

import numpy

from mc.harness import Infrastructure, environ

PROPERTY = 'P18'
NEEDS_EXTENSIONS = True
ASSUMPTIONS = ['files are written through the ordinary Python interfaces', 'a run with nuclear rates is exported once, at its end',
               'the stand-in for the nuclear program copies its input', 'output folders are no symbolic links']
BOUNDS = {'quick': 'folders: 7 initial states x with/without nuclear input x export intervals 1, 2, 3, 100 x 0..7 steps (and 99, 101) x final export on/off x progress printed always/seldom; '
                   'process death at every file operation of 4 plans x buffers lost/kept/torn; failing write or interruption at every file operation and every step',
          'thorough': 'as quick with 11 steps and 8 plans of deaths'}

KAWANO = '#!/bin/sh\nwhile read line; do said="$said/$line"; done\nn=0\nwhile IFS= read -r row; do n=$((n+1)); last="$row"; done < "$INPUT"\necho "answer $n $said $last" > "$OUTPUT"\n'
OLD = {'evolution.txt': 'old', 'deep/er/file': 'old', 'log.txt': 'old old', 's4.dat': 'x'}
KEEP = {'keep.txt': 'keep', 'output2/evolution.txt': 'keep', 'out/put': 'keep'}
UNITS_COLUMNS = ['aT', 'T', 'a', 'x', 't', 'rho', 'N_eff', 'fraction', 'S']


class Death(BaseException):
    pass


class File(object):
    """ a file opened for writing whose operations are counted """

    def __init__(self, real, watch, path):
        self.__dict__.update(real=real, watch=watch, path=path)

    def write(self, data):
        self.watch.operation(self, data)
        return self.real.write(data)

    def close(self):
        if not self.real.closed:
            self.watch.operation(self, None)
        return self.real.close()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def __iter__(self):
        return iter(self.real)

    def __getattr__(self, name):
        return getattr(self.real, name)

    def __setattr__(self, name, value):
        setattr(self.real, name, value)


class Watch(object):
    """ counts the file operations below a folder and strikes at one of them """

    def __init__(self, folder, strike=None, how=None):
        self.folder, self.strike, self.how = folder, strike, how
        self.n = 0
        self.files = []
        self.log = []
        self.open = builtins.open

    def __call__(self, path, mode='r', *rest, **kw):
        inside = isinstance(path, (str, bytes)) and os.path.realpath(os.fsdecode(path)).startswith(self.folder + os.sep)
        if not inside or not any(c in mode for c in 'wax+'):
            return self.open(path, mode, *rest, **kw)
        f = File(None, self, os.fsdecode(path))
        self.operation(f, None)
        f.__dict__['real'] = self.open(path, mode, *rest, **kw)
        self.files.append(f)
        return f

    def operation(self, f, data):
        self.n += 1
        self.log.append((os.path.basename(f.path), 'other' if data is None else 'write'))
        if self.n != self.strike:
            return
        if self.how == 'error':
            raise OSError(errno.ENOSPC, 'No space left on device')
        if self.how == 'interrupt':
            raise KeyboardInterrupt()
        if self.how in ('kept', 'torn'):
            if self.how == 'torn' and data:
                try:
                    f.real.write(data[:len(data) // 2])
                except TypeError:
                    pass
            for g in self.files:
                if not g.real.closed:
                    g.real.flush()
        os._exit(77)


def universe(folder, kawano, freq, rate=0):
    from common import Params, UNITS
    from evolution import Universe
    from library.SM import particles as SMP
    from particles import Particle
    u = Universe(folder=folder, params=Params(T=2. * UNITS.MeV, dy=.05), max_log_rate=rate)
    electron = Particle(**SMP.leptons.electron)
    neutrino = Particle(**SMP.leptons.neutrino_e)
    u.add_particles([Particle(**SMP.photon), electron, neutrino])
    if freq:
        u.export_freq = freq
    if kawano:
        u.init_kawano(electron=electron, neutrino=neutrino)
    return u


def final_temperature(steps):
    """ a temperature that takes this many steps to reach """
    from common import UNITS
    return 2. * UNITS.MeV / 1.05 ** (steps - .5)


def child(scratch, script, strike=None, how=None):
    """ runs `script(scratch)` in a process that can only harm the scratch folder; (exit status, what it returned, operations) """
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        status = 70
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
            os.chdir(scratch)
            try:
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
            null = builtins.open(os.devnull, 'w')
            sys.stdout = sys.__stdout__ = null
            sys.stderr = null
            remove = shutil.rmtree

            def rmtree(path, *rest, **kw):
                if not os.path.realpath(path).startswith(scratch + os.sep):
                    os.write(w, pickle.dumps(('outside', str(path), 0)))
                    os._exit(71)
                return remove(path, *rest, **kw)
            shutil.rmtree = rmtree
            watch = Watch(scratch, strike, how)
            builtins.open = watch
            result = None
            try:
                result = script(scratch)
                status = 0
            except SystemExit as e:
                status = 0 if e.code is None else int(e.code) & 255 if isinstance(e.code, int) else 1
            except Death:
                status = 72
            except BaseException as e:
                result = '{}: {}'.format(type(e).__name__, e)
                status = 73
            builtins.open = watch.open
            for f in watch.files:
                if not f.real.closed:
                    f.real.flush()
            data = pickle.dumps(('done', result, watch.log))
            while data:
                data = data[os.write(w, data):]
        except BaseException:
            pass
        finally:
            os._exit(status)
    os.close(w)
    data = b''
    while True:
        part = os.read(r, 1 << 16)
        if not part:
            break
        data += part
    os.close(r)
    _, st = os.waitpid(pid, 0)
    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -os.WTERMSIG(st)
    kind, result, log = pickle.loads(data) if data else (None, None, None)
    return code, kind, result, log


class Scratch(object):

    def __enter__(self):
        self.path = os.path.realpath(tempfile.mkdtemp(prefix='p18-'))
        for name, text in KEEP.items():
            self.put(name, text)
        self.put('kawano', KAWANO)
        os.chmod(os.path.join(self.path, 'kawano'), 0o755)
        return self

    def put(self, name, text):
        path = os.path.join(self.path, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            f.write(text)

    def give(self):
        for root, dirs, files in os.walk(self.path):
            for x in [root] + [os.path.join(root, n) for n in files]:
                try:
                    os.chown(x, 65534, 65534)
                except OSError:
                    pass
        os.chmod(self.path, 0o755)

    def read(self):
        out = {}
        for root, _, files in os.walk(self.path):
            for n in files:
                p = os.path.join(root, n)
                with open(p, 'rb') as f:
                    out[os.path.relpath(p, self.path)] = f.read()
        return out

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)


FOLDERS = ['absent', 'empty', 'full', 'nested', 'slash', 'relative', 'none']


def place(scratch, state):
    """ prepares the folder; returns (what the Universe is given, where its files are to be found) """
    if state == 'none':
        return None, None
    where = {'nested': 'some/where/deep'}.get(state, 'output')
    if state in ('full', 'slash', 'relative'):
        for name, text in OLD.items():
            scratch.put(where + '/' + name, text)
    if state == 'empty':
        os.makedirs(os.path.join(scratch.path, where))
    given = os.path.join(scratch.path, where)
    return {'slash': given + '/', 'relative': where}.get(state, given), where


def rows(text):
    lines = text.decode('utf8').splitlines()
    return lines[0], [[float(x) for x in line.split('\t')] for line in lines[1:]]


def same(ck, text, table, units, label, *detail):
    """ a table file holds exactly these rows, in its units """
    head, got = rows(text)
    ck.require(len(got) == len(table), label + ': every row', len(got), len(table), *detail)
    if table:
        got, want = numpy.array(got), numpy.array(table) / numpy.array(units)
        ck.require(got.shape == want.shape and numpy.all((numpy.abs(got - want) <= 1e-12 * numpy.abs(want)) | (numpy.isnan(got) & numpy.isnan(want))), label + ': values in the announced units', *detail)
    return head


def snapshot(u, names):
    return [[float(u.data[c][i]) for c in names] for i in range(len(u.data))]


def plans(ck, arg):
    state, kawano, freq, longest = arg
    from common import UNITS
    todo = list(itertools.product(range(longest + 1), (True, False), (0,)))
    # (what is written does not depend on how seldom the progress is printed)
    todo += list(itertools.product((2, longest), (True, False), (1e9,)))
    if state == 'full' and not kawano and not freq:
        todo += [(99, True, 1e9), (101, False, 0)]
    for steps, export, rate in todo:
        with Scratch() as scratch, environ(KAWANO=os.path.join(scratch.path, 'kawano'), LOGARITHMIC_TIMESTEP='1'):
            given, where = place(scratch, state)
            scratch.give()

            def script(top):
                seen = []
                terminal = sys.stdout = io.StringIO()
                u = universe(given, kawano, freq, rate)
                made = {os.path.relpath(os.path.join(r, n), top) for r, _, fs in os.walk(top) for n in fs}

                def monitor(v):
                    files = {}
                    if where:
                        for n in ('evolution.txt', 'kawano.txt'):
                            p = os.path.join(top, where, n)
                            files[n] = open(p, 'rb').read() if os.path.exists(p) else None
                    seen.append((v.step, len(v.data), len(v.kawano_data) if kawano else 0, files))
                u.step_monitor = monitor
                u.evolve(final_temperature(steps), export=export)
                out = dict(seen=seen, made=made, table=snapshot(u, UNITS_COLUMNS), terminal=terminal.getvalue())
                if kawano:
                    out['kawano'] = [[float(x) for x in u.kawano_data.data[i]] for i in range(len(u.kawano_data))]
                    if not export and where:
                        u.kawano_log.flush()
                return out

            with ck.case('plan', state, 'nuclear' if kawano else '', freq, steps, export, rate):
                code, kind, result, log = child(scratch.path, script)
                ck.require(kind != 'outside', 'only the output folder is emptied', result)
                ck.require(code == 0, 'the run finishes', code, result)
                files = scratch.read()
                for name, text in KEEP.items():
                    ck.require(files.get(name) == text.encode(), 'files outside the output folder are left alone', name)
                own = {os.path.relpath(n, where): text for n, text in files.items() if where and n.startswith(where + '/')}
                ck.require(set(files) == set(KEEP) | {'kawano'} | {where + '/' + n for n in own}, 'nothing is written outside the output folder', sorted(files))
                if steps > 20 and abs(len(result['table']) - 1 - steps) < 10:
                    steps = len(result['table']) - 1          # annihilation of electrons takes a few more
                ck.require(len(result['table']) == steps + 1, 'one row per state', len(result['table']), steps)
                if not where:
                    ck.require(result['made'] == set(KEEP) | {'kawano'}, 'no folder, no files', sorted(result['made']))
                else:
                    fresh = {n[len(where) + 1:] for n in result['made'] if n.startswith(where + '/')}
                    for n in OLD:
                        ck.require(own.get(n) != OLD[n].encode(), 'what an earlier run left in the folder is gone', n)
                        ck.require(n in ('log.txt', 's4.dat') or n not in fresh, 'the folder starts empty', n)
                    MeV = UNITS.MeV
                    units = [MeV, MeV, 1, MeV, UNITS.s, MeV ** 4, 1, 1, MeV ** 3]
                    kunits = [UNITS.s, MeV, UNITS.K9, UNITS.K9 / UNITS.s, UNITS.g_cm3, 1 / UNITS.s] + [1.] * 6
                    table, ktable = result['table'], result.get('kawano', [])
                    every = freq or 100
                    for step, n, nk, snaps in result['seen']:
                        # the counter has reached `step`; states are exported whenever it reaches a multiple of the interval
                        last = step // every * every
                        expect = last if last >= 2 or every == 1 and step > 1 else 0
                        if not expect:
                            ck.require(snaps['evolution.txt'] is None, 'exported only at multiples of the interval', step)
                            continue
                        ck.require(snaps['evolution.txt'] is not None, 'the history is exported at every multiple of the interval', step)
                        same(ck, snaps['evolution.txt'], table[:expect], units, 'exported during the run', step)
                        if kawano:
                            same(ck, snaps['kawano.txt'], ktable[:expect - 1], kunits, 'nuclear table exported during the run', step)
                    if export:
                        head = same(ck, own['evolution.txt'], table, units, 'final export')
                        for name in ('aT, MeV', 'T, MeV', 'a', 'x, MeV', 't, s', 'rho, MeV^4', 'N_eff', 'S, MeV^3'):
                            ck.require(name in head.lstrip('# ').split('\t'), 'columns are named with their units', name, head)
                    text = own['log.txt'].decode('utf8')
                    ck.require(text == result['terminal'], 'the log holds all that was printed on the terminal', text[-200:], result['terminal'][-200:])
                    for word in ['Initial states', 'Log output', 'Photon', 'Electron neutrino'] + (['Final states'] if export else []):
                        ck.require(word in text, 'the log holds what was printed', word)
                    for k in range(1 if rate else steps):
                        ck.require('#%d\tt = %e s\taT = %e MeV\tT = %e MeV' % (k + 1, table[k][4] / UNITS.s, table[k][0] / MeV, table[k][1] / MeV) in text, 'the log follows the steps', k)
                    if kawano:
                        lines = own['s4.dat'].decode().split('\n')
                        ck.require(lines[-1] == '' and len(lines) == len(ktable) + 2, 'nuclear input: one line per state', len(lines), len(ktable))
                        for line, row in zip(lines[1:-1], ktable):
                            ck.close([float(x) for x in line.split('\t')], numpy.array(row) / kunits, 'nuclear input: values in the units of the nuclear code', 1e-6)
                        if export:
                            same(ck, own['kawano.txt'], ktable, kunits, 'nuclear table')
                            answer = own['kawano_output.dat'].decode()
                            ck.require(answer.startswith('answer %d /' % (len(ktable) + 1)) and answer.rstrip('\n').endswith(lines[-2]), 'the nuclear program reads the complete input', answer[:100])
                            ck.require(answer.strip() in text, 'the result of the nuclear program is reported')
                        else:
                            ck.require('kawano_output.dat' not in own, 'the nuclear program runs at the end only')
                ck.outcome((state, kawano, freq, tuple(sorted(own))))
            ck.state(('plan', state, kawano, freq, steps, export, rate))
            ck.trace()
    ck.sample({'folder': state, 'nuclear input': kawano, 'interval': freq}, limit=4)


CLOCK = re.compile(rb'\[[0-9:]+\]')


def normal(name, text):
    # (a clock may be cut, too)
    return CLOCK.sub(b'[]', re.sub(rb'\[[0-9:]*\Z', b'', text)) if name.endswith('log.txt') else text


def deaths(ck, arg):
    """ one plan; the process dies, its disk fails or it is interrupted at each file operation of the share """
    kawano, freq, steps, how, share, shares = arg

    def script_in(where):
        def script(top):
            u = universe(os.path.join(top, where), kawano, freq)
            u.evolve(final_temperature(steps))
            sys.stdout.flush()
            return snapshot(u, UNITS_COLUMNS)
        return script

    def once(strike=None, how=None):
        with Scratch() as scratch, environ(KAWANO=os.path.join(scratch.path, 'kawano'), LOGARITHMIC_TIMESTEP='1'):
            for name, text in OLD.items():
                scratch.put('output/' + name, text)
            scratch.give()
            code, kind, result, log = child(scratch.path, script_in('output'), strike, how)
            return code, kind, result, log, dict(scratch.read(), top=scratch.path.encode())

    with ck.case('whole', kawano, freq, steps):
        code, kind, result, log, whole = once()
        ck.require(code == 0, 'the run finishes', code, result)
    if code:
        return
    total = len(log)
    ck.count('file operations of the plan', total)
    names = ['evolution.txt', 'log.txt'] + (['kawano.txt', 's4.dat'] if kawano else [])
    for strike in range(1 + share, total + 1, shares):
        with ck.case(how, 'at operation', strike, log[strike - 1], 'nuclear' if kawano else '', freq, steps):
            code, kind, result, _, files = once(strike, how)
            ck.require(kind != 'outside', 'only the output folder is emptied', result)
            if how in ('lost', 'kept', 'torn'):
                ck.require(code == 77, 'the process died where it was told to', code, result)
            else:
                ck.require(code != 77, 'the process goes on')
            for name, text in KEEP.items():
                ck.require(files.get(name) == text.encode(), 'files outside the output folder are left alone', name)
            for name in names:
                text = files.get('output/' + name)
                if text is None:
                    continue
                complete = normal(name, whole['output/' + name]).replace(whole['top'], files['top'])
                if how in ('error', 'interrupt') and name == 'log.txt':
                    continue
                ck.require(complete.startswith(normal(name, text)), 'a file cut short holds the beginning of the true history', name, text[-200:].decode('utf8', 'replace'))
            if how == 'error':
                finished = all(normal(n, files.get('output/' + n, b'')) == normal(n, whole['output/' + n]) for n in names if n != 'log.txt')
                ck.require(code != 0 or finished, 'a run whose files could not be written is not reported as finished', code)
            if how == 'interrupt':
                ck.require(code != 0, 'an interrupted run is not reported as finished', code)
        ck.state((how, kawano, freq, steps, strike))
        ck.schedules += 1
        ck.trace()


def interrupts(ck, arg):
    """ Ctrl-C in the middle of a step """
    kawano, freq, steps = arg
    for at in range(1, steps + 1):
        with Scratch() as scratch, environ(KAWANO=os.path.join(scratch.path, 'kawano'), LOGARITHMIC_TIMESTEP='1'):
            for name, text in OLD.items():
                scratch.put('output/' + name, text)
            scratch.give()

            def script(top):
                u = universe(os.path.join(top, 'output'), kawano, freq)

                def monitor(v):
                    if v.step == at:
                        raise KeyboardInterrupt()
                u.step_monitor = monitor
                u.evolve(final_temperature(steps))

            with ck.case('interrupt in step', at, 'nuclear' if kawano else '', freq, steps):
                code, kind, result, log = child(scratch.path, script)
                files = scratch.read()
                ck.require(code not in (0, 73), 'an interrupted run stops with a failure status', code, result)
                ck.require('output/kawano_output.dat' not in files, 'nothing is concluded from an interrupted run')
                last = at // freq * freq
                have = files.get('output/evolution.txt')
                n = len(rows(have)[1]) if have else 0
                ck.require(n == (last if last >= 2 or freq == 1 and at > 1 else 0), 'what was exported before the interruption stays', n, last)
            ck.state(('interrupt', kawano, freq, steps, at))
            ck.schedules += 1
            ck.trace()


def shard(ck, arg):
    {'plans': plans, 'deaths': deaths, 'interrupts': interrupts}[arg[0]](ck, arg[1])


def explore(ck, tier):
    import common.kinematics      # noqa: everything is loaded before the children lose their rights
    import evolution              # noqa
    import kawano                 # noqa
    import encodings.latin_1      # noqa
    import subprocess             # noqa
    # the first use of fonts, locales and the like
    jobs = []
    for state in FOLDERS:
        for k in (False, True):
            for freq in (1, 2, 3, None):
                if k and not ck.thorough and (FOLDERS.index(state) + (freq or 0)) % 3:
                    continue
                jobs.append(('plans', (state, k, freq, 11 if ck.thorough else 7 if not k else 4)))
    todo = [(False, 2, 5), (True, 2, 3), (False, 1, 3), (True, 3, 4)] + ([(True, 1, 6), (False, 3, 9), (True, 2, 8), (False, 100, 4)] if ck.thorough else [])
    for k, freq, steps in todo:
        for how in ('lost', 'kept', 'torn', 'error', 'interrupt'):
            shares = 4 if k else 2
            jobs += [('deaths', (k, freq, steps, how, i, shares)) for i in range(shares)]
    jobs += [('interrupts', (k, freq, 5)) for k in (False, True) for freq in (1, 2, 3)]
    ck.shards(shard, jobs)
