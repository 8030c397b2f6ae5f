"""P01: histories are tables. Every operation sequence up to a depth on the real containers,
and every periodic history up to several hundred operations, against a Python list."""
import copy
import io
import itertools
import math

import numpy

PROPERTY = 'P01'
NEEDS_EXTENSIONS = False
ASSUMPTIONS = ['drop-last is only issued on a non-empty history',
               'row contents come from a counter plus the special values nan, inf, -0.0, denormal and huge']
BOUNDS = {'quick': 'all sequences of <= 6 operations over 6 kinds, on 3 tables; all words of length <= 5 over 4 kinds repeated up to 160 rows; straight histories to 4000 rows',
          'thorough': 'all sequences of <= 8 operations over 6 kinds, on 4 tables; all words of length <= 7 over 4 kinds repeated up to 900 rows; straight histories to 40000 rows'}

SPECIAL = [float('nan'), float('inf'), -float('inf'), -0.0, 5e-324, 1.7e308, -1e-300, 0.1]


class Rows:
    def __init__(self, width):
        self.width, self.n = width, 0

    def __call__(self):
        row = []
        for j in range(self.width):
            self.n += 1
            row.append(SPECIAL[self.n % len(SPECIAL)] if self.n % 11 == 3 else self.n * 1.5 + j * 1e-3)
        return row


def same(a, b):
    a, b = numpy.asarray(a, float), numpy.asarray(b, float)
    return a.shape == b.shape and bool(numpy.all((a == b) | (numpy.isnan(a) & numpy.isnan(b))))


COLUMNS = {
    2: [['x', 'MeV', 1e-3], ['t', '', 2.5]],
    3: [['aT', 'MeV', 1e-3], ['N', None, 1], ['rate', '1/s', 6.5e-22]],
}


class Table2D:
    """ momentum-space table: one column per grid point """
    def __init__(self, width):
        from common.utils import Dynamic2DArray
        self.width = width
        self.header = numpy.linspace(0., 1., width)
        self.real = Dynamic2DArray(self.header)

    def row(self, values, form):
        return [numpy.array(values), list(values), tuple(values)][form % 3]

    def bad(self):
        return [1.0] * (self.width + 1)

    def observe(self, ck, model, deep):
        real = self.real
        ck.require(len(real) == len(model), 'length of the history', len(real), len(model))
        ck.require(same(real.data, numpy.array(model, float).reshape(len(model), self.width)), 'rows of the history')
        positions = range(-len(model), len(model)) if deep else [i for i in (-2, -1, 0, 1, len(model) // 2, len(model) - 1) if -len(model) <= i < len(model)]
        for i in positions:
            ck.require(same(real[i], model[i]), 'row by position', i)
        for sl in (slice(-5, None), slice(None), slice(1, None, 2), slice(-3, -1)):
            ck.require(same(real[sl], numpy.array(model[sl], float).reshape(len(model[sl]), self.width)), 'rows by slice', repr(sl))
        for i in (len(model), len(model) + 1, -len(model) - 1):
            self.absent(ck, i)

    def absent(self, ck, i):
        try:
            self.real[i]
        except IndexError:
            return
        ck.require(False, 'a row that was never stored is returned', i)

    def export(self, ck, model):
        f = io.BytesIO()
        self.real.savetxt(f)
        lines = f.getvalue().decode().split('\n')
        ck.require(lines[0].startswith('# ') and lines[-1] == '', 'shape of the exported text')
        ck.require(same([float(w) for w in lines[0][2:].split('\t')], [float('{:e}'.format(h)) for h in self.header]), 'exported heading')
        body = [[float(w) for w in l.split('\t')] for l in lines[1:-1]]
        ck.require(len(body) == len(model) and (not model or same(body, model)), 'exported rows', len(body), len(model))


class TableRec(Table2D):
    """ named table with units """
    def __init__(self, width):
        from common.utils import DynamicRecArray
        self.width = width
        self.columns = COLUMNS[width]
        self.real = DynamicRecArray([list(c) for c in self.columns])

    def row(self, values, form):
        names = [c[0] for c in self.columns]
        if form % 3 == 0:
            return dict(zip(names, values))
        if form % 3 == 1:
            return dict(reversed(list(zip(names, values))))
        return tuple(values)

    def bad(self):
        return {self.columns[0][0]: 1.0}

    def values(self, rec):
        return [float(rec[c[0]]) for c in self.columns]

    def observe(self, ck, model, deep):
        real = self.real
        ck.require(len(real) == len(model), 'length of the history', len(real), len(model))
        data = real.data
        ck.require(len(data) == len(model), 'number of rows', len(data), len(model))
        for j, column in enumerate(self.columns):
            want = [r[j] for r in model]
            ck.require(same(real[column[0]], want), 'column by name', column[0])
            ck.require(same(data[column[0]], want), 'column of the rows', column[0])
        positions = range(-len(model), len(model)) if deep else [i for i in (-2, -1, 0, 1, len(model) // 2, len(model) - 1) if -len(model) <= i < len(model)]
        for i in positions:
            ck.require(same(self.values(real[i]), model[i]), 'row by position', i)
        for i in (len(model), len(model) + 1, -len(model) - 1):
            self.absent(ck, i)
        for i in ([-1, 0] if model else []):
            words = real.row_repr(i).split('\t')
            ck.require(words == ['{:e}'.format(v / c[2]) for v, c in zip(model[i], self.columns)], 'text of a row', words)
            named = real.row_repr(i, names=True).split('\t')
            want = ['{} = {:.2e}'.format(c[0], v / c[2]) + (' ' + c[1] if c[1] else '') for v, c in zip(model[i], self.columns)]
            ck.require(named == want, 'named text of a row', named, want)

    def export(self, ck, model):
        f = io.BytesIO()
        self.real.savetxt(f)
        lines = f.getvalue().decode().split('\n')
        heading = '# ' + '\t'.join(c[0] + (', ' + c[1] if c[1] else '') for c in self.columns)
        ck.require(lines[0] == heading and lines[-1] == '', 'exported heading', lines[0])
        body = [[float(w) for w in l.split('\t')] for l in lines[1:-1]]
        want = [[v / c[2] for v, c in zip(r, self.columns)] for r in model]
        ck.require(len(body) == len(model) and (not model or same(body, want)), 'exported rows', len(body), len(model))


OPS = ['append', 'extend0', 'extend3', 'extend9', 'drop', 'bad']


def apply(ck, table, model, rows, op, form):
    if op == 'append':
        values = rows()
        handed = table.row(values, form)
        table.real.append(handed)
        model.append(values)
        if isinstance(handed, numpy.ndarray):
            handed[:] = -7.          # the caller may reuse its buffer
        elif isinstance(handed, list):
            handed[0] = -7.
    elif op.startswith('extend'):
        new = [rows() for _ in range(int(op[6:]))]
        table.real.extend([table.row(v, form + i) for i, v in enumerate(new)])
        model.extend(new)
    elif op == 'drop':
        table.real.truncate()
        model.pop()
    elif op == 'bad':
        try:
            table.real.append(table.bad())
        except (KeyError, ValueError, TypeError, IndexError):
            pass
        else:
            ck.require(False, 'a row of the wrong shape is accepted')


def make(kind):
    name, width = kind
    return (Table2D if name == '2d' else TableRec)(width)


def dfs(ck, kind, prefix, depth):
    """ Every operation sequence that starts with `prefix` """
    def replay(ops):
        table, model, rows = make(kind), [], Rows(kind[1])
        for k, op in enumerate(ops):
            apply(ck, table, model, rows, op, k)
        return table, model, rows

    def go(ops, table, model, rows):
        if ck.broken:
            return
        for op in OPS:
            if op == 'drop' and not model:
                continue
            t2, m2, r2 = copy.deepcopy(table), [list(r) for r in model], copy.copy(rows)
            seq = ops + (op,)
            ok = ck.n_violations
            with ck.case(kind, seq):
                apply(ck, t2, m2, r2, op, len(ops))
                t2.observe(ck, m2, deep=len(m2) < 6)
                if len(seq) <= 3:
                    t2.export(ck, m2)
            ck.state((kind, seq))
            ck.outcome((kind, len(m2)))
            if ck.n_violations > ok:
                continue
            if len(seq) < depth:
                go(seq, t2, m2, r2)
            else:
                ck.trace()
                if ck.traces % 2000 == 1:
                    ck.sample({'table': kind, 'operations': seq, 'rows': len(m2)})
                if ck.traces % 200 == 0:
                    with ck.case(kind, seq, 'export'):
                        t2.export(ck, m2)
    with ck.case(kind, prefix):
        state = replay(prefix)
        state[0].observe(ck, state[1], deep=True)
        go_args = (tuple(prefix),) + state
    if not ck.n_violations:
        go(*go_args)


def periodic(ck, kind, words, limit):
    for word in words:
        if ck.broken:
            return
        table, model, rows = make(kind), [], Rows(kind[1])
        with ck.case(kind, 'repeat', word):
            step, idle = 0, 0
            while len(model) < limit and step < 4 * limit and idle < 60:
                before = len(model)
                for op in word:
                    if op == 'drop' and not model:
                        continue
                    apply(ck, table, model, rows, op, step)
                    step += 1
                    ck.transitions += 1
                    table.observe(ck, model, deep=False)
                    ck.state((kind, word, step))
                idle = idle + 1 if len(model) <= before else 0
            table.observe(ck, model, deep=True)
            table.export(ck, model)
            # and all the way back
            while model:
                apply(ck, table, model, rows, 'drop', 0)
                if len(model) % 7 == 0:
                    table.observe(ck, model, deep=False)
            apply(ck, table, model, rows, 'append', 0)
            table.observe(ck, model, deep=True)
            ck.trace()


def straight(ck, kind, limit):
    table, model, rows = make(kind), [], Rows(kind[1])
    with ck.case(kind, 'straight', limit):
        for i in range(limit):
            values = rows()
            table.real.append(table.row(values, i))
            model.append(values)
            if i % 53 == 0:
                table.observe(ck, model, deep=False)
                ck.transitions += 1
        table.observe(ck, model, deep=True)
        table.export(ck, model)
        ck.trace()


def shard(ck, arg):
    {'dfs': dfs, 'periodic': periodic, 'straight': straight}[arg[0]](ck, *arg[1:])


def explore(ck, tier):
    kinds = [('2d', 2), ('rec', 2), ('rec', 3)] + ([('2d', 3)] if ck.thorough else [])
    depth = 8 if ck.thorough else 6
    jobs = []
    for kind in kinds:
        for prefix in itertools.product(OPS, repeat=2):
            if prefix[0] == 'drop' or (prefix[1] == 'drop' and prefix[0] in ('extend0', 'bad')):
                continue
            jobs.append(('dfs', kind, prefix, depth))
        words = [w for n in range(1, (8 if ck.thorough else 6))
                 for w in itertools.product(['append', 'extend3', 'extend9', 'drop'], repeat=n)
                 if n <= 3 or set(w) == {'append', 'drop'}
                 if w.count('append') + 3 * w.count('extend3') + 9 * w.count('extend9') >= w.count('drop')]
        for i in range(0, 16):
            jobs.append(('periodic', kind, words[i::16], 900 if ck.thorough else 160))
        jobs.append(('straight', kind, 40000 if ck.thorough else 4000))
    ck.shards(shard, jobs)
