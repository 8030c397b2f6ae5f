#!/usr/bin/env python3
"""campaign.py OUT.jsonl [--seed N] [--jobs N] [--only SUBSTR] [--max N]: mutation campaign over the working tree of /repo.

Every mutant is a one-token edit of one source file in a scratch copy; the checks mapped to the file run one after another
(quick tier) until one reports a violation. Development aid only: no check reads its output."""
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import warnings

warnings.simplefilter('ignore')
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'

# file -> (number of mutants, checks in order)
PLAN = {
    'common/__init__.py': (60, 'P23 P20 P10 P19 P17 P02 P03'),
    'common/integrators/__init__.py': (30, 'P04 P05 P08 P15'),
    'common/integrators/paired.py': (10, 'P05'),
    'common/integrators/gauss_laguerre.py': (2, 'P05'),
    'common/integrators/gauss_legendre.py': (2, 'P05'),
    'common/kinematics.py': (90, 'P23 P15 P22 P14'),
    'common/statistics.py': (6, 'P07 P08 P03'),
    'common/utils.py': (50, 'P01 P06 P20 P18 P17 P14'),
    'environment.py': (10, 'P06 P02 P05'),
    'evolution.py': (80, 'P20 P16 P18 P17 P21 P19 P01'),
    'interactions/__init__.py': (40, 'P09 P17 P10'),
    'interactions/boltzmann.py': (8, 'P09 P14'),
    'interactions/four_particle/__init__.py': (40, 'P09 P14 P12 P22 P13'),
    'interactions/three_particle/__init__.py': (25, 'P09 P14 P12 P22 P13'),
    'kawano.py': (60, 'P19 P18 P21'),
    'library/NuMSM.py': (60, 'P10 P23'),
    'library/SM.py': (90, 'P10 P16'),
    'particles/__init__.py': (70, 'P15 P07 P08 P22 P03'),
    'particles/DustParticle.py': (10, 'P08'),
    'particles/IntermediateParticle.py': (25, 'P08'),
    'particles/NonEqParticle.py': (35, 'P08'),
    'particles/RadiationParticle.py': (14, 'P08'),
    'semianalytic.py': (20, 'P21'),
    'interactions/four_particle/cpp/integral.cpp': (90, 'P12 P11 P03'),
    'interactions/four_particle/cpp/Ds.cpp': (40, 'P11'),
    'interactions/three_particle/cpp/integral.cpp': (70, 'P12 P03'),
    'interactions/four_particle/cpp/integral.h': (6, 'P11 P12 P13'),
    'interactions/three_particle/cpp/integral.h': (4, 'P12 P13'),
}

CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='),
       ast.NotEq: ('!=', '=='), ast.In: (' in ', ' not in '), ast.NotIn: (' not in ', ' in '), ast.Is: (' is ', ' is not '),
       ast.IsNot: (' is not ', ' is ')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.Pow: ('**', '*')}


def py_mutants(text):
    tree = ast.parse(text)
    raw = text.encode('utf8')
    starts = [0]
    for line in raw.splitlines(True):
        starts.append(starts[-1] + len(line))

    def off(line, col):
        return starts[line - 1] + col

    skip = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)) and n.name in ('__str__', '__repr__', 'log', 'plot', 'row_repr', 'printoptions', 'import_data'):
            skip.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print':
            skip.append((n.lineno, n.end_lineno))
        if isinstance(n, ast.Raise):
            skip.append((n.lineno, n.end_lineno))
    out = []

    def between(a, b, old, new, kind, n):
        s = raw[a:b]
        i = s.find(old.encode())
        if i >= 0 and s.count(old.encode()) == 1:
            out.append((a + i, a + i + len(old.encode()), new, kind, n.lineno))

    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or any(a <= n.lineno <= b for a, b in skip):
            continue
        s, e = off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            l, r = n.left, n.comparators[0]
            o = CMP[type(n.ops[0])]
            between(off(l.end_lineno, l.end_col_offset), off(r.lineno, r.col_offset), o[0], o[1], 'cmp', n)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o = BIN[type(n.op)]
            between(off(n.left.end_lineno, n.left.end_col_offset), off(n.right.lineno, n.right.col_offset), o[0], o[1], 'bin', n)
        elif isinstance(n, ast.BoolOp) and len(n.values) == 2:
            o = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            l, r = n.values
            between(off(l.end_lineno, l.end_col_offset), off(r.lineno, r.col_offset), o[0], o[1], 'bool', n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            o = n.operand
            out.append((s, off(o.lineno, o.col_offset), '', 'not', n.lineno))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((s, s + 1, '', 'neg', n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            v = n.value
            new = repr(v + 1) if type(v) is int else repr(v * 1.1 if v else 0.1)
            out.append((s, e, new, 'const', n.lineno))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append((s, e, repr(not n.value), 'const', n.lineno))
        elif isinstance(n, ast.If):
            t = n.test
            ts, te = off(t.lineno, t.col_offset), off(t.end_lineno, t.end_col_offset)
            out.append((ts, te, '(not (' + raw[ts:te].decode() + '))', 'if', n.lineno))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Call)):
            out.append((s, e, 'pass', 'del', n.lineno))
        elif isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) in ('min', 'max', 'minimum', 'maximum', 'sin', 'cos'):
            w = getattr(n.func, 'id', getattr(n.func, 'attr', ''))
            o = {'min': 'max', 'max': 'min', 'minimum': 'maximum', 'maximum': 'minimum', 'sin': 'cos', 'cos': 'sin'}[w]
            fe = off(n.func.end_lineno, n.func.end_col_offset)
            out.append((fe - len(w), fe, o, 'fn', n.lineno))
    return [(raw[:a] + new.encode() + raw[b:], kind, line, raw[a:b].decode(), new) for a, b, new, kind, line in out]


TOK = re.compile(r'(?P<cmp><=|>=|==|!=|(?<![<\-])<(?![<=])|(?<![>\-])>(?![>=]))|(?P<bool>&&|\|\|)|(?P<inc>\+=|-=|\*=|/=)|(?P<bin>(?<=[\w\)\]] )[-+*/](?= ?[\w\(]))|(?P<num>(?<![\w.])\d+\.?\d*(?![\w.]))')
SW = {'<=': '<', '>=': '>', '<': '<=', '>': '>=', '==': '!=', '!=': '==', '&&': '||', '||': '&&', '+=': '-=', '-=': '+=', '*=': '/=', '/=': '*=',
      '+': '-', '-': '+', '*': '/', '/': '*'}


def cpp_mutants(text):
    clean = list(text)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', text, re.S):
        for i in range(*m.span()):
            if clean[i] != '\n':
                clean[i] = ' '
    clean = ''.join(clean)
    out = []
    for m in TOK.finditer(clean):
        line = clean.count('\n', 0, m.start()) + 1
        whole = clean.splitlines()[line - 1]
        if whole.lstrip().startswith('#') or 'template' in whole or 'std::vector<' in whole and m.group() in '<>' or 'py::' in whole or 'cast<' in whole:
            continue
        t = m.group()
        if m.lastgroup == 'num':
            new = str(int(t) + 1) if t.isdigit() else repr(float(t) * 1.1 if float(t) else 0.1)
        else:
            new = SW[t]
        out.append(((text[:m.start()] + new + text[m.end():]).encode('utf8'), m.lastgroup, line, t, new))
    for i, l in enumerate(clean.splitlines(True)):
        if re.match(r'\s+[\w.\[\]>\-]+ (\+|-|\*|/)?= .*;\s*$', l) or re.match(r'\s+(return|continue|break).*;\s*$', l):
            lines = text.splitlines(True)
            old = lines[i]
            lines[i] = ';\n'
            out.append((''.join(lines).encode('utf8'), 'del', i + 1, old.strip(), ''))
    return out


def run(job):
    fn, content, kind, line, old, new, checks = job
    scratch = tempfile.mkdtemp(prefix='vcamp-')
    tree = os.path.join(scratch, 'repo')
    res = {'file': fn, 'line': line, 'kind': kind, 'old': old, 'new': new, 'killed': None, 'odd': []}
    try:
        subprocess.run(['git', 'clone', '-q', REPO, tree], check=True)
        with open(os.path.join(tree, fn), 'wb') as f:
            f.write(content)
        for c in checks:
            r = subprocess.run(['./check', c, 'quick'], cwd=ROOT, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True,
                               env=dict(os.environ, VERIF_REPO=tree))
            if r.returncode == 1:
                res['killed'] = c
                break
            if r.returncode:
                res['odd'].append((c, r.returncode, r.stdout[-300:]))
                if 'SyntaxError' in r.stdout or 'build of the C++' in r.stdout:
                    res['killed'] = 'invalid'
                    break
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def main():
    out = sys.argv[1]
    opt = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    rng = random.Random(int(opt.get('--seed', 1)))
    jobs = []
    for fn, (count, checks) in PLAN.items():
        text = open(os.path.join(REPO, fn), encoding='utf8').read()
        ms = (py_mutants if fn.endswith('.py') else cpp_mutants)(text)
        rng.shuffle(ms)
        if '--only' in opt and opt['--only'] not in fn:
            continue
        count = int(count * float(opt.get('--scale', 1)))
        for content, kind, line, old, new in ms[:count]:
            jobs.append((fn, content, kind, line, old, new, opt.get('--checks', checks).replace(',', ' ').split()))
    rng.shuffle(jobs)
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l)
            done.add((r['file'], r['line'], r['old'], r['new'], r['kind']))
    lock = threading.Lock()
    print(len(jobs), 'mutants')

    def worker():
        while True:
            with lock:
                if not jobs:
                    return
                j = jobs.pop()
            if (j[0], j[3], j[4], j[5], j[2]) in done:
                continue
            r = run(j)
            with lock:
                with open(out, 'a') as f:
                    f.write(json.dumps(r) + '\n')

    ts = [threading.Thread(target=worker) for _ in range(int(opt.get('--jobs', 3)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()
