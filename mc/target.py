"""Binds the explorers to the pyBBN working tree.

* `/repo` (or $VERIF_REPO, used only while developing) is put first on sys.path,
  bytecode writing is switched off, and the process works in a scratch directory.
* The two C++ extension modules are compiled from the working tree, unmodified,
  against the header stand-ins in /verif/shim and exposed under the names pyBBN
  imports them by. Objects are cached under /verif/.build, keyed by the full
  content of every source that goes in, so a changed tree is always recompiled.
"""
import ctypes
import hashlib
import importlib.machinery
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(VERIF, 'shim')
CXX = os.environ.get('VERIF_CXX', 'g++')
FLAGS = ['-std=c++14', '-O2', '-fPIC', '-fopenmp', '-w']

MODULES = {
    'interactions.four_particle.cpp.integral': ('interactions/four_particle/cpp', ['integral.cpp', 'Ds.cpp']),
    'interactions.three_particle.cpp.integral': ('interactions/three_particle/cpp', ['integral.cpp']),
}


class BuildError(Exception):
    pass


def _read(path):
    with open(path, 'rb') as f:
        return f.read()


def _makefile_sources(folder, default):
    """ The sources the tree's own Makefile links into integral.so """
    try:
        for line in _read(os.path.join(folder, 'Makefile')).decode('utf8', 'replace').splitlines():
            if line.startswith('integral.so:'):
                found = [w for w in line.split(':', 1)[1].split() if w.endswith('.cpp')]
                if found:
                    return found
    except OSError:
        pass
    return default


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode('utf8', 'replace')[-4000:])


def build(name):
    folder, default = MODULES[name]
    folder = os.path.join(REPO, folder)
    sources = [os.path.join(folder, s) for s in _makefile_sources(folder, default)]
    h = hashlib.sha256()
    h.update(' '.join(FLAGS + [CXX, sys.version]).encode())
    for base, exts in ((folder, ('.cpp', '.h', '.hpp')), (os.path.join(SHIM, 'src'), ('.cpp', '.h'))):
        for fn in sorted(os.listdir(base)):
            if fn.endswith(exts):
                h.update(fn.encode() + _read(os.path.join(base, fn)))
    for root, _, files in sorted(os.walk(os.path.join(SHIM, 'include'))):
        for fn in sorted(files):
            h.update(fn.encode() + _read(os.path.join(root, fn)))
    out_dir = os.path.join(VERIF, '.build')
    os.makedirs(out_dir, exist_ok=True)
    out = os.path.join(out_dir, '{}-{}.so'.format(name.split('.')[1], h.hexdigest()[:24]))
    if os.path.exists(out):
        return out
    with tempfile.TemporaryDirectory(prefix='vbuild-') as tmp:
        inc = ['-I' + os.path.join(SHIM, 'include'), '-I' + os.path.join(SHIM, 'src'),
               '-I' + sysconfig.get_paths()['include']]
        procs, objs = [], []
        for i, src in enumerate(sources + [os.path.join(SHIM, 'src', 'gsl.cpp'), os.path.join(SHIM, 'src', 'vsched.cpp')]):
            obj = os.path.join(tmp, '{}.o'.format(i))
            objs.append(obj)
            flags = FLAGS if src.startswith(folder) else [f for f in FLAGS if f != '-fopenmp']
            cmd = [CXX] + flags + inc + ['-c', src, '-o', obj]
            procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for cmd, p in procs:
            text = p.communicate()[0]
            if p.returncode:
                raise BuildError(' '.join(cmd) + '\n' + text.decode('utf8', 'replace')[-4000:])
        so = os.path.join(tmp, 'integral.so')
        _run([CXX, '-shared', '-Wl,-Bsymbolic', '-o', so] + objs + ['-lpthread', '-lm'])
        fd, part = tempfile.mkstemp(dir=out_dir)
        os.close(fd)
        with open(part, 'wb') as f:
            f.write(_read(so))
        os.chmod(part, 0o755)
        os.replace(part, out)
    return out


class _Finder:
    def __init__(self, paths):
        self.paths = paths

    def find_spec(self, fullname, path=None, target=None):
        if fullname in self.paths:
            loader = importlib.machinery.ExtensionFileLoader(fullname, self.paths[fullname])
            return importlib.util.spec_from_file_location(fullname, self.paths[fullname], loader=loader)
        return None


_installed = {}


def install(extensions=True):
    """ Make the working tree importable; returns {module name: path of its shared object} """
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if extensions and not _installed:
        paths = {name: build(name) for name in MODULES}
        sys.meta_path.insert(0, _Finder(paths))
        _installed.update(paths)
    return dict(_installed)


class Scheduler:
    """ Handle on the controlled OpenMP runtime linked into one extension module """
    ALLOC, QAG, OUTER, INNER, SYNC = 1, 2, 4, 8, 16

    def __init__(self, so):
        self.lib = ctypes.CDLL(so)
        self.lib.vs_count.restype = ctypes.c_ulong

    def configure(self, threads=1, mask=16, choices=()):
        arr = (ctypes.c_int * max(1, len(choices)))(*choices)
        self.lib.vs_config(threads, mask, arr, len(choices))

    def trace(self):
        n = self.lib.vs_trace_len()
        out = (ctypes.c_int * (3 * max(1, n)))()
        self.lib.vs_trace_get(out)
        return [(out[3 * i], out[3 * i + 1], out[3 * i + 2]) for i in range(n)]

    def diverged(self):
        return bool(self.lib.vs_diverged())

    def workspaces(self):
        return self.lib.vs_workspaces()

    def regions(self):
        return self.lib.vs_regions()

    def count(self, bit):
        return self.lib.vs_count(bit)
