"""Compile a verification TU from /repo's current sources to IR and load it."""
import os
import subprocess
import hashlib
import tempfile
import shutil
from .ir import Module, Unsupported

REPO = os.environ.get('BDV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
FLAGS = ['-std=c++14', '-DNDEBUG', '-DHAVE_CONFIG_H', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-access-control',
         '-gline-tables-only', '-S', '-emit-llvm']


class BuildFail(Exception):
    pass


def compile_ll(tu, extra=()):
    d = tempfile.mkdtemp(prefix='bdv_')
    try:
        a, b = d + '/a.ll', d + '/b.ll'
        inc = ['-I', VERIF + '/config', '-I', REPO + '/src', '-I', '/usr/include/tcl8.6', '-I', VERIF + '/tu']
        cmd = [CLANG] + FLAGS
        r = subprocess.run(cmd + list(extra) + inc + [VERIF + '/tu/' + tu, '-o', a], capture_output=True, text=True)
        if r.returncode:
            raise BuildFail(r.stderr[-3000:])
        r = subprocess.run([OPT, '-S', '-passes=function(sroa,simplifycfg)', a, '-o', b], capture_output=True, text=True)
        if r.returncode:
            raise BuildFail(r.stderr[-3000:])
        return open(b).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(tu, extra=()):
    return Module(compile_ll(tu, extra))


def layout(mod, prefix='L_'):
    L = {}
    for g in mod.globals:
        if g.startswith(prefix):
            t, v, c = mod.global_def(g)
            L[g[len(prefix):]] = 0 if v[0] == 'zero' else v[1]
    return L
