"""Bounded concrete cross-check with a native driver (tu/native.h): one process per entry."""
import os
import shutil
import subprocess
import tempfile
from . import build, replay_rca

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', 'UBSAN_OPTIONS': 'print_stacktrace=1'}


class NativeReplay:
    def __init__(self, src, extra=(), libs=('-ldl',)):
        self.src, self.extra, self.libs = src, extra, libs

    def build(self):
        self.dir = tempfile.mkdtemp(prefix='bdvr_')
        self.exe = self.dir + '/drv'
        replay_rca.build_driver(self.src, self.exe, self.extra, self.libs)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, spec, models, seed, tier):
        d = tempfile.mkdtemp(prefix='case_', dir=self.dir)
        try:
            r = subprocess.run([self.exe, spec.name, str(seed), tier], cwd=d, env={**os.environ, **ENV, 'TMPDIR': d}, capture_output=True, text=True,
                               errors='replace', timeout=400)
            out, err = r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return {'cases': 0, 'failures': [], 'error': 'native driver timed out'}
        fails, cases, done = [], 0, False
        for ln in out.split('\n'):
            if ln[:2] in ('F ', 'D '):
                _, tags, msg = (ln.split(' ', 2) + ['', ''])[:3]
                f = {'tags': tags.split(','), 'what': msg}
                if ln[0] == 'D':
                    f['crash'] = err[-1500:]
                fails.append(f)
            elif ln.startswith('C '):
                cases, done = int(ln[2:]), True
            elif ln.startswith('N'):
                return {'cases': 0, 'failures': []}
        if not done and not fails:
            return {'cases': 0, 'failures': [], 'error': f'native driver ended with status {r.returncode}: {err[-500:]}'}
        return {'cases': cases, 'failures': fails}
