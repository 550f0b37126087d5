"""Replay of a refuted reference count obligation: real threads under ThreadSanitizer (tu/replay_race.cpp). Only used to find a failing history."""
import os
import shutil
import subprocess
import tempfile
from . import build

FLAGS = ['-std=c++14', '-DNDEBUG', '-DHAVE_CONFIG_H', '-w', '-O1', '-g', '-fsanitize=thread', '-pthread']


def run(tier):
    """-> text of a failing history, or None"""
    d = tempfile.mkdtemp(prefix='bdvt_')
    try:
        inc = ['-I', build.VERIF + '/config', '-I', build.REPO + '/src', '-I', build.VERIF + '/tu']
        r = subprocess.run([build.CLANG] + FLAGS + inc + [build.VERIF + '/tu/replay_race.cpp', '-o', d + '/race'], capture_output=True, text=True)
        if r.returncode:
            return None
        base = [d + '/race', '300' if tier == 'thorough' else '60']
        for pre in (['setarch', '-R'], []):
            r = subprocess.run(pre + base, cwd=d, env={**os.environ, 'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}, capture_output=True, text=True,
                               errors='replace', timeout=200)
            if r.stdout.startswith('H '):
                break
        lines = r.stdout.split('\n')
        if r.returncode == 0 or 'D' in lines or not r.stdout.startswith('H '):
            return None
        h = [x for x in lines if x[:2] in ('H ', 'F ')]
        return '\n'.join([x[2:] for x in h[-2:]] + [f'(exit status {r.returncode})', r.stderr[:6000]])
    except Exception:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)
