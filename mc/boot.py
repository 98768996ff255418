"""Load intvalpy from /repo's working tree (never from a copy of its .py files).

The Cython extension is the only compiled part.  If the .so in /repo was built from
exactly the sources now in the tree (content hashes in build/ext.stamp, written by
build.sh) it is used as it is; otherwise the extension is compiled from /repo's
current sources in a scratch directory below /verif and only that .so is loaded from
there.  Nothing is ever written in /repo.
"""
import fcntl
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SO = 'intvalpy/kernel/interval_arithmetics.cpython-312-x86_64-linux-gnu.so'
MOD = 'intvalpy.kernel.interval_arithmetics'


def _sha(path):
    with open(os.path.join(REPO, path), 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def _sources():
    out = []
    for name in ('setup.py', 'pyproject.toml', 'intvalpy/_version.py'):
        if os.path.exists(os.path.join(REPO, name)):
            out.append(name)
    more = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'intvalpy')):
        for f in files:
            if f.endswith(('.pyx', '.pxd', '.pxi', '.h')):
                more.append(os.path.relpath(os.path.join(root, f), REPO))
    return out + sorted(more)


def _fresh():
    """True if /repo's .so was built from the current sources."""
    try:
        with open(os.path.join(REPO, 'build/ext.stamp')) as f:
            lines = [l.split() for l in f.read().splitlines() if l.strip()]
        stamp = {l[1]: l[0] for l in lines if len(l) == 2}
        want = _sources() + [SO]
        if set(stamp) != set(want):
            return False
        return all(_sha(p) == stamp[p] for p in want)
    except (OSError, IndexError):
        return False


def _compile():
    key = hashlib.sha256(' '.join(p + _sha(p) for p in _sources()).encode()).hexdigest()[:24]
    base = os.path.join(VERIF, '.scratch')
    os.makedirs(base, exist_ok=True)
    out = os.path.join(base, 'ext-%s.so' % key)
    with open(os.path.join(base, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        work = os.path.join(base, 'build-%s' % key)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        for p in _sources() + ['README.md', 'LICENSE.txt']:
            src = os.path.join(REPO, p)
            if os.path.exists(src):
                os.makedirs(os.path.dirname(os.path.join(work, p)) or work, exist_ok=True)
                shutil.copy(src, os.path.join(work, p))
        for d in ('intvalpy', 'intvalpy/kernel'):
            open(os.path.join(work, d, '__init__.py'), 'w').close()
        r = subprocess.run([sys.executable, 'setup.py', 'build_ext', '--inplace', '--force'],
                           cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        built = os.path.join(work, SO)
        if r.returncode or not os.path.exists(built):
            sys.stderr.write(r.stdout[-3000:])
            shutil.rmtree(work, ignore_errors=True)
            raise SystemExit('cannot build the extension from the working tree')
        os.replace(built, out)
        shutil.rmtree(work, ignore_errors=True)
    return out


_info = {}


def load():
    """Import and return intvalpy (idempotent)."""
    if 'ip' in _info:
        return _info['ip']
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if _fresh():
        _info['ext'] = 'repo .so (content hashes match the working tree)'
    else:
        so = _compile()
        spec = importlib.util.spec_from_file_location(MOD, so)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[MOD] = mod
        spec.loader.exec_module(mod)
        _info['ext'] = 'compiled from the working tree for this run'
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    import intvalpy as ip
    assert ip.__file__.startswith(REPO + '/'), ip.__file__
    _info['ip'] = ip
    return ip


def ext_info():
    return _info.get('ext', '')
