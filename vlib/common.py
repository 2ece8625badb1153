"""Paths, the repository's source list, scratch build directory."""
import atexit
import hashlib
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
JOBS = int(os.environ.get('VP_JOBS', '8'))

_tmp = None


def scratch():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vpcheck.')
        if not os.environ.get('VP_KEEP'):
            atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp


def repo_sources():
    """Library sources, as the project's CMakeLists.txt lists them."""
    text = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    text = re.sub(r'#.*', '', text)
    m = re.search(r'set\(SRCS([^)]*)\)', text)
    return [os.path.join(REPO, s) for s in m.group(1).split()]


def max_channels():
    text = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    return re.search(r'set\(MAX_CHANNELS "([0-9]+)"', text).group(1)


def gen_include(n=None):
    """Directory with the generated max_channels.h."""
    n = n or max_channels()
    d = os.path.join(scratch(), 'gen%s' % n)
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        t = open(os.path.join(REPO, 'src/max_channels.h.in')).read()
        with open(os.path.join(d, 'max_channels.h'), 'w') as f:
            f.write(t.replace('${MAX_CHANNELS}', str(n)))
    return d


class BuildError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, env=env)
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def must(cmd, **kw):
    rc, o, e = sh(cmd, **kw)
    if rc != 0:
        raise BuildError('command failed (%d): %s\n%s\n%s' % (rc, ' '.join(cmd), o[-2000:], e[-4000:]))
    return o


def digest(*parts):
    return hashlib.sha1(repr(parts).encode()).hexdigest()[:12]
