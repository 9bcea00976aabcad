"""Build a runnable copy of /repo's current working tree outside /repo.

The third-party headers that the repository takes from git submodules (not
present here) are replaced by the stand-ins in /verif/shims, which implement
the same container interfaces on top of the C++ standard library."""
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VENV = '/opt/venv/bin/python'
CYTHON = '/opt/venv/bin/cython'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.cache')
ALL = ['bit', 'containers', 'pcfg', 'plcfrs', 'kbest', 'coarsetofine',
        'disambiguation', 'estimates', '_fragments', 'probe']


SOURCES = ('.py', '.pyx', '.pxd', '.pxi', '.h')


def sourcehash(repo, exts, suffixes=SOURCES):
    h = hashlib.sha256()
    h.update(repr(sorted(exts)).encode())
    d = os.path.join(repo, 'discodop')
    for f in sorted(os.listdir(d)):
        if f.endswith(suffixes):
            h.update(f.encode())
            with open(os.path.join(d, f), 'rb') as inp:
                h.update(inp.read())
    for root, dirs, files in os.walk(os.path.join(HERE, 'shims')):
        dirs.sort()
        for f in sorted(files):
            with open(os.path.join(root, f), 'rb') as inp:
                h.update(inp.read())
    return h.hexdigest()[:20]


def _flags():
    import sysconfig
    out = subprocess.run([VENV, '-c',
            'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);'
            'print(numpy.get_include())'], capture_output=True, text=True,
            check=True).stdout.split()
    return ['-I' + a for a in out]


def build(repo, exts):
    """Copy sources and compile ``exts``; return directory for sys.path."""
    key = sourcehash(repo, exts)
    dest = os.path.join(CACHE, 'build-' + key)
    if os.path.exists(os.path.join(dest, '.done')):
        return dest
    tmp = dest + '.tmp%d' % os.getpid()
    os.makedirs(os.path.join(tmp, 'discodop'))
    src = os.path.join(repo, 'discodop')
    for f in os.listdir(src):
        if f.endswith(SOURCES):
            shutil.copy(os.path.join(src, f), os.path.join(tmp, 'discodop'))
    for f in os.listdir(os.path.join(HERE, 'shims', 'probe')):
        shutil.copy(os.path.join(HERE, 'shims', 'probe', f),
                os.path.join(tmp, 'discodop'))
    for f in os.listdir(os.path.join(HERE, 'shims', 'append')):
        with open(os.path.join(HERE, 'shims', 'append', f)) as inp:
            with open(os.path.join(tmp, 'discodop', f), 'a') as out:
                out.write(inp.read())
    for f in os.listdir(repo):
        if f.endswith(('.headrules', '.export')):
            shutil.copy(os.path.join(repo, f), tmp)
    for f in ('sparsepp', 'cpp-btree', 'gheap'):
        shutil.copytree(os.path.join(HERE, 'shims', f), os.path.join(tmp, f))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')

    # compiled modules depend on the Cython sources only
    sodir = os.path.join(CACHE, 'so-' + sourcehash(repo, [], SOURCES[1:]))
    os.makedirs(sodir, exist_ok=True)

    def one(ext):
        d = os.path.join(tmp, 'discodop')
        compiled = os.path.join(sodir, ext + '.so')
        if os.path.exists(compiled):
            shutil.copy(compiled, d)
            return
        r = subprocess.run([CYTHON, '--cplus', '-3', '-X',
                'cdivision=True,wraparound=False,boundscheck=False,'
                'nonecheck=False', 'discodop/%s.pyx' % ext],
                cwd=tmp, capture_output=True, text=True, env=env)
        if r.returncode:
            raise RuntimeError('cython %s failed: %s' % (ext, r.stderr[-2000:]))
        r = subprocess.run(['g++', '-shared', '-fPIC', '-O1', '-w',
                '-DNDEBUG', '-I..', '-I.'] + _flags() + [ext + '.cpp', '-o',
                ext + '.so'], cwd=d, capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('g++ %s failed: %s' % (ext, r.stderr[-2000:]))
        os.unlink(os.path.join(d, ext + '.cpp'))
        part = compiled + '.tmp%d' % os.getpid()
        shutil.copy(os.path.join(d, ext + '.so'), part)
        os.rename(part, compiled)

    with ThreadPoolExecutor(8) as pool:
        list(pool.map(one, exts))
    with open(os.path.join(tmp, '.done'), 'w') as out:
        out.write('ok\n')
    try:
        os.rename(tmp, dest)
    except OSError:
        shutil.rmtree(tmp)
    return dest


if __name__ == '__main__':
    print(build(os.environ.get('SYMX_REPO', '/repo'), sys.argv[1:] or ALL))
