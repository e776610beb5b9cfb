"""Obtain exported translation units of the current /repo tree."""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
EXPORTER = os.path.join(BUILD, 'exporter')

_tmp = None


class ToolError(Exception):
    pass


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix='vp-units-')
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def ensure_exporter():
    src = os.path.join(HERE, 'exporter.cpp')
    stamp = EXPORTER + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if os.path.exists(EXPORTER) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['bash', os.path.join(HERE, 'build_exporter.sh'), EXPORTER], capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError('cannot build the exporter: ' + r.stderr[-2000:])
    open(stamp, 'w').write(h)


def flags(src):
    fl = ['-std=gnu++17', '-fopenmp', '-DNDEBUG', '-DUSEGDAL', '-DRICHDEM_GIT_HASH="x"', '-DRICHDEM_COMPILE_TIME="x"',
          '-I' + os.path.join(VERIF, 'harness', 'stub'), '-I' + os.path.join(REPO, 'include'), '-I/usr/include/gdal',
          '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-ferror-limit=0', '-w']
    if '/apps/' in src:
        fl.append('-I' + os.path.join(REPO, 'apps'))
    if '/programs/' in src:
        fl += ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem',
               '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-I' + os.path.dirname(src)]
    if '/wrappers/' in src:
        fl += ['-isystem', '/usr/include/pybind11', '-I/usr/include/python3.12']
    return fl


def export(src, extra=()):
    out = os.path.join(tmpdir(), hashlib.sha1((src + repr(extra)).encode()).hexdigest() + '.json')
    if os.path.exists(out):
        return out
    cmd = [EXPORTER, out, src, REPO.rstrip('/') + '/', os.path.join(VERIF, 'harness') + '/', '--'] + flags(src) + list(extra)
    r = subprocess.run(cmd, capture_output=True, text=True)
    open(out + '.log', 'w').write(r.stderr)
    if not os.path.exists(out) or os.path.getsize(out) < 100:
        raise ToolError('export of %s failed:\n%s' % (src, r.stderr[-3000:]))
    return out


# error messages of the parser that do not concern the analysed code:
# (a) clang rejects a template whose forward declaration differs from its
#     definition in a top-level const; gcc, which builds the project, accepts it
IGNORED = ("cannot assign to variable 'water_vol' with const-qualified type",)


def load(srcs, extra=(), strict=True):
    """-> [Unit]; srcs are absolute paths"""
    from ai import Unit
    ensure_exporter()
    with ThreadPoolExecutor(6) as ex:
        outs = list(ex.map(lambda s: export(s, extra), srcs))
    us = []
    for s, o in zip(srcs, outs):
        errs = [l for l in open(o + '.log').read().splitlines() if ' error: ' in l]
        bad = [l for l in errs if not any(i in l for i in IGNORED)]
        if bad and strict:
            raise ToolError('parse errors in %s:\n%s' % (s, '\n'.join(bad[:5])))
        u = Unit(json.load(open(o)))
        u.src = s
        u.parse_errors = errs
        us.append(u)
    return us


def harness(*names):
    return [os.path.join(VERIF, 'harness', 'h_%s.cpp' % n) for n in names]


def apps():
    r = []
    for f in sorted(glob.glob(os.path.join(REPO, 'apps', '*.cpp'))):
        b = os.path.basename(f)[:-4]
        if b in ('rd_surface_area',):  # not part of the build: includes a header that does not exist
            continue
        r.append(f)
    return r


def programs():
    return [os.path.join(REPO, 'programs', p, 'main.cpp') for p in ('parallel_d8_accum', 'parallel_priority_flood')]


def srcs(word=''):
    return [f for f in sorted(glob.glob(os.path.join(REPO, 'src', '**', '*.cpp'), recursive=True)) if word in open(f).read()]


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p
