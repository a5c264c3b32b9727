"""Out-of-tree builds of the native extension from /repo's working tree.

Every flavour is configured with the repository's own meson.build in a private
directory, so the compiled code is exactly what /repo contains.  The result is a
directory that holds a `pysimulators` package (links to /repo/src/pysimulators)
plus the freshly compiled `_flib`.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

REPO = Path(os.environ.get('VP_REPO', '/repo'))
VERIF = Path(__file__).resolve().parent.parent
CACHE = VERIF / '.cache'

FLAVOURS = {
    # what users run: the project's own release flags
    'release': dict(buildtype='release', c='', f='', ld=''),
    # address + undefined behaviour + Fortran array-bound checks
    'asan': dict(
        buildtype='plain',
        c='-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined '
        '-fno-sanitize=alignment,vptr -fsanitize-recover=undefined',
        f='-g -O1 -fno-omit-frame-pointer -fsanitize=address,undefined '
        '-fno-sanitize=alignment,vptr -fsanitize-recover=undefined '
        '-fcheck=bounds -fbacktrace',
        ld='-fsanitize=address,undefined',
    ),
    'tsan': dict(
        buildtype='plain',
        c='-g -O1 -fsanitize=thread',
        f='-g -O1 -fsanitize=thread',
        ld='-fsanitize=thread',
    ),
    # uninitialised stack/heap Fortran locals poisoned with signalling patterns
    'poison': dict(
        buildtype='release',
        c='',
        f='-finit-local-zero -finit-real=snan -finit-integer=-889275714',
        ld='',
    ),
}


class BuildError(Exception):
    pass


def base_env():
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    env['SETUPTOOLS_SCM_PRETEND_VERSION'] = '2.0.0'
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    for k in ('PYTHONPATH', 'MESONPY_EDITABLE_SKIP', 'LD_PRELOAD'):
        env.pop(k, None)
    return env


def _tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    files = []
    for top in ('src/flib', 'tools'):
        files += [p for p in (REPO / top).rglob('*') if p.is_file()]
    files += [p for p in REPO.glob('meson*') if p.is_file()]
    files += [p for p in REPO.glob('src/meson*')]
    files += [REPO / 'src/pysimulators/meson.build']
    for p in sorted(files):
        if p.is_file() and '__pycache__' not in p.parts:
            h.update(str(p.relative_to(REPO)).encode() + b'\0')
            h.update(p.read_bytes())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def build(flavour):
    """Compile `_flib` with this flavour; return the path of the .so."""
    cfg = FLAVOURS[flavour]
    key = _tree_hash(repr(sorted(cfg.items())))
    CACHE.mkdir(exist_ok=True)
    outdir = CACHE / f'{flavour}-{key}'
    with open(CACHE / f'{flavour}.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        done = sorted(outdir.glob('_flib*.so'))
        if done and (outdir / 'ok').exists():
            return done[0]
        # keep the cache small: only the latest tree of each flavour
        for old in CACHE.glob(f'{flavour}-*'):
            shutil.rmtree(old, ignore_errors=True)
        work = outdir / 'work'
        work.mkdir(parents=True)
        env = base_env()
        env.update(CFLAGS=cfg['c'], FFLAGS=cfg['f'], LDFLAGS=cfg['ld'])
        log = outdir / 'build.log'
        with open(log, 'w') as f:
            for cmd in (
                ['meson', 'setup', str(work), str(REPO),
                 f'--buildtype={cfg["buildtype"]}'],
                ['ninja', '-C', str(work)],
            ):
                r = subprocess.run(
                    cmd, env=env, stdout=f, stderr=subprocess.STDOUT, timeout=600
                )
                if r.returncode:
                    raise BuildError(
                        f'{" ".join(cmd)} failed:\n' + log.read_text()[-4000:]
                    )
        so = next(work.rglob('_flib*.so'))
        dst = outdir / so.name
        shutil.copy2(so, dst)
        shutil.rmtree(work, ignore_errors=True)
        (outdir / 'ok').write_text('')
        return dst


def make_package(so, where):
    """A directory to put first in sys.path: /repo's Python sources + `so`."""
    pkg = Path(where) / 'pysimulators'
    src = REPO / 'src' / 'pysimulators'
    pkg.mkdir(parents=True)
    for p in src.iterdir():
        if p.name == '__pycache__' or p.name.startswith('_flib'):
            continue
        os.symlink(p, pkg / p.name)
    os.symlink(so, pkg / ('_flib' + sysconfig.get_config_var('EXT_SUFFIX')))
    return str(where)


def build_gomp_shim(flavour='tsan'):
    """The instrumentable OpenMP runtime (see native/gomp_shim.c)."""
    src = VERIF / 'native' / 'gomp_shim.c'
    key = hashlib.sha256(src.read_bytes() + flavour.encode()).hexdigest()[:16]
    CACHE.mkdir(exist_ok=True)
    dst = CACHE / f'gomp_shim-{flavour}-{key}.so'
    if not dst.exists():
        tmp = CACHE / f'gomp_shim-{flavour}-{os.getpid()}.tmp'
        flags = ['-fsanitize=thread'] if flavour == 'tsan' else []
        r = subprocess.run(
            ['gcc', '-g', '-O1', '-shared', '-fPIC', *flags, str(src), '-o',
             str(tmp), '-lpthread'],
            capture_output=True, text=True,
        )
        if r.returncode:
            raise BuildError(r.stderr)
        os.rename(tmp, dst)
    return dst


def runtime_lib(name):
    r = subprocess.run(['gcc', f'-print-file-name={name}'], capture_output=True, text=True)
    p = r.stdout.strip()
    return os.path.realpath(p)
