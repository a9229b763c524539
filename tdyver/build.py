"""clang front end: /repo's C sources -> LLVM IR, on every run."""
import os, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TDY_REPO', '/repo')
PETSC = '/opt/petsc-3.17.3'
_mpi = None


def mpi_flags():
    global _mpi
    if _mpi is None:
        r = subprocess.run(['mpicc', '--showme:compile'], capture_output=True, text=True)
        _mpi = r.stdout.split() if r.returncode == 0 else []
    return _mpi


def cflags(optimized_petsc=True):
    f = ['-std=gnu99']
    if optimized_petsc:
        f += ['-I' + os.path.join(HERE, 'include')]
    f += ['-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'arch-default/include'),
          '-I' + PETSC + '/include', '-I/usr/include/hdf5/openmpi'] + mpi_flags()
    return f


def compile_ir(src, out):
    cmd = ['clang', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-g', '-ffp-contract=off',
           '-fno-math-errno', '-w', '-S', '-emit-llvm'] + cflags() + ['-o', out, os.path.join(REPO, src)]
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=os.path.dirname(out))
    if r.returncode != 0:
        raise RuntimeError('clang failed on %s:\n%s' % (src, r.stderr[-3000:]))
    return ' '.join(cmd[:12]) + ' ...'


def all_sources():
    out = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        if 'tests' in d.split('/') or 'f90-mod' in d.split('/'):
            continue
        for f in sorted(fs):
            if f.endswith('.c'):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    return sorted(out)


def build(srcs, tmp):
    from . import ir
    def one(s):
        o = os.path.join(tmp, s.replace('/', '_')[:-2] + '.ll')
        compile_ir(s, o)
        return s, o
    mods = {}
    with ThreadPoolExecutor(8) as ex:
        for s, o in ex.map(one, srcs):
            mods[s] = ir.parse_module(o, s)
            os.unlink(o)
    return mods
