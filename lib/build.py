"""Builds /repo's working tree (all of it, out of tree) for the checks.

flavor "small": the detector is scaled down to 8x8 (STEMPY_VERIF_FRAME_SIZE=8)
flavor "full" : the detector keeps its real 576x576 size
flavor "gil"  : like small, and references to Python's objects may only be changed
                while Python's lock is held
flavor "h5"   : "small" with ../harness_h5
flavor "mpi"  : like "sched", with MPI (see ../mpi)
flavor "sched": like small, and every function calls the schedule perturbation
                (see ../harness); with the recording harness
"""
import fcntl, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/stempy-venv/bin/python'
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
FLAGS = '-O1 -DNDEBUG -Wno-error -w -D_GLIBCXX_ASSERTIONS'
# Calls to every function can be used to perturb the schedule of the threads
INSTRUMENT = ' -finstrument-functions -finstrument-functions-exclude-file-list=Eigen,unsupported,pybind11,electronthresholds,bits/stl_vector,bits/stl_iterator,bits/stl_algo,bits/move,bits/alloc,bits/stl_construct,bits/stl_uninit'
FLAVORS = {
    'small': FLAGS + ' -DSTEMPY_VERIF_FRAME_SIZE=8',
    'full': FLAGS,
    'gil': FLAGS + ' -DSTEMPY_VERIF_FRAME_SIZE=8 -DPYBIND11_ASSERT_GIL_HELD_INCREF_DECREF',
    'mpi': FLAGS + INSTRUMENT + ' -DSTEMPY_VERIF_FRAME_SIZE=8',
    'sched': FLAGS + INSTRUMENT + ' -DSTEMPY_VERIF_FRAME_SIZE=8',
}


class BuildError(Exception):
    pass


def _run(cmd, env, log):
    with open(log, 'a') as f:
        f.write('+ ' + ' '.join(cmd) + '\n')
        f.flush()
        r = subprocess.run(cmd, env=env, stdout=f, stderr=subprocess.STDOUT)
    if r.returncode:
        tail = open(log).read()[-4000:]
        raise BuildError(f'{cmd[0]} failed ({r.returncode})\n{tail}')


def build(flavor='small'):
    """Builds and returns the directory to put on PYTHONPATH."""
    h5 = flavor == 'h5'
    if h5:
        flavor = 'small'
    bdir = os.path.join(BUILD, flavor)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(BUILD, f'.{flavor}.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(os.environ, CC='gcc', CXX='g++', LC_ALL='C.UTF-8')
    log = os.path.join(bdir, 'build.log')
    if os.path.exists(log):
        os.unlink(log)
    pkg = os.path.join(bdir, 'lib', 'stempy')
    if os.path.isdir(pkg):
        for n in os.listdir(pkg):
            p = os.path.join(pkg, n)
            if os.path.islink(p) and not n.endswith('.so'):
                os.unlink(p)
    t0 = time.time()
    _run(['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja',
          '-DCMAKE_BUILD_TYPE=None', f'-DCMAKE_CXX_FLAGS={FLAVORS[flavor]}',
          f'-DCMAKE_PROJECT_stempy_INCLUDE={VERIF}/cmake/pybind11_from_apt.cmake',
          f'-DPython3_EXECUTABLE={PY}', '-Dstempy_ENABLE_HDF5=ON',
          *(['-Dstempy_ENABLE_MPI=ON', '-DCMAKE_FIND_PACKAGE_PREFER_CONFIG=ON',
             f'-DMPI_DIR={VERIF}/mpi', f'-DBigMPI_DIR={VERIF}/mpi'] if flavor == 'mpi'
            else ['-Dstempy_ENABLE_MPI=OFF']),
          '-Dstempy_ENABLE_VTKm=OFF'], env, log)
    _run(['ninja', '-C', bdir], env, log)
    # The recording harness: it links the same library and uses the public API.
    harness = 'harness_h5' if h5 else 'harness'
    if h5 or flavor in ('sched', 'mpi'):
        hdir = os.path.join(bdir, harness)
        os.makedirs(hdir, exist_ok=True)
        _run(['cmake', '-S', os.path.join(VERIF, harness), '-B', hdir, '-G',
              'Ninja', '-DCMAKE_BUILD_TYPE=None',
              f'-DCMAKE_CXX_FLAGS={FLAVORS[flavor]}',
              f'-DREPO={REPO}', f'-DSTEMBUILD={bdir}',
              f'-DPython3_EXECUTABLE={PY}'], env, log)
        _run(['ninja', '-C', hdir], env, log)
    with open(log, 'a') as f:
        f.write(f'done in {time.time() - t0:.1f}s\n')
    fcntl.flock(lock, fcntl.LOCK_UN)
    return os.path.join(bdir, 'lib')


if __name__ == '__main__':
    for fl in sys.argv[1:] or list(FLAVORS) + ['h5']:
        t = time.time()
        build(fl)
        print(f'built {fl} in {time.time() - t:.1f}s')
