'''Compile what a check needs from /repo's working tree into a scratch directory.'''
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


class BuildError(Exception):
    pass


def base_env():
    env = {
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
        'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONHASHSEED': '0',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
        'PYTHONUTF8': '1', 'LC_ALL': 'C.UTF-8',
        'PYTHONWARNINGS': '', 'HOME': '/nonexistent',
        'SIM_REPO': REPO,
    }
    return env


def build():
    '''Return a scratch directory holding simnative and cholmod extensions.'''
    scratch = tempfile.mkdtemp(prefix='blmath-sim-')
    try:
        suffix = sysconfig.get_config_var('EXT_SUFFIX')
        import numpy
        native = subprocess.Popen(
            ['gcc', '-O1', '-w', '-shared', '-fPIC',
             '-I' + sysconfig.get_path('include'), '-I' + numpy.get_include(),
             os.path.join(HERE, 'native.c'), '-o', os.path.join(scratch, 'simnative' + suffix), '-ldl'],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ext = subprocess.run(
            [PY, '-W', 'ignore', 'setup.py', '-q', 'build_ext', '--force',
             '--build-lib', os.path.join(scratch, 'lib'), '--build-temp', os.path.join(scratch, 'tmp')],
            cwd=REPO, env=base_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = native.communicate()[0]
        if native.returncode:
            raise BuildError('native.c: ' + out.decode(errors='replace'))
        if ext.returncode:
            raise BuildError('build_ext: ' + ext.stdout.decode(errors='replace'))
        so = os.path.join(scratch, 'lib', 'blmath', 'numerics', 'linalg', 'cholmod' + suffix)
        if not os.path.exists(so):
            raise BuildError('no ' + so)
        os.rename(so, os.path.join(scratch, 'cholmod' + suffix))
        shutil.rmtree(os.path.join(scratch, 'lib'))
        shutil.rmtree(os.path.join(scratch, 'tmp'), ignore_errors=True)
        return scratch
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise


if __name__ == '__main__':
    print(build())
