"""Starts gmon/vt.py under an interpreter which has SciPy; None if there is none (those cases are then left out)."""
import json
import os
import shutil
import signal
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def run(cases, timeout=150):
    exe = shutil.which('python3-vt')
    if exe is None:
        return None
    env = dict(os.environ, GMON_REPO=os.environ.get('GMON_REPO', '/repo'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env.pop('PYTHONPATH', None)
    p = subprocess.Popen([exe, os.path.join(HERE, 'vt.py')], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, env=env)
    try:
        out, err = p.communicate(json.dumps(cases), timeout)
    except subprocess.TimeoutExpired:
        p.send_signal(signal.SIGKILL)
        p.communicate()
        return 'hang'
    try:
        r = json.loads(out.splitlines()[-1])
    except (ValueError, IndexError):
        return {'died': p.returncode, 'out': out[-500:], 'err': err[-2500:]}
    return None if r == 'unavailable' else r
