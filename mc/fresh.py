"""Run a piece of work in a process which has not used the library before.

The workers of the explorer only import the library; scenarios of checks about process history do all their work in children
forked from them, so every child starts from the state of a freshly started process (`real` is used to confirm that on
interpreters started from scratch)."""
import os
import pickle
import signal
import subprocess
import sys
import traceback

from .engine import Violation, Prune


def child(fn, *args):
    """fn(*args) in a forked child; its (picklable) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.alarm(100)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            try:
                out = ('ok', fn(*args))
            except Violation as e:
                out = ('violation', (e.signature, e.message, e.trace))
            except Prune as e:
                out = ('pruned', str(e))
            except BaseException as e:
                out = ('exc', (type(e).__name__, traceback.format_exc()[-2500:]))
            b = pickle.dumps(out)
            with os.fdopen(w, 'wb') as f:
                f.write(b)
        except BaseException:
            code = 1
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        os.waitpid(pid, 0)
        raise
    _, st = os.waitpid(pid, 0)
    if not b:
        raise Violation('process-died', f"the process writing the file ended with status {st}")
    k, v = pickle.loads(b)
    if k == 'ok':
        return v
    if k == 'violation':
        raise Violation(*v)
    if k == 'pruned':
        raise Prune(v)
    raise Violation(f"unexpected-exception:{v[0]}", v[1].strip().splitlines()[-1][:600], v[1])


def real(module, fn, arg, path, hashseed='0', cwd=None):
    """module.fn(arg) -> bytes in a newly started interpreter."""
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    src = (f"import sys, pickle; sys.path[:0] = [{root!r}, '/repo/src']; sys.dont_write_bytecode = True\n"
           f"import mc.lib, mc.engine, importlib\nmc.lib.quiet()\n"
           f"class E: pass\nE.path = {path!r}; mc.lib.ENV = E\n"
           f"m = importlib.import_module({module!r})\n"
           f"sys.stdout.buffer.write(b'RESULT' + pickle.dumps(m.{fn}({arg!r})))\n")
    env = dict(os.environ, PYTHONHASHSEED=hashseed)
    p = subprocess.run([sys.executable, '-c', src], env=env, cwd=cwd, capture_output=True, timeout=100)
    i = p.stdout.find(b'RESULT')
    if p.returncode or i < 0:
        raise Violation('fresh-process-failed', p.stderr.decode(errors='replace')[-600:])
    return pickle.loads(p.stdout[i + 6:])
