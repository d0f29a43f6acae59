"""Interpreters with another string hash seed, for executions whose result
must not depend on it.  A companion reads (property, plan, argument) and
answers with the result of `world(plan, argument)` of the property module."""
import os
import pickle
import struct
import sys

from . import core

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_known = {}


def ask(hashseed, pid, plan, arg):
    'world(plan, arg) of a property, under another PYTHONHASHSEED.'
    key = os.getpid(), hashseed
    if key not in _known:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed), BEERSIM_BOOT='1')
        _known[key] = core._orig['Popen'](
            [sys.executable, os.path.join(VERIF, 'check.py'), 'companion'],
            stdin=-1, stdout=-1, env=env)
    p = _known[key]
    try:
        _send(p.stdin, (pid, plan, arg))
        ok, value = _recv(p.stdout)
    except (EOFError, OSError) as e:
        del _known[key]
        raise core.HarnessError(f'companion lost: {e}')
    if not ok:
        raise value
    return value


def _send(f, obj):
    data = pickle.dumps(obj)
    f.write(struct.pack('<Q', len(data)) + data)
    f.flush()


def _recv(f):
    head = f.read(8)
    if len(head) < 8:
        raise EOFError()
    n = struct.unpack('<Q', head)[0]
    data = f.read(n)
    if len(data) < n:
        raise EOFError()
    return pickle.loads(data)


def serve():
    from . import engine
    inp, out = os.fdopen(0, 'rb'), os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while True:
        try:
            pid, plan, arg = _recv(inp)
        except EOFError:
            return 0
        core.fresh_interpreter()
        try:
            res = True, engine.prop(pid).world(plan, arg)
        except core.Violation as e:
            res = False, engine.Violation(e.kind, e.detail)
        except Exception as e:
            import traceback
            res = False, core.HarnessError(f'companion: {e}\n' + traceback.format_exc())
        _send(out, res)
