"""Runs a function in a forked child: what it does to the state of the process is not seen here."""
import os
import pickle
import signal

from . import build, pdfread


class Failed(Exception):
    """Reported by the child: kind in 'code', 'cap', 'pdf'."""
    def __init__(self, kind, name, place, msg):
        super().__init__(kind, name, place, msg)
        self.kind, self.name, self.place, self.msg = kind, name, place, msg


def outcome(fn):
    from . import run
    try:
        return 'ok', fn()
    except build.PageCap as e:
        return 'cap', '', '', str(e)
    except build.CodeError as e:
        return 'code', type(e.exc).__name__, run.where(e.exc), str(e.exc)[:300]
    except pdfread.PdfError as e:
        return 'pdf', '', '', str(e)[:300]
    except run.Hang:
        return 'hang',
    except run.Budget:
        return 'budget',
    except Exception:
        import traceback
        return 'error', traceback.format_exc()


def result(o):
    """The value of an outcome, or the exception it stands for."""
    from . import run
    if o[0] == 'ok':
        return o[1]
    if o[0] == 'hang':
        raise run.Hang()
    if o[0] == 'budget':
        raise run.Budget()
    if o[0] == 'error':
        raise RuntimeError(o[1])
    raise Failed(*o)


def report(ctx, e):
    if e.kind == 'cap':
        ctx.bad('endless-pages', 'more than %s pages were produced', e.msg)
    elif e.kind == 'pdf':
        ctx.bad('malformed', 'output is malformed: %s', e.msg)
    else:
        ctx.bad('exception:%s@%s' % (e.name, e.place), 'valid input raised %s: %s', e.name, e.msg)


def call(fn):
    from . import run
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            signal.setitimer(signal.ITIMER_VIRTUAL, run.CPU_LIMIT)
            data = pickle.dumps(outcome(fn))
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
        finally:
            os._exit(0)
    os.close(wr)
    try:
        with os.fdopen(rd, 'rb') as f:
            data = f.read()
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.waitpid(pid, 0)
    if not data:
        raise RuntimeError('child gave no answer')
    return result(pickle.loads(data))
