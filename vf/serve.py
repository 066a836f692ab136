"""A process that builds documents on request, in a given configuration: hash seed, clock, random seed, locale.
Requests and answers are pickled, with their length before them."""
import os
import pickle
import struct
import subprocess
import sys


def receive(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack('>I', h)[0]))


def send(f, v):
    d = pickle.dumps(v)
    f.write(struct.pack('>I', len(d)) + d)
    f.flush()


def make(req, scratch):
    from . import build, docgen
    from pdfme.fonts import PDFFont
    for fam, mode, path in req.get('fonts', ()):
        PDFFont.register(fam, mode, path)
    try:
        return build.document(docgen.materialise(req['doc'], req['images'], scratch), req.get('context'))
    finally:
        for fam, mode, path in req.get('fonts', ()):
            PDFFont.registered_fonts.pop((fam, mode), None)


def main():
    scratch, clock = sys.argv[1], float(sys.argv[2])
    import random
    import time
    random.seed(os.environ.get('PYTHONHASHSEED'))
    if clock:
        now = time.time
        time.time = lambda: now() + clock
    from . import build, fork, run
    import signal
    signal.signal(signal.SIGVTALRM, run._alarm)
    build.install()
    out = os.fdopen(os.dup(1), 'wb')
    os.dup2(2, 1)
    while True:
        req = receive(sys.stdin.buffer)
        if req is None:
            return
        signal.setitimer(signal.ITIMER_VIRTUAL, run.CPU_LIMIT)
        o = fork.outcome(lambda: make(req, scratch))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        send(out, o)


class Server:
    def __init__(self, scratch, seed, clock=0, env=()):
        e = dict(os.environ, PYTHONHASHSEED=str(seed), **dict(env))
        root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        e['PYTHONPATH'] = os.pathsep.join([root, os.environ.get('VF_REPO', '/repo'), e.get('PYTHONPATH', '')])
        self.p = subprocess.Popen([sys.executable, '-m', 'vf.serve', scratch, str(clock)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL if not os.environ.get('VF_DEBUG') else None, env=e, cwd=scratch)

    def ask(self, req):
        send(self.p.stdin, req)

    def answer(self):
        return receive(self.p.stdout)


if __name__ == '__main__':
    main()
