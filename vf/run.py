"""Runner: generates cases, runs the real code under the property's monitor in
parallel workers, aggregates what was observed and gives a three-valued verdict.

exit 0  held on everything explored
exit 1  violated (VIOLATION property=<id> replay=<path>)
exit 3  inconclusive (monitor observed too little / harness error)"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import pathlib
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent
REPO = os.environ.get('VF_REPO', '/repo')
EVID = ROOT / 'evidence'


class Hang(BaseException):
    """The CPU watchdog fired (not a verdict)."""


class Budget(BaseException):
    """The deterministic step budget is used up (a verdict)."""


class Violations(list):
    def add(self, mech, msg, *args):
        self.append((mech, (msg % args if args else msg)[:600]))


class Ctx:
    """Per-case observation record handed to the property's check."""
    def __init__(self, prop, tier, scratch):
        self.v = Violations()
        self.obs = collections.Counter()
        self.sig = []
        self.prop = prop
        self.tier = tier
        self.scratch = scratch
        self.nontrivial = None
        self.note = None

    def bad(self, mech, msg, *args):
        self.v.add(mech, msg, *args)

    def see(self, name, n=1):
        self.obs[name] += n


CPU_LIMIT = 20.0
STEP_BUDGET = 60_000_000


def _alarm(sig, frm):
    raise Hang()


def _with_budget(fn):
    """Run fn with a deterministic budget of branch/jump/call events."""
    mon = sys.monitoring
    tool = 4
    n = [0]

    def ev(*a):
        n[0] += 1
        if n[0] > STEP_BUDGET:
            raise Budget()

    mon.use_tool_id(tool, 'vf')
    E = mon.events
    for e in (E.JUMP, E.BRANCH, E.PY_START):
        mon.register_callback(tool, e, ev)
    mon.set_events(tool, E.JUMP | E.BRANCH | E.PY_START)
    try:
        return fn()
    finally:
        mon.set_events(tool, 0)
        for e in (E.JUMP, E.BRANCH, E.PY_START):
            mon.register_callback(tool, e, None)
        mon.free_tool_id(tool)


def where(exc):
    """Innermost pdfme frame of an exception: the mechanism key of a crash."""
    last = '?'
    for f in traceback.extract_tb(exc.__traceback__):
        if '/pdfme/' in f.filename:
            last = '%s:%s' % (os.path.basename(f.filename), f.name)
    return last


def run_case(mod, prop, case, tier, scratch):
    from . import build, pdfread

    def attempt():
        ctx = Ctx(prop, tier, scratch)
        try:
            mod.check(case, ctx)
        except build.PageCap as e:
            ctx.bad('endless-pages', 'more than %s pages were produced', e)
        except build.CodeError as e:
            ctx.bad('exception:%s@%s' % (type(e.exc).__name__, where(e.exc)),
                    'valid input raised %s: %s', type(e.exc).__name__, str(e.exc)[:300])
        except pdfread.PdfError as e:
            ctx.bad('malformed', 'output is malformed: %s', e)
        except (ImportError, OSError, MemoryError):
            raise
        except Exception as e:
            # the oracle met an output of a shape that cannot be (it never does on sound output)
            if isinstance(e, AttributeError) and 'NoneType' not in str(e):
                raise
            tb = traceback.extract_tb(e.__traceback__)[-1]
            ctx.bad('uninterpretable:%s@%s' % (type(e).__name__, where(e) if '/pdfme/' in tb.filename else os.path.basename(tb.filename)),
                    'the output cannot be interpreted: %s: %s (%s:%d)', type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno)
        return ctx

    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        ctx = attempt()
    except Hang:
        ctx = None
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if ctx is None:
        try:
            ctx = _with_budget(attempt)
        except Budget:
            ctx = Ctx(prop, tier, scratch)
            ctx.bad('no-termination', 'did not finish within %d steps', STEP_BUDGET)
    return ctx


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)


def worker(mod_name, prop, tier, seed, idx, nw, total, deadline, out, scratch):
    import gc
    mod = importlib.import_module(mod_name)
    from . import build
    build.install()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2) if not os.environ.get('VF_DEBUG') else None
    try:
        for i in range(idx, total, nw):
            if time.monotonic() > deadline:
                out.put(('stop', i, None))
                break
            rng = random.Random('%s/%s/%s' % (prop, seed, i))
            try:
                case = mod.gen(rng, tier, i)
                t0 = time.process_time()
                ctx = run_case(mod, prop, case, tier, scratch)
                dt = time.process_time() - t0
            except Exception:
                out.put(('error', i, traceback.format_exc()))
                continue
            sig = hashlib.sha1((canon(case)).encode()).hexdigest()[:16]
            nt = ctx.nontrivial if ctx.nontrivial is not None else bool(ctx.obs)
            out.put(('case', i, dict(v=list(ctx.v[:12]), obs=dict(ctx.obs), sig=sig, nt=nt, dt=dt,
                                     case=case if (ctx.v or i < 3) else None, note=ctx.note)))
    finally:
        out.put(('done', idx, None))


def load_findings(prop):
    """known_findings.txt: 'finding: property=<id> mechanism=<key> case=<file> <what fails>'
    and 'fixed: property=<id> <commit> <what failed>' (the latter suppress nothing)."""
    out = []
    p = ROOT / 'known_findings.txt'
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith('finding: '):
                parts = line[len('finding: '):].split(' ', 3)
                d = dict(x.split('=', 1) for x in parts[:3])
                if d['property'] == prop:
                    d['what'] = parts[3]
                    out.append(d)
    return out


def main(argv):
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.monotonic()
    import pdfme
    assert pathlib.Path(pdfme.__file__).resolve().is_relative_to(pathlib.Path(REPO).resolve()), pdfme.__file__
    mod_name = 'vf.props.%s' % prop.lower()
    mod = importlib.import_module(mod_name)
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    try:
        if len(argv) > 2 and argv[1] == '--replay':
            from . import build
            build.install()
            rep = json.loads(pathlib.Path(argv[2]).read_text())
            ctx = run_case(mod, prop, rep['case'], tier, scratch)
            for mech, msg in ctx.v:
                print('%s: %s' % (mech, msg))
            print('observed:', dict(ctx.obs), ctx.note or '')
            if ctx.v:
                print('VIOLATION property=%s replay=%s' % (prop, argv[2]))
                return 1
            return 0
        return explore(mod, mod_name, prop, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def explore(mod, mod_name, prop, tier, seed, scratch, t0):
    total = mod.CASES[tier]
    limit = float(os.environ.get('VF_TIME', {'quick': 300, 'thorough': 780}[tier]))
    nw = min(int(os.environ.get('VF_JOBS', os.cpu_count() or 4)), total)
    mpc = multiprocessing.get_context('fork')
    q = mpc.Queue()
    procs = []
    for k in range(nw):
        p = mpc.Process(target=worker, args=(mod_name, prop, tier, seed, k, nw, total, t0 + limit, q, scratch))
        p.start()
        procs.append(p)
    obs = collections.Counter()
    cases = 0
    sigs = set()
    samples = []
    viols = collections.OrderedDict()
    errors = []
    maxdt = 0
    running = nw
    truncated = 0
    while running:
        try:
            kind, i, r = q.get(timeout=30)
        except Exception:
            if not any(p.is_alive() for p in procs):
                errors.append('worker died')
                break
            continue
        if kind == 'done':
            running -= 1
        elif kind == 'stop':
            truncated += 1
        elif kind == 'error':
            errors.append('case %d: %s' % (i, r))
        else:
            cases += 1
            obs.update(r['obs'])
            maxdt = max(maxdt, r['dt'])
            if r['nt']:
                sigs.add(r['sig'])
            if r['case'] is not None and not r['v'] and len(samples) < 3:
                s = canon(r['case'])
                samples.append({'index': i, 'case': s[:1500], 'observed': r['obs']})
            for mech, msg in r['v']:
                viols.setdefault(mech, []).append((i, msg, r['case']))
    for p in procs:
        p.join(timeout=10)
        if p.is_alive():
            p.kill()
    # cases fixed for all seeds: recorded defects must stay repaired, listed findings must be shown
    known = load_findings(prop)
    new = dict(viols)
    for k in known:
        case = json.loads((ROOT / k['case']).read_text())['case']
        from . import build
        build.install()
        ctx = run_case(mod, prop, case, tier, scratch)
        for mech, msg in ctx.v:
            if mech == k['mechanism']:
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
                break
        for mech, msg in ctx.v:
            if mech != k['mechanism']:
                new.setdefault(mech, []).append((-1, msg, case))
    EVID.mkdir(exist_ok=True)
    wall = time.monotonic() - t0
    need = {k: (v if isinstance(v, int) else v[tier]) for k, v in getattr(mod, 'NEED', {}).items()}
    missing = {k: (obs[k], n) for k, n in need.items() if obs[k] < n}
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': cases, 'distinct_nontrivial': len(sigs),
            'rule': mod.RULE, 'samples': samples,
            'observed': dict(sorted(obs.items())),
            'max_case_cpu_s': round(maxdt, 3), 'cases_planned': total,
        },
        'assumptions': getattr(mod, 'ASSUME', []) + [
            'the independent PDF reader in vf/pdfread.py reads files the way a viewer does',
            'AFM widths snapshot in data/metrics.json'],
        'wall_s': round(wall, 2), 'violations': len(new),
    }
    (EVID / ('%s.json' % prop)).write_text(json.dumps(ev, indent=1))
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs, slowest %.2fs cpu%s' % (
        prop, tier, seed, cases, len(sigs), wall, maxdt, ' (time limit)' if truncated else ''))
    print('observed: %s' % ', '.join('%s=%d' % kv for kv in sorted(obs.items())))
    if new:
        rdir = EVID / 'replay'
        rdir.mkdir(exist_ok=True)
        for k, (mech, lst) in enumerate(new.items()):
            if k >= 8:
                print('... and %d more mechanisms' % (len(new) - 8))
                break
            lst.sort(key=lambda t: (len(canon(t[2])), t[0]))
            i, msg, case = lst[0]
            path = rdir / ('%s-%d.json' % (prop, k))
            path.write_text(json.dumps({'property': prop, 'seed': seed, 'tier': tier, 'index': i,
                                        'mechanism': mech, 'message': msg, 'case': case}, indent=1, default=repr))
            print('  [%s] x%d, case %d: %s' % (mech, len(lst), i, msg))
            print('VIOLATION property=%s replay=%s' % (prop, path.relative_to(ROOT)))
        return 1
    if errors:
        print('INCONCLUSIVE: %d harness errors; first:\n%s' % (len(errors), errors[0]))
        return 3
    if missing:
        print('INCONCLUSIVE: too little observed (have, need): %s' % missing)
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
