"""C21: the input is left unchanged, sharing structures changes nothing, and documents do not affect each other."""
import copy
import io
import random
import threading
import sys

from .. import build, docgen, fork, logical

CASES = {'quick': 320, 'thorough': 6000}
NEED = {'input_unchanged': 60, 'built_again': 30, 'shared': 25, 'shared_nodes': 800, 'repeated_elements': 60, 'interleaved': 10, 'switches': 300, 'threads': 15, 'styles_shared': 10,
        'api_calls': 150, 'api_reused': 30, 'footnotes_repeated': 10, 'nested_builds': 5, 'after_failure': 4}
RULE = ('each document is built alone in a fresh process, and again in another one: from the same object twice, with equal parts replaced by one shared object, with elements '
        'used several times, after documents that failed, interleaved with others at page and element level, in threads and inside the building of another; the same for '
        'calls of the PDF class. Painted content, annotations, destinations and outlines are compared, and the input with a copy of it. Non-trivial with 20 items')
ASSUME = ['threads are switched every 10 microseconds and at hooked calls; schedules are sampled']


def gen(r, tier, i):
    kind = r.choice(['again', 'again', 'share', 'share', 'interleave', 'threads', 'nested', 'api', 'api', 'styles', 'failure'])
    o = {}
    if r.random() < .4:
        o['force'] = {'foot': True}
    if kind in ('interleave', 'threads', 'nested', 'styles', 'failure'):
        o['sections'] = [1, 1, 2]
    docs = [docgen.document(r, o) for _ in range({'interleave': 2, 'threads': 3, 'nested': 2, 'styles': 2, 'failure': 2}.get(kind, 1))]
    case = {'kind': kind, 'docs': docs, 'seed': r.randrange(10 ** 6), 'repeat': 0}
    if kind in ('again', 'share') and r.random() < .7:
        case['repeat'] = r.choice([1, 2, 4])
    if kind == 'api':
        case['calls'] = calls(r, docs[0])
    return case


def is_element(e):
    if isinstance(e, str):
        return True
    return isinstance(e, dict)


def lists(node, out, key=None):
    """Lists of elements (content of boxes and cells), where an element can be repeated."""
    if isinstance(node, dict):
        for k, v in node.items():
            if k == 'content' and isinstance(v, list):
                out.append(v)
            lists(v, out, k)
    elif isinstance(node, list):
        for v in node:
            lists(v, out, key)
    return out


def has(node, key):
    if isinstance(node, dict):
        return key in node or any(has(v, key) for v in node.values())
    return isinstance(node, list) and any(has(v, key) for v in node)


def repeat(doc, n, r, ctx):
    """Puts n elements at other places too: the same objects, which is all a caller has to do."""
    ls = lists(doc['sections'], [])
    for _ in range(n):
        src = r.choice(ls)
        if not src:
            continue
        e = r.choice(src)
        if isinstance(e, str):
            continue
        dst = src if r.random() < .5 else r.choice(ls)
        if contains(e, dst):
            continue
        if has(e, 'group') or has(e, 'image') or has(e, 'cols'):
            dst = src  # made for the width there
        dst.insert(r.randrange(len(dst) + 1), e)
        ctx.see('repeated_elements')
        ctx.see('footnotes_repeated', has(e, 'footnote'))
    return doc


def contains(node, target):
    if node is target:
        return True
    if isinstance(node, dict):
        return any(contains(v, target) for v in node.values())
    return isinstance(node, list) and any(contains(v, target) for v in node)


def unshare(node):
    if isinstance(node, dict):
        return {k: unshare(v) for k, v in node.items()}
    if isinstance(node, list):
        return [unshare(v) for v in node]
    return node


def share(node, seen, ctx):
    """Equal dicts and lists become one object."""
    if isinstance(node, dict):
        node = {k: share(v, seen, ctx) for k, v in node.items()}
    elif isinstance(node, list):
        node = [share(v, seen, ctx) for v in node]
    else:
        return node
    k = repr(node)
    if k in seen:
        ctx.see('shared_nodes')
    return seen.setdefault(k, node)


def difference(a, b, path='document'):
    """Where two structures differ."""
    if type(a) is not type(b):
        return '%s: %.80r was %.80r' % (path, b, a)
    if isinstance(a, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a:
                return '%s got %r: %.80r' % (path, k, b[k])
            if k not in b:
                return '%s lost %r' % (path, k)
            d = difference(a[k], b[k], '%s[%r]' % (path, k))
            if d:
                return d
    elif isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s has %d elements, had %d' % (path, len(b), len(a))
        for n, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s[%d]' % (path, n))
            if d:
                return d
    elif a != b:
        return '%s: %.80r was %.80r' % (path, b, a)


def produce(doc, context):
    from pdfme import build_pdf
    buf = io.BytesIO()
    with build.guard():
        build_pdf(doc, buf, context)
    return buf.getvalue()


def summary(data):
    return logical.summary(build.read(data))


def alone(doc, context):
    return fork.call(lambda: summary(produce(unshare(doc), unshare(context))))


def mech(kind, d):
    return '%s-%s' % (kind, 'input' if d is None else 'drawing')


def compare(ctx, kind, base, got, what):
    df = logical.diff(base, got)
    if df:
        ctx.bad(kind, '%s: %s', what, df[1])
        return False
    return True


def check(case, ctx):
    try:
        {'again': again, 'share': shared, 'interleave': interleave, 'threads': threads, 'nested': nested, 'api': api, 'styles': styles, 'failure': failure}[case['kind']](case, ctx)
    except fork.Failed as e:
        fork.report(ctx, e)


def materials(case, ctx):
    out = []
    for d in case['docs']:
        out.append((docgen.materialise(d['doc'], d['images'], str(ctx.scratch), False), dict(d.get('context') or {})))
    return out


def weight(ctx, s):
    n = sum(len(p['items']) for p in s['pages'])
    ctx.see('items', n)
    ctx.nontrivial = bool(ctx.nontrivial) or n >= 20


def again(case, ctx):
    (doc, context), = materials(case, ctx)
    r = random.Random(case['seed'])
    if case['repeat']:
        repeat(doc, case['repeat'], r, ctx)
    base = alone(doc, context)
    weight(ctx, base)

    def run():
        keep, ckeep = unshare(doc), dict(context)
        a = summary(produce(doc, context))
        d1 = difference(keep, doc) or difference(ckeep, context, 'context')
        b = summary(produce(doc, context))
        return a, d1, b
    a, d, b = fork.call(run)
    ctx.see('input_unchanged')
    ctx.see('built_again')
    if not compare(ctx, 'shared-elements' if case['repeat'] else 'fresh', base, a, 'elements used several times are not drawn as copies of them'):
        return
    if not compare(ctx, 'again', base, b, 'the second build of the same input differs'):
        return
    if d:
        ctx.bad('input-changed', 'building changes the input: %s', d)


def shared(case, ctx):
    (doc, context), = materials(case, ctx)
    if case['repeat']:
        repeat(doc, case['repeat'], random.Random(case['seed']), ctx)
    base = alone(doc, context)
    weight(ctx, base)
    one = share(doc, {}, ctx)
    ctx.see('shared')
    if not compare(ctx, 'shared-parts', base, fork.call(lambda: summary(produce(one, context))), 'with equal parts being one object'):
        return
    # and tuples, which nobody can change
    tup = tuples(doc)
    compare(ctx, 'tuples', base, fork.call(lambda: summary(produce(tup, context))), 'with tuples for lists')


def tuples(node, key=None):
    if isinstance(node, dict):
        return {k: tuples(v, k) for k, v in node.items()}
    if isinstance(node, list):
        t = [tuples(v, key) for v in node]
        return tuple(t) if key in ('content', 'sections', '.', 'group', 'table') else t
    return node


def styles(case, ctx):
    """Two documents with the same style, formats and running sections objects, one after the other."""
    (a, ca), (b, cb) = materials(case, ctx)
    for k in ('style', 'formats', 'running_sections'):
        b[k] = a[k]
    for s in b['sections']:
        s['running_sections'] = a['sections'][0].get('running_sections', [])
        if r_style(a):
            s['style'] = r_style(a)
    b.pop('per_page', None)
    kb = unshare(b)
    base = alone(kb, cb)
    weight(ctx, base)

    def run():
        produce(a, ca)
        return summary(produce(b, cb))
    ctx.see('styles_shared')
    compare(ctx, 'shared-styles', base, fork.call(run), 'after a document with the same style objects')


def r_style(a):
    return a['sections'][0].get('style')


def failure(case, ctx):
    """A document that fails half-way must not change the next ones."""
    (a, ca), (b, cb) = materials(case, ctx)
    base = alone(b, cb)
    weight(ctx, base)
    broken = unshare(a)
    broken['sections'].append({'content': [{'.': 'x', 'style': {'f': 'No such font'}}]})

    def run():
        from pdfme import build_pdf
        try:
            build_pdf(broken, io.BytesIO(), ca)
        except build.PageCap:
            raise
        except Exception:
            pass
        return summary(produce(b, cb))
    ctx.see('after_failure')
    compare(ctx, 'after-failure', base, fork.call(run), 'after a document that failed')


class Turns:
    """Runs threads one at a time, switching at hooked calls in a seeded order."""
    def __init__(self, n, seed):
        self.cond = threading.Condition()
        self.alive = set(range(n))
        self.r = random.Random(seed)
        self.turn = self.r.randrange(n)
        self.n = 0
        self.ids = {}

    def wait(self, k):
        while self.turn != k:
            self.cond.wait()

    def point(self):
        k = self.ids.get(threading.get_ident())
        if k is None:
            return
        with self.cond:
            if self.r.random() < .5:
                nxt = self.r.choice(sorted(self.alive))
                if nxt != k:
                    self.n += 1
                    self.turn = nxt
                    self.cond.notify_all()
                    self.wait(k)

    def run(self, k, fn, out):
        with self.cond:
            self.ids[threading.get_ident()] = k
            self.wait(k)
        try:
            out[k] = fork.outcome(fn)
        finally:
            with self.cond:
                self.alive.discard(k)
                self.ids.pop(threading.get_ident())
                if self.alive:
                    self.turn = self.r.choice(sorted(self.alive))
                self.cond.notify_all()


def hook(point):
    import pdfme.content
    import pdfme.page
    import pdfme.pdf
    import pdfme.table
    import pdfme.text
    for cls, name in ((pdfme.pdf.PDF, 'add_page'), (pdfme.text.PDFTextBase, 'run'), (pdfme.table.PDFTable, 'run'), (pdfme.content.PDFContent, 'run'),
                      (pdfme.page.PDFPage, 'add'), (pdfme.pdf.PDF, 'output')):
        if not hasattr(cls, name):
            continue

        def wrap(orig):
            def f(*a, **k):
                point()
                v = orig(*a, **k)
                point()
                return v
            return f
        setattr(cls, name, wrap(getattr(cls, name)))


def interleave(case, ctx):
    ms = materials(case, ctx)
    bases = [alone(d, c) for d, c in ms]
    for b in bases:
        weight(ctx, b)

    def run():
        t = Turns(len(ms), case['seed'])
        hook(t.point)
        out = {}
        ths = [threading.Thread(target=t.run, args=(k, lambda m=m: summary(produce(*m)), out)) for k, m in enumerate(ms)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        return [out[k] for k in range(len(ms))], t.n
    outs, n = fork.call(run)
    ctx.see('interleaved')
    ctx.see('switches', n)
    for b, o in zip(bases, outs):
        if not compare(ctx, 'interleaved', b, fork.result(o), 'built in turns with another document'):
            return


def threads(case, ctx):
    ms = materials(case, ctx)
    bases = [alone(d, c) for d, c in ms]
    for b in bases:
        weight(ctx, b)

    def run():
        sys.setswitchinterval(1e-5)
        out = {}

        def one(k, m):
            out[k] = fork.outcome(lambda: summary(produce(*m)))
        ths = [threading.Thread(target=one, args=(k, m)) for k, m in enumerate(ms)]
        for th in ths:
            th.start()
        for th in ths:
            th.join()
        return [out[k] for k in range(len(ms))]
    outs = fork.call(run)
    ctx.see('threads', len(ms))
    for b, o in zip(bases, outs):
        if not compare(ctx, 'threads', b, fork.result(o), 'built in parallel with other documents'):
            return


def nested(case, ctx):
    """The second document is built while the first one is being laid out, in the same thread."""
    (a, ca), (b, cb) = materials(case, ctx)
    base_a, base_b = alone(a, ca), alone(b, cb)
    weight(ctx, base_a)

    def run():
        r = random.Random(case['seed'])
        depth = [0]
        out = []
        skip = [r.choice([1, 3, 10, 40])]

        def point():
            skip[0] -= 1
            if skip[0] or depth[0]:
                return
            depth[0] = 1
            out.append(summary(produce(b, cb)))
            depth[0] = 0
        hook(point)
        return summary(produce(a, ca)), out
    got, inner = fork.call(run)
    ctx.see('nested_builds', len(inner))
    if not compare(ctx, 'nested', base_a, got, 'with another document built meanwhile'):
        return
    for s in inner:
        if not compare(ctx, 'nested', base_b, s, 'built while another document is being built'):
            return


# ---- calls of the PDF class
def calls(r, d):
    """[[pdf number, method, element number, extra]] using the elements of the document."""
    els = []
    for l in lists(d['doc']['sections'], []):
        els += [e for e in l if not isinstance(e, str) and not has(e, 'footnote')]
    pars = [k for k, e in enumerate(els) if isinstance(e, (list, dict)) and par(e)]
    boxes = [k for k, e in enumerate(els) if isinstance(e, dict) and 'content' in e]
    out = []
    for _ in range(r.choice([3, 6, 10])):
        p = r.randrange(2)
        x = r.random()
        if x < .45 and pars:
            out.append([p, 'text', r.choice(pars), {k: v for k, v in (('text_align', r.choice('lrcj')), ('indent', 12), ('list_text', '1. '), ('line_height', 1.4)) if r.random() < .3}])
        elif x < .65 and boxes:
            out.append([p, 'content', r.choice(boxes), {}])
        elif x < .85 and pars:
            out.append([p, 'table', [[r.choice(pars) for _ in range(2)] for _ in range(2)], {k: v for k, v in (
                ('style', {'cell_fill': 'yellow', 'cell_margin': 3, 'border_width': 2, 'border_color': 'red', 's': 8}),
                ('fills', [{'pos': '::2', 'color': 'blue'}]), ('borders', [{'pos': 'h0,1;:', 'width': 3, 'color': 'green', 'style': 'dotted'}]), ('widths', [1, 2]))
                if r.random() < .4}])
        elif x < .95:
            out.append([p, 'content', [r.choice(pars) for _ in range(3)] if pars else [], {'style': {'margin': 3, 's': 9}, 'cols': {'count': 2}}])
        else:
            out.append([p, 'add_page', 0, {}])
    if pars and r.random() < .5:
        out.insert(0, [r.randrange(2), 'running', [r.choice(pars)], {}])
    return {'els': els, 'ops': out, 'share_kw': r.random() < .5}


def par(e):
    return isinstance(e, list) or any(k.startswith('.') for k in e)


def perform(pdfs, els, op, fresh, kw):
    p, what, n, extra = op
    pdf = pdfs[p]
    g = (lambda k: unshare(els[k])) if fresh else (lambda k: els[k])
    extra = unshare(extra) if fresh else kw
    if what == 'text':
        pdf.text(g(n), **extra)
    elif what == 'table':
        pdf.table([[g(k) for k in row] for row in n], **extra)
    elif what == 'add_page':
        pdf.add_page()
    elif what == 'running':
        pdf.add_running_section({'content': [g(k) for k in n]}, 150, 40, 20, 10)
    elif isinstance(n, list):
        pdf.content(dict(extra, content=[g(k) for k in n]))
    else:
        pdf.content(g(n))


def api(case, ctx):
    spec = case['calls']
    if not spec['ops']:
        return
    d = case['docs'][0]
    els = docgen.materialise(spec['els'], d['images'], str(ctx.scratch), False)

    def setup(n):
        from pdfme import PDF
        out = []
        for k in range(n):
            pdf = PDF(page_size=[320, 420], margin=30)
            pdf.formats = unshare(d['doc'].get('formats', {}))
            pdf.context.update(d.get('context') or {})
            out.append(pdf)
        return out

    def go(ops, fresh, only=None):
        pdfs = setup(2)
        kws = {}
        for op in ops:
            if op[1] == 'running':
                with build.guard():
                    perform(pdfs, els, op, fresh, op[3])
        for p in pdfs:
            with build.guard():
                p.add_page()
        for n, op in enumerate(ops):
            if op[1] == 'running' or only is not None and op[0] != only:
                continue
            kw = op[3]
            if spec['share_kw'] and not fresh:
                kw = kws.setdefault(repr(op[3]), op[3])
            with build.guard():
                perform(pdfs, els, op, fresh, kw)
        return [summary(build.output(p)) for p in pdfs]

    ops = spec['ops']
    bases = [fork.call(lambda: go(ops, True, k))[k] for k in range(2)]
    for b in bases:
        weight(ctx, b)
    used = [str(op[2]) for op in ops]
    ctx.see('api_calls', len(ops))
    ctx.see('api_reused', len(used) - len(set(used)))

    def run():
        keep = unshare(els), unshare(ops)
        out = go(ops, False)
        return out, difference(keep[0], els, 'elements') or difference(keep[1], ops, 'arguments')
    got, df = fork.call(run)
    ctx.see('input_unchanged')
    for b, s in zip(bases, got):
        if not compare(ctx, 'api', b, s, 'the calls of two PDFs, using the same elements'):
            return
    if df:
        ctx.bad('api-input-changed', 'the calls change their arguments: %s', df)
