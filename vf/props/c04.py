"""C04: writing can fail, be retried and be repeated without damaging the document."""
import copy
import io
import zlib

from .. import build, docgen, gen as G, logical

CASES = {'quick': 320, 'thorough': 5000}
LEVEL = 'fault_enumeration'
NEED = {'failed_writes': 2000, 'encoder_faults': 150, 'retries_compared': 2000, 'repeated_writes': 150, 'writes_between_additions': 150}
RULE = ('random documents built through the page interface or the document interface; every write call of the destination is failed in turn '
        '(before or after part of the bytes arrived, with an OSError or an interrupt), and every stream compression; after each failure the '
        'document is written again and compared piece by piece with the same document written once; also writes between additions. '
        'Non-trivial when at least 5 failure points were enumerated or 2 writes compared')
ASSUME = ['the destination is a file-like object whose write() takes all bytes or raises']


class Boom(BaseException):
    pass


class Failing:
    """A destination whose k-th write call fails after taking `part` of its bytes."""
    def __init__(self, k, part, exc):
        self.k, self.part, self.exc = k, part, exc
        self.n = 0
        self.got = 0

    def write(self, b):
        if self.n == self.k:
            self.got += int(len(b) * self.part)
            raise self.exc
        self.n += 1
        self.got += len(b)
        return len(b)


class Counting(io.BytesIO):
    n = 0

    def write(self, b):
        self.n += 1
        return super().write(b)


def gen_ops(r, toks, n, st):
    ops = []
    for _ in range(n):
        k = r.choice(['text', 'text', 'text', 'page', 'content', 'table', 'image', 'linked', 'linked', 'outline', 'many'])
        if k == 'page':
            ops.append(['page', r.choice([None, None, [200, 300]]), r.choice([None, True])])
        elif k == 'text':
            ops.append(['text', toks.words(r.choice([1, 5, 20]))])
        elif k == 'content':
            ops.append(['content', {'content': [toks.words(r.choice([2, 9])) for _ in range(r.choice([1, 3]))], 'cols': {'count': r.choice([1, 2])}}])
        elif k == 'table':
            ops.append(['table', [[toks.word(), toks.word()] for _ in range(r.choice([1, 3]))]])
        elif k == 'image':
            if not st['images'] or r.random() < .5:
                st['images'].append({'w': 20 + len(st['images']), 'h': 10, 'fmt': 'jpg', 'mode': r.choice(['L', 'RGB']), 'seed': r.randrange(99)})
            ops.append(['image', r.randrange(len(st['images']))])
        elif k == 'linked':
            d = {'.': toks.word()}
            f = r.random()
            if f < .4 or not st['labels']:
                d['label'] = 'L%d%s' % (len(st['labels']), r.choice(['', '', '(x)', ' é']))
                st['labels'].append(d['label'])
            elif f < .7:
                d['ref'] = r.choice(st['labels'])
            else:
                d['uri'] = 'https://x.org/%d' % r.randrange(4)
            ops.append(['text', {'.': [toks.word() + ' ', d]}])
        elif k == 'many':
            n0 = len(st['labels'])
            m = r.choice([3, 9])
            st['labels'] += ['M%d' % x for x in range(n0, n0 + m)]
            ops.append(['text', {'.': [{'.': toks.word() + ' ', 'label': 'M%d' % x} for x in range(n0, n0 + m)]}])
        else:
            st['level'] = r.randint(1, st['level'] + 1)
            ops.append(['text', {'.': toks.word(), 'outline': {'level': st['level'], 'text': 'T%d' % toks.n}}])
    return ops


def gen(r, tier, i):
    if r.random() < .35:
        d = docgen.document(r, {'sections': [1]})
        c = {'kind': 'doc', 'doc': d['doc'], 'images': d['images'], 'context': d['context']}
        if len(d['doc']['sections'][0]['content']) > 4 and r.random() < .7:
            c['doc'] = dict(d['doc'], sections=[dict(d['doc']['sections'][0], content=d['doc']['sections'][0]['content'][-3:])])
        steps = 0
    else:
        toks = G.Toks(r, special=r.choice([0, .3]))
        st = {'images': [], 'labels': [], 'level': 0}
        c = {'kind': 'ops', 'steps': [[['page', None, None]] + gen_ops(r, toks, r.choice([1, 3, 6]), st)], 'level': r.choice([1, 2])}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c['steps'].append(gen_ops(r, toks, r.choice([1, 2, 4]), st))
        c['images'] = st['images']
    c['mode'] = r.choice(['enumerate', 'enumerate', 'encoder', 'repeat'])
    c['exc'] = r.choice(['os', 'os', 'kb', 'boom'])
    c['part'] = r.choice([0, 0, .5, .99])
    c['plan'] = r.randrange(1 << 30)
    return c


def apply_ops(pdf, ops, case, scratch):
    for op in ops:
        if op[0] == 'page':
            pdf.add_page(*[tuple(x) if isinstance(x, list) else x for x in op[1:]])
        elif op[0] == 'image':
            pdf.image(docgen.image_path(case['images'][op[1]], scratch), width=30)
        else:
            getattr(pdf, op[0])(copy.deepcopy(op[1]))


def start(case, scratch):
    from pdfme import PDF
    from pdfme.document import PDFDocument
    with build.guard():
        if case['kind'] == 'doc':
            d = PDFDocument(docgen.materialise(case['doc'], case['images'], scratch), dict(case['context']))
            d.run()
            return d.pdf
        pdf = PDF(page_size=(300, 200), margin=20, outlines_level=case['level'])
        apply_ops(pdf, case['steps'][0], case, scratch)
        return pdf


def write(pdf, ident=True):
    buf = Counting()
    with build.guard():
        pdf.output(buf)
    return logical.summary(build.read(buf.getvalue()), ident), buf.n


def check(case, ctx):
    import random
    rr = random.Random(case['plan'])
    # reference: the same document built and written once, at every step
    refs = []
    for n in range(len(case.get('steps', [0]))):
        pdf = start(case, ctx.scratch)
        with build.guard():
            for m in range(1, n + 1):
                apply_ops(pdf, case['steps'][m], case, ctx.scratch)
        s, calls = write(pdf, False)
        refs.append((s, calls))
    pdf = start(case, ctx.scratch)
    ident = None
    writes = 0

    def good(step, what):
        nonlocal ident, writes
        s, calls = write(pdf)
        i = s.pop('id')
        writes += 1
        d = logical.diff(refs[step][0], s)
        if d:
            ctx.bad('%s:%s' % (what, d[0]), '%s: %s', what, d[1])
            return False
        if ident is not None and i != ident:
            ctx.bad('identifiers', '%s: the file identifiers changed', what)
            return False
        ident = i
        return calls

    for step in range(len(refs)):
        if step:
            with build.guard():
                apply_ops(pdf, case['steps'][step], case, ctx.scratch)
            ctx.see('writes_between_additions')
        if case['mode'] == 'repeat':
            for _ in range(rr.choice([1, 2, 3])):
                ctx.see('repeated_writes')
                if not good(step, 'repeated write' if writes else 'write'):
                    return
        elif case['mode'] == 'enumerate':
            # the first attempt may already be the failing one
            n = refs[step][1]
            points = list(range(n))
            if n > 40:
                points = sorted(rr.sample(points, 20) + [0, 1, n - 1, n])
            for k in points:
                e = {'os': OSError(28, 'no space left'), 'kb': KeyboardInterrupt(), 'boom': Boom()}[case['exc']]
                buf = Failing(k, case['part'], e)
                ctx.see('failed_writes')
                try:
                    pdf.output(buf)
                except BaseException as x:
                    if x is not e and x.__cause__ is not e and x.__context__ is not e:
                        raise build.CodeError(x) if isinstance(x, Exception) else x
                else:
                    # a later write may use more calls than the reference did
                    if buf.n >= k + 1 or buf.n == k and buf.got > 0 or k < n:
                        if buf.n < k or k >= n:
                            continue
                        ctx.bad('failure-hidden', 'write call %d failed but output() returned normally', k)
                        return
                ctx.see('retries_compared')
                if not good(step, 'retry after failed write'):
                    return
        else:
            real = zlib.compress
            k = 0
            while k < 40:
                calls = [0]

                def compress(*a, **kw):
                    calls[0] += 1
                    if calls[0] == k + 1:
                        raise KeyboardInterrupt() if case['exc'] == 'kb' else MemoryError()
                    return real(*a, **kw)
                zlib.compress = compress
                failed = True
                try:
                    pdf.output(io.BytesIO())
                    failed = False
                except (KeyboardInterrupt, MemoryError):
                    pass
                finally:
                    zlib.compress = real
                if not failed:
                    if calls[0] > k:
                        ctx.bad('failure-hidden', 'compression %d failed but output() returned normally', k)
                        return
                    break
                ctx.see('encoder_faults')
                if not good(step, 'retry after interrupted compression'):
                    return
                k += 1
    ctx.nontrivial = writes >= 2
