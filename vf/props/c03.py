"""C03: pages appear in order with the size, orientation and margins asked for."""
from .. import build, gen as G, obs
from ..common import PAGE, compare_seq

CASES = {'quick': 16000, 'thorough': 480000}
NEED = {'pages': 30000, 'size_overrides': 2000, 'rotated': 2000, 'margin_overrides': 2000, 'flowed_pages': 1000, 'revisited': 500, 'many_pages': 50,
        'setups': 1000}
RULE = ('random sequences of page additions, setup changes, flowing texts and returns to earlier pages, in every size and margin notation; '
        'non-trivial with 3 or more pages')
ASSUME = ['the content area of every page is at least 60 by 40 points']
TOL = .02


def size(r):
    """-> (notation, (w, h))"""
    k = r.random()
    if k < .4:
        n = r.choice(sorted(PAGE))
        return n, PAGE[n]
    if k < .6:
        v = round(r.uniform(150, 900), r.choice([0, 1, 2]))
        return v, (v, v)
    w, h = round(r.uniform(150, 900), r.choice([0, 2])), round(r.uniform(150, 900), r.choice([0, 2]))
    return [w, h], (w, h)


def margin(r):
    """-> (notation, {side: value})"""
    v = [r.choice([0, 5, 10, 20.5, 30, 45]) for _ in range(r.choice([1, 2, 3, 4]))]
    full = {1: v * 4, 2: v * 2, 3: (v + [v[1]])[:4] if len(v) == 3 else v, 4: v}[len(v)]
    d = dict(zip(('top', 'right', 'bottom', 'left'), full))
    k = r.random()
    if k < .3:
        return v, d
    if k < .5:
        return r.choice([' ', ',']).join(map(str, v)), d
    if k < .7:
        return d, d
    if len(v) == 1:
        return v[0], d
    return v, d


def setup(r, p):
    """Some page settings: {key: notation} and their meaning."""
    out, mean = {}, {}
    if r.random() < p:
        out['page_size'], mean['size'] = size(r)
    if r.random() < p:
        out['rotate_page'] = mean['rotate'] = r.random() < .5
    if r.random() < p:
        out['margin'], mean['margin'] = margin(r)
    return out, mean


def gen(r, tier, i):
    toks = G.Toks(r, special=0, maxlen=4)
    init = setup(r, .7)
    ops = []
    n = r.choice([1, 3, 6, 7, 8, 14]) if r.random() < .95 else r.choice([36, 37, 50, 60])
    for _ in range(n):
        k = r.random()
        if k < .1:
            ops.append(['setup', *setup(r, .5)])
        p = r.choice([0, .3])
        ops.append(['page', *setup(r, p)])
        k = r.random()
        if k < .15:
            ops.append(['flow', toks.words(r.choice([5, 100, 400]))])
        elif k < .8:
            ops.append(['mark', toks.word()])
        if r.random() < .15:
            ops.append(['goto', r.random(), toks.word()])
    return {'init': init, 'ops': ops}


def check(case, ctx):
    from pdfme import PDF
    cur = {'size': PAGE['a4'], 'rotate': False, 'margin': {s: 56.693 for s in ('top', 'right', 'bottom', 'left')}}
    cur.update(case['init'][1])
    pages = []          # (w, h, margins)
    on = []             # words per page

    def new(over=None):
        d = dict(cur, **(over or {}))
        w, h = d['size']
        pages.append((h, w, d['margin']) if d['rotate'] else (w, h, d['margin']))
        on.append([])
        ctx.see('rotated', d['rotate'])
    flows = []
    with build.guard():
        pdf = PDF(**{k: v for k, v in case['init'][0].items()})
        for op in case['ops']:
            if op[0] == 'setup':
                pdf.setup_page(**op[1])
                cur.update(op[2])
                ctx.see('setups', bool(op[1]))
            elif op[0] == 'page':
                pdf.add_page(**op[1])
                new(op[2])
                ctx.see('size_overrides', 'size' in op[2])
                ctx.see('margin_overrides', 'margin' in op[2])
            elif op[0] == 'mark':
                pdf._text(op[1])
                on[pdf.page_index].append(op[1])
                w, h, m = pages[pdf.page_index]
                if abs(pdf.width - w) > TOL or abs(pdf.height - h) > TOL:
                    ctx.bad('current-size', 'PDF.width and height are %r x %r on a page of %r x %r', pdf.width, pdf.height, w, h)
            elif op[0] == 'flow':
                k = len(pages)
                if on[k - 1]:
                    continue
                pdf.text(op[1])
                for _ in range(len(pdf.pages) - k):
                    new()
                    ctx.see('flowed_pages')
                flows.append((k - 1, len(pages), op[1].split()))
            else:
                k = int(op[1] * len(pages))
                if any(a <= k < b for a, b, t in flows) or on[k]:
                    continue
                pdf.page_index = k
                pdf.page.go_to_beginning()
                pdf._text(op[2])
                on[k].append(op[2])
                pdf.page_index = len(pages) - 1
                ctx.see('revisited')
        if pdf.page_index != len(pages) - 1:
            ctx.bad('page-index', 'the current page is %r of %d', pdf.page_index, len(pages))
    rd = build.read(build.output(pdf))
    ctx.nontrivial = len(pages) > 2
    ctx.see('pages', len(rd.pages))
    ctx.see('many_pages', len(pages) > 36)
    if len(rd.pages) != len(pages):
        ctx.bad('page-count', '%d pages in the file, %d were added', len(rd.pages), len(pages))
        return
    flow_on = {}
    for a, b, t in flows:
        got = []
        for p in range(a, b):
            ws = obs.page_words(rd.pages[p])
            flow_on[p] = True
            if not ws:
                ctx.bad('empty-page', 'page %d was added for a text but has none', p)
            got += [w.text for w in ws if w.text not in on[p]]
        if not compare_seq(ctx, t, got):
            return
    for p, (w, h, m) in enumerate(pages):
        pg = rd.pages[p]
        mb = pg.mediabox
        if mb[0] or mb[1] or abs(mb[2] - w) > TOL or abs(mb[3] - h) > TOL:
            ctx.bad('page-size', 'page %d has MediaBox %r, expected %g x %g', p, mb, w, h)
        if pg.d.get('Rotate'):
            ctx.bad('page-rotate', 'page %d has Rotate %r', p, pg.d.get('Rotate'))
        ws = obs.page_words(pg)
        if p not in flow_on and [x.text for x in ws] != on[p]:
            ctx.bad('page-order', 'page %d shows %r, expected %r', p, [x.text for x in ws], on[p])
            return
        for n, l in enumerate(obs.lines(ws)):
            if abs(l[0].x1 - m['left']) > TOL:
                ctx.bad('margin-left', 'page %d: a line starts at x=%.2f, the margin is %g', p, l[0].x1, m['left'])
            if l[-1].x2 > w - m['right'] + .1 and len(l) > 1:
                ctx.bad('margin-right', 'page %d: a line ends at x=%.2f, the margin starts at %.2f', p, l[-1].x2, w - m['right'])
            if l[0].y < m['bottom'] - .1:
                ctx.bad('margin-bottom', 'page %d: a line lies at y=%.2f, the margin is %g', p, l[0].y, m['bottom'])
            if n == 0 and not 11 - TOL <= h - m['top'] - l[0].y <= 12.6:
                ctx.bad('margin-top', 'page %d: the first baseline lies at y=%.2f, %.2f below the top, margin %g', p, l[0].y, h - l[0].y, m['top'])
        # the page is filled before text flows on
        if p in flow_on and p + 1 in flow_on and any(a <= p and p + 1 < b for a, b, t in flows):
            last = obs.lines(ws)[-1][0].y
            if last - m['bottom'] > 13:
                ctx.bad('page-fill', 'page %d ends at y=%.2f, %.2f above the margin, although its text flows on', p, last, last - m['bottom'])
