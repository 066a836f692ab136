"""C25: a paragraph, table or box laid out over any rectangles draws everything once, and saved states can be restored."""
import collections
import copy

from .. import build, docgen, logical, obs
from ..common import compare_seq
from . import c11

CASES = {'quick': 10000, 'thorough': 300000}
NEED = {'runs': 5000, 'texts': 200, 'tables': 200, 'boxes': 200, 'saves': 1000, 'restores': 1000, 'repeated_runs': 400, 'restores_after_more': 300, 'empty_runs': 500,
        'words': 20000, 'resumed_words': 5000, 'forward_restores': 100, 'histories': 700, 'placed_words': 100000, 'other_width_words': 50000, 'placed_images': 500, 'placed_graphics': 20000}
RULE = ('paragraphs (lists, indentation, styles), tables (spans, boxes and pictures in cells) and content boxes (columns, groups, pictures, nested boxes) run over random '
        'sequences of rectangles of different widths and heights, down to nothing, mixed with saving, restoring, running again and continuing from any saved state. '
        'Everything drawn in the runs that count is compared with the content, repeated runs with the first ones, and every run keeps to its own rectangle and columns. Non-trivial with 3 runs that draw')
ASSUME = ['images and groups fit the last rectangle', 'less than 31 rectangles in a row (13 for groups and images) are too small']


def gen(r, tier, i):
    g = c11.Gen(r, {'imgh': 60})
    kind = r.choice(['text', 'text', 'table', 'table', 'box'])
    w = r.choice([150, 200, 300])
    case = {'kind': kind, 'w': w, 'hist': []}
    if kind == 'text':
        n = r.choice([5, 20, 60, 150, 250])
        case['el'] = el = []
        for _ in range(r.choice([1, 2, 4])):
            t = g.toks.words(max(1, n // 3)) + ' '
            el.append(t if r.random() < .5 else {'.': t, 'style': {k: v for k, v in (('s', r.choice([6, 9, 14])), ('b', True), ('u', True), ('bg', 'yellow'), ('f', 'Times')) if r.random() < .3}})
            if r.random() < .3:
                el.append('\n' if r.random() < .7 else '\n\n')
        case['kw'] = {k: v for k, v in (('text_align', r.choice('lrcj')), ('line_height', r.choice([1, 1.4])), ('indent', r.choice([8, 25])), ('list_text', r.choice(['1. ', '- '])),
                                        ('list_indent', 25), ('list_style', {'s': 8})) if r.random() < .4}
        if 'list_text' not in case['kw']:
            case['kw'].pop('list_indent', 0)
            case['kw'].pop('list_style', 0)
    elif kind == 'table':
        C, R = r.choice([1, 2, 3]), r.choice([1, 2, 4, 8, 14])
        rows = [[g.toks.words(r.choice([1, 2, 6, 15, 30])) for _ in range(C)] for _ in range(R)]
        for _ in range(r.choice([0, 1, 2])):
            a, b = r.randrange(R), r.randrange(C)
            x = r.random()
            if x < .3 and rows[a][b] is not None:
                rows[a][b] = {'content': [g.par(r.choice([2, 10])) for _ in range(r.choice([1, 3]))]}
                if r.random() < .3 and w / C > 140:
                    rows[a][b]['cols'] = {'count': 2, 'gap': 4}
            elif x < .5:
                rs, cs = r.choice([1, 2, 3]), r.choice([1, 2])
                if a + rs <= R and b + cs <= C and not any(rows[y][z] is None or isinstance(rows[y][z], dict) and ('rowspan' in rows[y][z])
                                                           for y in range(a, a + rs) for z in range(b, b + cs)):
                    t = rows[a][b]
                    for y in range(a, a + rs):
                        for z in range(b, b + cs):
                            rows[y][z] = None
                    rows[a][b] = {'.': t if isinstance(t, str) else g.toks.words(3), 'rowspan': rs, 'colspan': cs}
            elif x < .7 and rows[a][b] is not None and not isinstance(rows[a][b], dict):
                rows[a][b] = g.image(w / C - 12, True)
        case['el'] = rows
        case['kw'] = {k: v for k, v in (('style', {'cell_margin': r.choice([1, 4]), 'cell_fill': 'yellow', 's': 9}), ('widths', [r.choice([1, 1.5]) for _ in range(C)])) if r.random() < .4}
    else:
        case['el'] = g.box(w, 0, r.choice([2, 6, 12, 20]))
        case['kw'] = {}
    case['images'] = g.images
    small = 0
    heights = r.choice([[0, 3, 8, 14, 20, 40], [14, 14, 20, 30, 45], [14, 30, 60, 90], [30, 60, 120, 250], [0, 5, 30, 60, 100]])
    for _ in range(r.choice([3, 6, 12, 25, 40])):
        x = r.random()
        if x < .5:
            case['hist'].append(['run', r.choice([w, w, w + 30, w * 1.5]), r.choice(heights)])
        elif x < .7:
            case['hist'].append(['save'])
        elif x < .8:
            case['hist'].append(['restore', r.randrange(10)])
        elif x < .88:
            case['hist'].append(['forward', r.randrange(10), r.randrange(10)])
        else:
            case['hist'].append(['again', r.choice([w, w + 30]), r.choice(heights), r.choice([1, 1, 2, 3])])
    return case


class Run:
    """One history; every run draws in a page of its own."""
    def __init__(self, case, ctx):
        from pdfme import PDF
        self.case, self.ctx = case, ctx
        self.pdf = PDF(page_size=[700, 5000], margin=0)
        self.el = build.tuples(docgen.materialise(case['el'], case['images'], str(ctx.scratch)))
        self.obj = None
        self.done = []    # pages that count
        self.saved = []   # (state, pages that count then, finished)
        self.n = 0
        self.pairs = []
        self.rects = []
        self.limit = 40 if case['kind'] == 'text' else 30 if case['kind'] == 'table' else 12 if case['images'] or 'group' in repr(case['el']) else 20

    def finished(self):
        return self.obj is not None and self.obj.finished

    def run(self, w, h):
        pdf = self.pdf
        pdf.add_page()
        m = {'text': pdf._text, 'table': pdf._table, 'box': pdf._content}[self.case['kind']]
        with build.guard():
            if self.obj is None:
                self.obj = m(copy.deepcopy(self.el), width=w, height=h, x=20, y=20, **self.case['kw'])
            else:
                m(self.obj, width=w, height=h, x=20, y=20)
        self.n += 1
        self.rects.append((w, h))
        self.ctx.see('runs')
        return self.n - 1

    def state(self):
        with build.guard():
            return self.obj.get_state()

    def restore(self, st):
        with build.guard():
            self.obj.set_state(**st)
        self.obj.finished = False

    def go(self):
        ctx = self.ctx
        for op in self.case['hist']:
            if self.n > self.limit:
                break
            if op[0] == 'run':
                if not self.finished():
                    self.done = self.done + [self.run(*op[1:])]
            elif self.obj is None:
                continue
            elif op[0] == 'save':
                if not self.finished():
                    self.saved.append((self.state(), self.done))
                    ctx.see('saves')
            elif op[0] == 'restore':
                if self.saved:
                    st, done = self.saved[op[1] % len(self.saved)]
                    ctx.see('restores')
                    ctx.see('restores_after_more', len(self.done) > len(done))
                    self.restore(st)
                    self.done = done
            elif op[0] == 'forward':
                if len(self.saved) > 1:
                    for k in op[1:]:
                        st, self.done = self.saved[k % len(self.saved)]
                        self.restore(st)
                    ctx.see('forward_restores')
            elif op[0] == 'again' and not self.finished():
                st, done = self.state(), self.done
                ctx.see('saves')
                first = []
                for _ in range(op[3]):
                    if not self.finished():
                        first.append(self.run(op[1], op[2]))
                f1 = self.finished()
                self.restore(st)
                ctx.see('restores')
                second = []
                for _ in range(op[3]):
                    if not self.finished():
                        second.append(self.run(op[1], op[2]))
                self.pairs.append((first, second, f1, self.finished()))
                self.done = done + second
        w = self.case['w']
        k = 0
        while not self.finished():
            self.done = self.done + [self.run(w, 4000)]
            k += 1
            if k > 60:
                ctx.bad('endless', 'not finished after %d rectangles of height 4000', k)
                return False
        return True


def expected(case):
    out = []
    if case['kind'] == 'table':
        for row in case['el']:
            for c in row:
                if c is not None:
                    c11.flatten(c, out)
    elif case['kind'] == 'text':
        c11.flatten(' '.join(e if isinstance(e, str) else e['.'] for e in case['el']), out)
        if 'list_text' in case['kw']:
            out.insert(0, ('w', case['kw']['list_text'].strip(), None))
    else:
        c11.flatten(case['el'], out)
    return out


class Page:
    pass


def check(case, ctx):
    run = Run(case, ctx)
    ctx.see({'text': 'texts', 'table': 'tables', 'box': 'boxes'}[case['kind']])
    if not run.go():
        return
    ctx.see('histories')
    rd = build.read(build.output(run.pdf))
    if len(rd.pages) != run.n:
        ctx.bad('pages', '%d pages for %d runs', len(rd.pages), run.n)
        return
    for first, second, f1, f2 in run.pairs:
        ctx.see('repeated_runs')
        a = [logical.page(rd.pages[k]) for k in first]
        b = [logical.page(rd.pages[k]) for k in second]
        if a != b:
            ctx.bad('restored-run', 'after restoring the state, runs %r do not draw as runs %r did: %s', second, first, differ(a, b))
            return
        if f1 != f2:
            ctx.bad('restored-finish', 'finished was %r the first time and is %r after restoring', f1, f2)
            return
    inside(case, ctx, rd, run.rects)
    view = Page()
    view.pages = [rd.pages[k] for k in run.done]
    got = c11.observed(view, case['images'])
    exp = expected(case)
    drawing = sum(bool(p.items) for p in view.pages)
    ctx.nontrivial = drawing >= 3
    ctx.see('empty_runs', len(view.pages) - drawing)
    ctx.see('words', sum(k == 'w' for k, _, _ in got))
    first = next((n for n, p in enumerate(view.pages) if p.items), 0)
    ctx.see('resumed_words', sum(1 for k, v, o in got if k == 'w' and o.page != view.pages[first].index) if first < len(view.pages) else 0)
    gi = collections.Counter(v for k, v, _ in got if k == 'i')
    for k in range(len(case['images'])):
        used = ('IMG:%d' % k) in repr(case['el'])
        if used and gi[k] == 0:
            ctx.bad('image-lost', 'image %d is not drawn', k)
        elif gi[k] > 1:
            ctx.bad('image-duplicated', 'image %d is drawn %d times', k, gi[k])
    gw = [v for k, v, o in got if k == 'w']
    ge = [v for k, v, f in exp if k == 'w']
    if collections.Counter(gw) != collections.Counter(ge):
        compare_seq(ctx, ge, gw)
        return
    if case['kind'] == 'table':
        by_cell(case, ctx, gw)
        return
    inflow = {v for k, v, f in exp if k == 'w' and not isinstance(f, tuple)}
    box = case['el'] if case['kind'] == 'box' else {'content': []}
    skip = ('-', '1.')
    main_g = c11.untangle([w for w in gw if w in inflow and w not in skip], box)
    compare_seq(ctx, [v for k, v, f in exp if k == 'w' and not isinstance(f, tuple) and v not in skip], main_g)


def place(case):
    """Word -> (first column, column after the last one) of its cell."""
    out = {}
    for row in case['el']:
        for j, c in enumerate(row):
            if c is not None:
                ev = []
                c11.flatten(c, ev)
                k = c.get('colspan', 1) if isinstance(c, dict) else 1
                for kind, v, _ in ev:
                    if kind == 'w' and v != '-':
                        out[v] = (j, j + k)
    return out


def inside(case, ctx, rd, rects):
    """Every run keeps to its rectangle (and its columns), as wide and high as it is this time."""
    # words too wide for a column stick out; boxes have columns of their own
    boxed = case['kind'] == 'box'
    boxes = repr([c for row in case['el'] for c in row if isinstance(c, dict) and 'content' in c]) if case['kind'] == 'table' else ''
    cols, cells = [1], {}
    if case['kind'] == 'table':
        cells = place(case)
        cols = case['kw'].get('widths', [1] * len(case['el'][0]))
    top = 4980
    for k, (w, h) in enumerate(rects):
        pg = rd.pages[k]
        edge = [20 + w * sum(cols[:j]) / sum(cols) for j in range(len(cols) + 1)]
        for o in obs.page_words(pg, stop='.'):
            a, b = cells.get(o.text, (0, len(cols)))
            a, b = edge[a], edge[b]
            ctx.see('placed_words')
            ctx.see('other_width_words', k > 0 and rects[k - 1][0] != w)
            if (o.x1 < a - .1 or o.x2 > b + .1) and o.x2 - o.x1 < ((b - a) / 8 if boxed or o.text in boxes else b - a - 24):
                ctx.bad('outside-x', 'run %d: %r is at %.2f..%.2f, its column at %.2f..%.2f', k, o.text, o.x1, o.x2, a, b)
                return
            if o.y + .5 * o.size > top + .1 or o.y < top - h - .15 * o.size - .1:
                ctx.bad('outside-y', 'run %d: %r has its baseline at %.2f, the rectangle is %.2f..%.2f', k, o.text, o.y, top - h, top)
                return
        for i in pg.items:
            if i.kind == 'image':
                ctx.see('placed_images')
                if i.x < 19.9 or i.x + i.w > 20.1 + w or i.y < top - .1 - h or i.y + i.h > top + .1:
                    ctx.bad('outside-image', 'run %d: a picture is at %.2f..%.2f, %.2f..%.2f; the rectangle is 20..%.2f, %.2f..%.2f', k, i.x, i.x + i.w, i.y, i.y + i.h, 20 + w, top - h, top)
                    return
            elif i.kind in ('fill', 'line'):
                x1, x2, y1, y2 = min(i.x1, i.x2), max(i.x1, i.x2), min(i.y1, i.y2), max(i.y1, i.y2)
                ctx.see('placed_graphics')
                if x1 < 18 or x2 > 22 + w or y1 < top - 4 - h or y2 > top + 2:
                    ctx.bad('outside-' + i.kind, 'run %d: a %s is at %.2f..%.2f, %.2f..%.2f; the rectangle is 20..%.2f, %.2f..%.2f', k, i.kind, x1, x2, y1, y2, 20 + w, top - h, top)
                    return


def by_cell(case, ctx, gw):
    """The words of every cell in their order (rows are drawn in parts)."""
    pos = collections.defaultdict(list)
    for k, w in enumerate(gw):
        pos[w].append(k)
    for row in case['el']:
        for c in row:
            if c is None:
                continue
            out = []
            c11.flatten(c, out)
            ws = [v for k, v, f in out if k == 'w' and v != '-']
            at = [pos[w][0] for w in ws if len(pos[w]) == 1]
            if at != sorted(at):
                ctx.bad('order', 'the words of a cell are drawn out of order')
                return


def differ(a, b):
    for p, q in zip(a, b):
        for x, y in zip(p, q):
            if x != y:
                return '%r, before %r' % (y, x)
        if len(p) != len(q):
            return '%d items, before %d' % (len(q), len(p))
    return '%d pages, before %d' % (len(b), len(a))
