"""C12: columns and boxes keep their elements inside and apart."""
import collections
import copy
import itertools

from .. import build, docgen, gen as G, obs
from . import c11

CASES = {'quick': 9000, 'thorough': 270000}
NEED = {'pieces': 20000, 'gaps_exact': 8000, 'column_tops': 5000, 'boxes': 3000, 'multi_column_boxes': 1000, 'nested_boxes': 500, 'images': 500,
        'tables': 500, 'groups': 200, 'continued_pages': 500, 'balanced_pages': 800, 'full_columns': 800}
RULE = ('random content boxes (text, lists, images, tables, groups, nested boxes up to 3 deep with 1-3 columns each, margins on all of them) laid out by '
        'content(), in documents, after other content and in explicit rectangles; every drawn piece is compared with the column model. '
        'Non-trivial with 4 or more pieces')
ASSUME = ['every word fits its column', 'standard font metrics']
EPS = .15
SIDES = ('margin_top', 'margin_bottom', 'margin_left', 'margin_right')


class Gen(c11.Gen):
    def margins(self, p=.2):
        r = self.r
        return {k: r.choice([0, 2, 6, 12, 3.3]) for k in SIDES if r.random() < p}

    def par(self, n=None):
        r = self.r
        e = {'.': self.toks.words(n or r.choice([1, 2, 4, 9, 20, 45, 90]))}
        st = {}
        if r.random() < .4:
            st['text_align'] = r.choice('lrcj')
        if r.random() < .15:
            st['line_height'] = r.choice([1, 1.4])
        if r.random() < .2:
            st['s'] = r.choice([7, 9, 13])
        if r.random() < .15:
            st['indent'] = 8
        if r.random() < .15:
            self.toks.n += 1
            st['list_text'] = 'm%d. ' % self.toks.n
        st.update(self.margins())
        if st:
            e['style'] = st
        return e

    def table(self, small=False):
        t = super().table(small)
        t['style'].update(border_width=0, cell_fill='#%02x80c0' % self.r.randrange(256))
        for k in SIDES:
            t['style'].pop(k, None)
        t['style'].update(self.margins(.15))
        return t

    def group(self, w):
        g = super().group(w)
        for n, e in enumerate(g['group']):
            st = e.get('style')
            if st and n == 0:
                st.pop('margin_top', None)
        g['style'] = dict(self.margins())
        if self.r.random() < .15:
            g['style']['shrink'] = 1
        return g

    def box(self, w, depth=0, n=None):
        b = super().box(w, depth, n)
        st = dict(b.get('style', {}), **{k: v for k, v in self.margins(.15).items() if k[7:] in ('top', 'bottom') or depth})
        if st:
            b['style'] = st
        return b


def gen_balance(r):
    t = G.Toks(r, maxlen=5)
    n = r.choice([2, 2, 3, 4])
    return {'driver': 'balance', 'size': [r.choice([360, 500]), r.choice([200, 400, 700])], 'L': r.choice([8, 10, 13]), 'n': n, 'gap': r.choice([5, 12]),
            'pre': t.words(r.choice([1, 1, 20, 60])), 'nested': r.random() < .5, 'wrap': r.random() < .2, 'end': r.random() < .7,
            'boxes': [[t.words(r.choice([3, 10, 40, 90, 150])) for _ in range(r.choice([1, 2, 4, 7]))] for _ in range(r.choice([1, 1, 2]))]}


def gen(r, tier, i):
    if i % 12 == 5:
        return gen_balance(r)
    g = Gen(r)
    w, h = r.choice([(300, 220), (300, 300), (420, 240), (500, 400), (700, 300)])
    m = r.choice([10, 20, 25.5])
    driver = r.choice(['content', 'content', 'doc', 'text+content', 'rect'])
    n = r.choice([1, 2, 4, 8, 14])
    case = {'driver': driver, 'size': [w, h], 'margin': m}
    bw = w - 2 * m
    if driver == 'rect':
        x, y = r.choice([0, 5, 31]), r.choice([0, 12, 33])
        bw = w - x - r.choice([0, 10, 25])
        case['rect'] = [x, y, bw, h - y - r.choice([0, 5, 12])]
    case['box'] = g.box(bw, 0, n)
    case['images'] = g.images
    if driver == 'text+content':
        case['before'] = g.par(r.choice([3, 20]))
        case['before'].get('style', {}).pop('list_text', None)
    return case


def draw(case, scratch):
    """-> (bytes, x, width, per page (top, bottom))"""
    from pdfme import PDF
    w, h = case['size']
    m = case['margin']
    box = build.tuples(docgen.materialise(case['box'], case['images'], scratch))
    if case['driver'] == 'doc':
        data = build.document({'style': {'page_size': [w, h], 'margin': m}, 'sections': [box]})
        return data, m, w - 2 * m, [(h - m, m)]
    tops = [(h - m, m)]
    x, bw = m, w - 2 * m
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=m)
        pdf.add_page()
        if 'before' in case:
            c11.text(pdf, case['before'])
            tops = [(h - pdf.page.y, m), (h - m, m)]
        if case['driver'] == 'rect':
            x, y, bw, bh = case['rect']
            tops = [(h - y, h - y - bh)]
            c = pdf._content(box, bw, bh, x, y)
            while not c.finished:
                pdf.add_page()
                c = pdf._content(c, bw, bh, x, y)
        else:
            pdf.content(box)
    return build.output(pdf), x, bw, tops


class Leaf:
    def __init__(self, e, style, boxes, first_of_group, group):
        self.e = e
        self.st = style
        self.boxes = boxes          # ids of the boxes around it, outermost first
        self.mt, self.mb, self.ml, self.mr = (style.get(k, 5 if k == 'margin_bottom' else 0) for k in SIDES)
        if first_of_group is not None:
            self.mt = first_of_group
        self.group = group


class Box:
    def __init__(self, e, style, boxes):
        self.e = e
        self.st = style
        self.mt = style.get('margin_top', 0)
        self.mb = style.get('margin_bottom', 5)
        c = e.get('cols', {})
        self.n = c.get('count', 1)
        self.gap = c.get('gap')
        self.boxes = boxes


def columns(boxes, x, w):
    """All column instances (path, left, width) of the innermost of nested boxes."""
    out = [((), x, w)]
    for b in boxes:
        new = []
        for path, x0, w0 in out:
            g = max(w0 / 25, 7) if b.gap is None else b.gap
            cw = (w0 - g * (b.n - 1)) / b.n
            new += [(path + (k,), x0 + k * (cw + g), cw) for k in range(b.n)]
        out = new
    return out


class Piece:
    def __init__(self, leaf, page, o):
        self.leaf = leaf
        self.page = page
        self.x1, self.x2, self.top, self.bottom = o
        self.tol = 0            # the top may be this much higher

    def add(self, o):
        self.x1 = min(self.x1, o[0])
        self.x2 = max(self.x2, o[1])
        self.bottom = min(self.bottom, o[3])

    def __repr__(self):
        e = self.leaf.e
        what = (c11.par_text(e)[:12] if not ('image' in e or 'table' in e) else str(e)[:20])
        return '<%s p%d x %.1f..%.1f y %.1f..%.1f>' % (what, self.page, self.x1, self.x2, self.top, self.bottom)


def walk(e, style, boxes, leaves, words, ctx):
    st = dict(style)
    st.update(e.get('style', {}))
    if 'content' in e:
        ctx.see('boxes')
        ctx.see('nested_boxes', bool(boxes))
        b = Box(e, st, boxes)
        ctx.see('multi_column_boxes', b.n > 1)
        for x in e['content']:
            walk(x, st, boxes + [b], leaves, words, ctx)
        return
    if 'group' in e:
        ctx.see('groups')
        for n, x in enumerate(e['group']):
            s2 = dict(st)
            s2.update(x.get('style', {}))
            add(x, s2, boxes, leaves, words, st.get('margin_top', 0) if n == 0 else None, e, ctx)
        return
    add(e, st, boxes, leaves, words, None, None, ctx)


def add(e, st, boxes, leaves, words, mt, group, ctx):
    l = Leaf(e, st, boxes, mt, group)
    leaves.append(l)
    if 'image' in e:
        ctx.see('images')
        words['i', int(e['image'][4:])] = l
    elif 'table' in e:
        ctx.see('tables')
        for row in e['table']:
            for c in row:
                for w in c.split():
                    words[w] = l
    else:
        for w in c11.par_text(e).split():
            words[w] = l


def inside(leaf, x, w, cols, o):
    """Column instances whose width (less the margins) holds the extent o."""
    return [c for c in cols if o[0] >= c[1] + leaf.ml - EPS and o[1] <= c[1] + c[2] - leaf.mr + EPS]


def balance(case, ctx):
    """The lines of a box are spread over its columns: none is more than a line longer than it has to be, and columns are full on pages the box goes on from."""
    from pdfme import PDF
    W, H = case['size']
    boxes = []
    for pars in case['boxes']:
        b = {'cols': {'count': case['n'], 'gap': case['gap']}, 'style': {'margin_bottom': 0}, 'content': list(pars)}
        if case['wrap']:
            b = {'content': [b]}
        boxes.append(b)
    with build.guard():
        pdf = PDF(page_size=(W, H), margin=20, font_size=case['L'], line_height=1)
        pdf.add_page()
        pdf.text(case['pre'])
        if case['nested']:
            pdf.content({'content': boxes + (['end'] if case['end'] else [])})
        else:
            for b in boxes:
                pdf.content(b)
    at = {}
    for o in obs.all_words(build.read(build.output(pdf))):
        at.setdefault(o.text, o)
    n, cw = case['n'], (W - 40 - case['gap'] * (case['n'] - 1)) / case['n']
    for pars in case['boxes']:
        got = [at.get(w) for p in pars for w in p.split()]
        if None in got:
            ctx.see('lost')
            return
        lines = {}
        for o in got:
            lines.setdefault(o.page, {}).setdefault(int((o.x1 - 20 + .1) / (cw + case['gap'])), set()).add(round(o.y, 1))
        last = max(lines)
        for pg, cols in lines.items():
            ctx.see('balanced_pages')
            ctx.nontrivial = True
            k, N = max(map(len, cols.values())), sum(map(len, cols.values()))
            if pg == last:
                if k > -(-N // n) + 1:
                    ctx.bad('unbalanced', '%d lines are spread over %d columns as %s', N, n, {c: len(v) for c, v in sorted(cols.items())})
            else:
                ctx.see('full_columns', n)
                for c in range(n):
                    low = min(cols.get(c, [H - 20]))
                    if low - 20 > case['L'] + 1.1:
                        ctx.bad('column-not-full', 'column %d ends at %.2f on page %d though the box goes on', c, low, pg)
        if ctx.v:
            return


def check(case, ctx):
    if case['driver'] == 'balance':
        return balance(case, ctx)
    data, X, W, tops = draw(case, ctx.scratch)
    got = collect(case, ctx, build.read(data), X, W, tops)
    if got:
        pieces, _ = got
        ctx.see('pieces', len(pieces))
        ctx.nontrivial = len(pieces) > 3
        horizontal(ctx, pieces)
        vertical(ctx, pieces, tops)


def collect(case, ctx, rd, X, W, tops):
    """The drawn pieces of every element, each with its column."""
    leaves, words = [], {}
    walk(case['box'], {}, [], leaves, words, ctx)
    sizes = {(s['w'], s['h']): k for k, s in enumerate(case['images'])}
    before = set(c11.par_text(case.get('before', '')).split())
    pieces = []
    cur = {}
    allcols = {}
    for page in rd.pages:
        top, bottom = tops[min(page.index, len(tops) - 1)]
        ctx.see('continued_pages', page.index > 0)
        ev = [(w.seq, w) for w in obs.page_words(page, stop='.')] + [(i.seq, i) for i in page.items if i.kind in ('image', 'fill')]
        ev.sort(key=lambda t: t[0])
        pending = [i for _, i in ev if getattr(i, 'kind', '') == 'fill']
        for _, o in ev:
            if getattr(o, 'kind', '') == 'fill':
                continue
            if getattr(o, 'kind', '') == 'image':
                l = words.get(('i', sizes.get((o.obj.d['Width'], o.obj.d['Height']))))
                ext = (o.x1, o.x2, o.y2, o.y1)
            else:
                if o.text in before:
                    continue
                l = words.get(o.text)
                ext = (o.x1, o.x2, o.y + o.size, o.y)
            if l is None:
                return          # crossing texts: words wider than their column
            key = tuple(id(b) for b in l.boxes)
            if key not in allcols:
                allcols[key] = columns(l.boxes, X, W)
            cols = allcols[key]
            if 'table' in l.e:
                fs = [f for f in pending if f.x1 - EPS <= ext[0] and ext[1] <= f.x2 + EPS and f.y1 - EPS <= ext[3] and ext[2] <= f.y2 + EPS]
                if not fs:
                    return      # a word wider than its cell (C15 looks at cells)
                f = fs[0]
                row = [g for g in pending if abs(g.y1 - f.y1) < .01 and abs(g.y2 - f.y2) < .01 and any(
                    c[1] - EPS <= g.x1 and g.x2 <= c[1] + c[2] + EPS and c[1] - EPS <= f.x1 and f.x2 <= c[1] + c[2] + EPS for c in cols)]
                ext = (min(g.x1 for g in row), max(g.x2 for g in row), f.y2, f.y1)
            hit = inside(l, X, W, cols, ext)
            if not hit:
                widest = max(c[2] for c in cols) - l.ml - l.mr
                if 'image' in l.e or 'table' in l.e or ext[1] - ext[0] < widest - (65 if l.st.get('list_text') or l.st.get('indent') else 0):
                    ctx.bad('outside-column', '%r (page %d, x %.2f..%.2f) is in no column of its box: %r', getattr(o, 'text', l.e), page.index, ext[0], ext[1],
                            [(round(c[1] + l.ml, 2), round(c[1] + c[2] - l.mr, 2)) for c in cols][:6])
                return
            if len(hit) > 1:
                ctx.see('ambiguous')
                return
            if ext[3] < bottom - EPS or ext[2] > top + EPS:
                ctx.bad('outside-box', '%r (page %d, y %.2f..%.2f) leaves its box %.2f..%.2f', getattr(o, 'text', l.e), page.index, ext[2], ext[3], top, bottom)
                return
            path, cx, cw = hit[0]
            p = cur.get(id(l))
            if p is None or p.page != page.index or p.path != path or ext[3] > p.bottom + .01 and 'table' not in l.e:
                p = cur[id(l)] = Piece(l, page.index, ext)
                p.path, p.cx, p.cw = path, cx, cw
                p.first = not any(q.leaf is l for q in pieces)
                p.lines = []
                pieces.append(p)
            else:
                p.add(ext)
            if 'image' in l.e:
                p.tol = 0
            elif 'table' not in l.e:
                p.tol = 1.5
                if not p.lines or abs(p.lines[-1][2] - ext[3]) > .01:
                    p.lines.append([ext[0], ext[1], ext[3]])
                else:
                    p.lines[-1][1] = ext[1]
    return pieces, leaves


def horizontal(ctx, pieces):
    for p in pieces:
        l = p.leaf
        left, right = p.cx + l.ml, p.cx + p.cw - l.mr
        if 'image' in l.e:
            full = right - left
            w = p.x2 - p.x1
            if 'min_height' not in l.st and abs(w - full) > EPS:
                ctx.bad('image-width', '%r is %.2f wide, its column %.2f', p, w, full)
            elif abs(p.x1 + p.x2 - left - right) > 2 * EPS:
                ctx.bad('image-place', '%r is not centred in its column %.2f..%.2f', p, left, right)
        elif 'table' in l.e:
            if abs(p.x1 - left) > EPS or abs(p.x2 - right) > EPS:
                ctx.bad('table-width', '%r does not span its column %.2f..%.2f', p, left, right)
        else:
            al = l.st.get('text_align', 'l')
            lt = l.st.get('list_text') if 'list_text' in l.e.get('style', {}) else None
            for n, (x1, x2, _) in enumerate(p.lines):
                if lt:
                    continue
                ind = l.st.get('indent', 0) if n == 0 and p.first else 0
                if al in 'lj' and abs(x1 - left - ind) > EPS:
                    ctx.bad('text-left', 'line %d of %r starts at %.2f, its column at %.2f', n, p, x1, left + ind)
                elif al == 'r' and abs(x2 - right) > EPS:
                    ctx.bad('text-right', 'line %d of %r ends at %.2f, its column at %.2f', n, p, x2, right)
                elif al == 'c' and abs(x1 + x2 - left - right) > 2 * EPS:
                    ctx.bad('text-centre', 'line %d of %r is not centred in %.2f..%.2f', n, p, left, right)


class Ext:
    """What a child of a box drew in one column of it."""
    def __init__(self, node):
        self.node = node
        self.top = -1e9
        self.bottom = 1e9
        self.tol = 0
        self.exact = True
        self.p = []

    def add(self, p, depth):
        if p.top > self.top:
            self.top, self.tol = p.top, p.tol
        self.bottom = min(self.bottom, p.bottom)
        self.p.append(p)
        if any(b.n > 1 for b in p.leaf.boxes[depth + 1:]):
            self.exact = False


def vertical(ctx, pieces, tops):
    # ---- the children of every box, column by column
    cols = collections.defaultdict(dict)
    for p in pieces:
        for d, b in enumerate(p.leaf.boxes):
            node = p.leaf if d == len(p.leaf.boxes) - 1 else p.leaf.boxes[d + 1]
            key = (d, id(b), p.page, p.path[:d + 1])
            c = cols[key]
            if id(node) not in c:
                c[id(node)] = Ext(node)
            c[id(node)].add(p, d)
    for (d, _, page, path), c in cols.items():
        ns = sorted(c.values(), key=lambda n: -n.top)
        if d == 0:
            ctx.see('column_tops')
            top = tops[min(page, len(tops) - 1)][0]
            n = ns[0]
            # (on the page it begins, a box may start below other content)
            if n.top > top + EPS or n.top < top - n.tol - EPS:
                ctx.bad('column-top', 'column %r of page %d begins at %.2f (%r), not at %.2f', path, page, n.top, n.p[0], top)
                return
        for a, b in zip(ns, ns[1:]):
            want = a.node.mb + b.node.mt
            gap = a.bottom - b.top
            if gap < want - EPS - 0:
                ctx.bad('too-close', '%r is %.2f below %r, the margins ask for %.2f', b.p[0], gap, a.p[-1], want)
                return
            if a.exact:
                ctx.see('gaps_exact')
                if gap > want + b.tol + EPS:
                    ctx.bad('too-far', '%r is %.2f below %r, the margins ask for %.2f', b.p[0], gap, a.p[-1], want)
                    return
