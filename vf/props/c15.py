"""C15: every table cell is drawn exactly once in its column, row order and span."""
import collections

from .. import build, model, obs, tgen, tmodel
from ..common import compare_seq
from .c11 import flatten

CASES = {'quick': 20000, 'thorough': 600000}
NEED = {'cells': 20000, 'rows': 5000, 'spans': 1000, 'page_breaks': 500, 'cells_over_breaks': 300, 'cell_images': 300, 'nested': 300,
        'spans_over_breaks': 50, 'exact_edges': 2000}
RULE = ('random tables with spans and uniquely worded and coloured cells (text, images, boxes, nested tables) over pages, boxes and successive '
        'rectangles; non-trivial with 4 or more cells')
ASSUME = ['images fit in a page', 'the extent of a cell on a page is its background']
TOL = .15


def gen(r, tier, i):
    g = tgen.Tables(r, {'spans': r.choice([0, .15, .4])})
    n, m = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 4])
    plain = r.random() < .4
    if r.random() < .03:
        n, m = r.randint(9, 30), r.randint(1, 9)
        g.o.update(colspan=m, rowspan=12)
        plain = plain or n * m > 60
    rowspans = r.random() < .5
    lmax = r.choice([2, 5, 15, 40])
    count = [0]

    def cell(i, j, rs, cs):
        st = g.margins(.2)
        st['cell_fill'] = '#%02x%02xc0' % (5 + 5 * (count[0] % 50), 128 + 5 * (count[0] // 50))
        count[0] += 1
        k = r.random()
        if r.random() < .2:
            st['s'] = r.choice([6, 8, 10])
        if k < .5 or plain:
            if r.random() < .3:
                st['text_align'] = r.choice('lrcj')
            if r.random() < .1:
                st['indent'] = 6
            n = r.choice([1, 2, lmax])
            if r.random() < .1 and not plain:
                t = ''
            else:
                t = g.lines(n) if r.random() < .4 else g.toks.words(n)
            return {'.': t if r.random() < .5 else [t], 'style': st}
        if k < .7:
            q = len(g.images)
            w = 40 + q
            g.images.append({'w': w, 'h': max(1, int(w * r.uniform(.03, .1))), 'fmt': 'jpg', 'mode': 'L', 'seed': 1})
            return {'image': 'IMG:%d' % q, 'style': st}
        if k < .85:
            b = [g.toks.words(r.choice([1, 3, 8])) for _ in range(r.choice([1, 2, 3]))]
            if r.random() < .2:
                b.append({'table': [[g.toks.word()]], 'style': {'cell_margin': 1, 'cell_fill': None}})
            d = {'content': b, 'style': st}
            if r.random() < .2 and cs > 1:
                d['cols'] = {'count': 2, 'gap': 4}
            return d
        # the style of a cell is inherited by a table in it: give it its own
        q = r.choice([1, 2])
        return {'table': [[{'.': g.toks.words(r.choice([1, 2, 4])), 'style': {'cell_fill': '#f00'}} for _ in range(q)] for _ in range(r.choice([1, 2, 4]))], 'style': st}
    t = g.table(n, m, rowspans, cell)
    st = g.margins(.4)
    if r.random() < .3:
        st['border_width'] = r.choice([0, 1, 2])
    if st:
        t['style'] = st
    if r.random() < .3:
        t['borders'] = g.borders(n, m)
    case = {'t': t, 'images': g.images, 'plain': plain}
    g.place(case, rowspans, 75)
    return case


def contents(el, out):
    flatten(el, out)
    return out


def check(case, ctx):
    data, boxes = tgen.draw(case, ctx.scratch)
    rd = build.read(data)
    grid = tmodel.Grid(case['t'])
    ctx.nontrivial = len(grid.cells) >= 4
    ctx.see('page_breaks', len(rd.pages) - 1)
    owner, exp = {}, {}
    for c in grid.cells:
        exp[c] = [(k, v) for k, v, f in contents(c.el, [])]
        for e in exp[c]:
            owner[e] = c
    # ---- what is drawn
    got = collections.defaultdict(list)         # cell -> [(page, x1, x2, low, high, key, obj)]
    sizes = {(s['w'], s['h']): k for k, s in enumerate(case['images'])}
    for pg in rd.pages:
        for w in obs.page_words(pg, stop='.'):
            c = owner.get(('w', w.text))
            if c is None:
                ctx.bad('unknown-text', 'text %r belongs to no cell', w.text)
                return
            got[c].append((pg.index, w.x1, w.x2, w.y, w.y + w.size, ('w', w.text), w))
        for i in pg.items:
            if i.kind == 'image':
                k = sizes.get((i.obj.d['Width'], i.obj.d['Height']))
                c = owner.get(('i', k))
                if c is None:
                    ctx.bad('unknown-image', 'an image belongs to no cell')
                    return
                ctx.see('cell_images')
                got[c].append((pg.index, i.x1, i.x2, i.y1, i.y2, ('i', k), i))
    for c in grid.cells:
        ctx.see('cells')
        ctx.see('spans', c.rs > 1 or c.cs > 1)
        ctx.see('nested', isinstance(c.el, dict) and ('content' in c.el or 'table' in c.el))
        a, b = exp[c], [g[5] for g in got[c]]
        if 'table' in c.el and len(c.el['table'][0]) > 1:
            a, b = sorted(a), sorted(b)
        if not compare_seq(ctx, [str(v) for k, v in a], [str(v) for k, v in b]):
            ctx.v and ctx.see('failed')
            return
    # ---- extents of the cells
    color = {}
    for c in grid.cells:
        color[tuple(round(v * 255) for v in model.color(c.el['style']['cell_fill']))] = c
    rect = {}
    for pg in rd.pages:
        for i in pg.items:
            if i.kind == 'fill' and i.y2 - i.y1 > .02:
                key = tuple(round(v * 255) for v in i.color)
                if key == (255, 0, 0):
                    continue
                c = color.get(key)
                if c is None:
                    ctx.bad('unknown-fill', 'a background with the unknown color %r', i.color)
                elif (c, pg.index) in rect:
                    ctx.bad('twice', '%r is drawn twice on page %d', c, pg.index)
                else:
                    rect[c, pg.index] = i
    if ctx.v:
        return
    at = collections.defaultdict(list)
    for c, p in rect:
        at[c].append(p)
    for c in grid.cells:
        if not at[c]:
            ctx.bad('cell-missing', '%r is not drawn', c)
            return
        if at[c] != list(range(at[c][0], at[c][-1] + 1)):
            ctx.bad('cell-gap', '%r is drawn on pages %r', c, at[c])
        ctx.see('cells_over_breaks', len(at[c]) > 1)
        ctx.see('spans_over_breaks', len(at[c]) > 1 and c.rs > 1)
    for (c, p), i in rect.items():
        x, top, w, h = boxes[p]
        X1, X2 = grid.x(c.j, x, w), grid.x(c.j + c.cs, x, w)
        if abs(i.x1 - X1) > TOL or abs(i.x2 - X2) > TOL:
            ctx.bad('column', '%r on page %d reaches from %.2f to %.2f, its columns from %.2f to %.2f', c, p, i.x1, i.x2, X1, X2)
        if i.y2 > top + TOL or i.y1 < top - h - TOL:
            ctx.bad('outside', '%r on page %d reaches from %.2f to %.2f, the box from %.2f to %.2f', c, p, i.y1, i.y2, top - h, top)
    if ctx.v:
        return
    # ---- rows
    by = collections.defaultdict(list)
    for c, p in rect:
        by[p].append(c)
    for p in sorted(by):
        tops, bottoms = {}, {}
        for c in by[p]:
            k = c.i if at[c][0] == p else -1           # continued cells start at the top of the page
            f = rect[c, p]
            if abs(tops.setdefault(k, f.y2) - f.y2) > TOL:
                ctx.bad('row-top', 'the cells of row %d on page %d have their tops at %.2f and %.2f', k, p, tops[k], f.y2)
            k = c.last if at[c][-1] == p else grid.n
            if abs(bottoms.setdefault(k, f.y1) - f.y1) > TOL:
                ctx.bad('row-bottom', 'the cells ending in row %d on page %d have their bottoms at %.2f and %.2f', k, p, bottoms[k], f.y1)
        y = boxes[p][1]
        if abs(max(tops.values()) - y) > TOL:
            ctx.bad('page-top', 'the first row on page %d starts at %.2f, the box at %.2f', p, max(tops.values()), y)
        ctx.see('rows', len(tops))
        prev = None
        for k in sorted(tops):
            if prev is not None and tops[k] > prev + TOL:
                ctx.bad('row-order', 'row %d on page %d starts above row %d', k, p, k - 1)
            prev = tops[k]
            if k >= 0 and k - 1 in bottoms and abs(bottoms[k - 1] - tops[k]) > TOL:
                ctx.bad('row-joint', 'row %d on page %d starts at %.2f but row %d ends at %.2f', k, p, tops[k], k - 1, bottoms[k - 1])
        # no overlap
        for a in by[p]:
            for b in by[p]:
                if (a.i, a.j) < (b.i, b.j):
                    f, g = rect[a, p], rect[b, p]
                    if min(f.x2, g.x2) - max(f.x1, g.x1) > TOL and min(f.y2, g.y2) - max(f.y1, g.y1) > TOL:
                        ctx.bad('overlap', '%r and %r overlap on page %d', a, b, p)
    if ctx.v:
        return
    # ---- contents lie inside the margins of their cell
    low = {}
    for c in grid.cells:
        pad = grid.pad(c)
        first = {}
        for p, x1, x2, y1, y2, key, o in got[c]:
            f = rect.get((c, p))
            if f is None:
                ctx.bad('outside', '%r of %r is drawn on page %d where the cell is not', key[1], c, p)
                break
            lo, hi = f.x1 + pad['left'], f.x2 - pad['right']
            # a word wider than its (inner) column may stick out
            room = hi - lo - c.st.get('indent', 0)
            for inner in [c.el] + c.el.get('content', []):
                if isinstance(inner, dict):
                    n = len(inner['table'][0]) if 'table' in inner else inner.get('cols', {}).get('count', 1)
                    room = min(room, (hi - lo) / n - (11 if 'table' in inner else 2 * n))
            # the rest of a span may start in another row, where the borders may be thinner
            tol = TOL if c.rs == 1 or len(rd.pages) == 1 else 2
            if x1 < lo - tol or x2 > hi + tol and x2 - x1 < room:
                ctx.bad('margin-x', '%r of %r lies between %.2f and %.2f, the cell has room from %.2f to %.2f', key[1], c, x1, x2, lo, hi)
            if y1 < f.y1 + pad['bottom'] - tol or y2 > f.y2 - pad['top'] + tol:
                ctx.bad('margin-y', '%r of %r lies between %.2f and %.2f, the cell has room from %.2f to %.2f', key[1], c, y1, y2, f.y1 + pad['bottom'], f.y2 - pad['top'])
            first.setdefault(p, (x1, x2, y2, key, o))
            low[c, p] = min(low.get((c, p), 1e9), y1)
        for p, (x1, x2, y2, key, o) in first.items():
            f = rect[c, p]
            lo, hi = f.x1 + pad['left'], f.x2 - pad['right']
            tol = TOL if c.rs == 1 or len(rd.pages) == 1 else 2
            if 'image' in c.el:
                ctx.see('exact_edges')
                if abs(x1 - lo) > tol or abs(x2 - hi) > tol or abs(f.y2 - pad['top'] - y2) > tol:
                    ctx.bad('image-place', 'the image of %r does not fill the width of its cell from its top', c)
            elif '.' in c.el:
                ctx.see('exact_edges')
                if c.st.get('text_align', 'l') == 'l' and p == at[c][0] and abs(x1 - lo - c.st.get('indent', 0)) > tol:
                    ctx.bad('edge', 'the text of %r starts at %.2f, its margin ends at %.2f', c, x1, lo)
                if f.y2 - pad['top'] - y2 > 1.4 + tol:
                    ctx.bad('top', 'the text of %r starts %.2f below its margin', c, f.y2 - pad['top'] - y2)
    # ---- a row is as high as its highest cell
    if case['plain'] and not ctx.v:
        for p in by:
            groups = collections.defaultdict(list)
            for c in by[p]:
                groups[c.last if at[c][-1] == p else None].append(c)
            for k, cs in groups.items():
                if k is None or any(c.i != k and c.rs == 1 for c in cs):
                    continue
                gap = min(low.get((c, p), 1e9) - grid.pad(c)['bottom'] - rect[c, p].y1 for c in cs)
                rows = [rect[c, p].y2 - rect[c, p].y1 for c in cs if c.rs == 1]
                if gap < 1e8 and gap > 3.5 and rows and not any((c, p) not in low for c in cs):
                    ctx.bad('row-height', 'row %d on page %d is %.2f higher than its contents', k, p, gap)
