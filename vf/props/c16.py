"""C16: borders and fills of tables are drawn where and how they are specified."""
import collections

from .. import build, model, tgen, tmodel

CASES = {'quick': 30000, 'thorough': 900000}
NEED = {'edges_h': 5000, 'edges_v': 5000, 'hidden_edges': 500, 'fills': 2000, 'span_fills': 100, 'page_breaks': 300, 'split_rows': 50,
        'dashed_or_dotted': 500, 'rowspan_cells': 200, 'nested_tables': 1500}
RULE = ('random tables with spans, border and fill specifications (selectors: single, lists, ranges, negative, steps) on small and large pages; '
        'rows recovered from the text positions; non-trivial with 4 or more cells')
ASSUME = ['cells hold one-word lines of text; row heights are recovered from their baselines',
          'the border along the cut of a row or span split over pages is not compared']
TOL = .06
ANY = 'any'


def gen(r, tier, i):
    g = tgen.Tables(r, {'spans': r.choice([0, .15, .4])})
    n, m = r.choice([1, 2, 3, 5, 8]), r.choice([1, 2, 3, 4])
    if r.random() < .03:
        n, m = r.randint(9, 30), r.randint(1, 9)
        g.o.update(colspan=m, rowspan=12)
    rowspans = r.random() < .5
    lmax = r.choice([1, 3, 3, 12])

    def cell(i, j, rs, cs):
        k = g.lines(r.choice([1, 1, 2, lmax]) if rs == 1 else r.choice([1, 2, 6]))
        st = g.margins(.2)
        if r.random() < .2:
            st['cell_fill'] = g.color()
        if r.random() < .2:
            st['s'] = r.choice([6, 8, 10])
        if st:
            return {'.': k, 'style': st}
        return k if r.random() < .8 else [k]
    t = g.table(n, m, rowspans, cell)
    st = g.table_style()
    if st:
        t['style'] = st
    if r.random() < .8:
        t['borders'] = g.borders(n, m)
    if r.random() < .7:
        t['fills'] = g.fills(n, m)
    case = {'t': t}
    g.place(case, rowspans, 55, True)
    return case


def match(line, b):
    d = tmodel.dash(b)
    ld = tuple(line.dash[0])
    return (abs(line.width - b['width']) < .002 and model.same_color(tuple(line.color), b['color'])
            and len(ld) == len(d) and all(abs(x - y) < .01 for x, y in zip(ld, d)))


def check(case, ctx):
    data, boxes = tgen.draw(case, ctx.scratch)
    rd = build.read(data)
    grid = tmodel.Grid(case['t'])
    pieces, stray = tgen.drawn(rd, grid)
    if stray:
        ctx.bad('unknown-text', 'unknown text %r', [w.text for w in stray[:4]])
        return
    ctx.nontrivial = len(grid.cells) >= 4
    ctx.see('nested_tables', len(case.get('wrap', [])) > 0)
    ctx.see('page_breaks', len(rd.pages) - 1)
    ctx.see('rowspan_cells', sum(c.rs > 1 for c in grid.cells))
    rows = tgen.Rows(grid, pieces, boxes)
    ctx.see('spans_over_breaks', rows.straddle)
    if len(rd.pages) > 1 and any(all(c.rs > 1 or c.i < i for c in {grid.owner[i, j] for j in range(grid.m)}) for i in range(grid.n)):
        ctx.see('not_recoverable')      # which of the rows without a cell of their own is cut cannot be seen
        return
    for p in range(len(rd.pages)):
        page(case, ctx, grid, rows, p, rd.pages[p], boxes[p], pieces)
        if ctx.v:
            return


def page(case, ctx, grid, rows, p, pg, box, pieces):
    X = lambda j: grid.x(j, box[0], box[2])
    rs = rows.pages.get(p, [])
    fills = [i for i in pg.items if i.kind == 'fill' and abs(i.y2 - i.y1) > .02]
    lines = [i for i in pg.items if i.kind == 'line']
    thin = 0
    H = collections.defaultdict(list)      # (y, j) -> specs
    V = collections.defaultdict(list)
    for k, (i, top, bottom, cont, unfinished) in enumerate(rs):
        ctx.see('split_rows', unfinished)
        for j in range(grid.m):
            inside = 0 < i and grid.owner[i - 1, j] is grid.owner[i, j]
            H[top, j].append((i, ANY if k == 0 and inside else grid.h_drawn(i, j)))
            if k == len(rs) - 1:
                H[bottom, j].append((i + 1, ANY if unfinished or i + 1 < grid.n and grid.owner[i, j] is grid.owner[i + 1, j] else grid.h_drawn(i + 1, j)))
        if top - bottom < 5:
            thin += top - bottom
            continue
        for j in range(grid.m + 1):
            V[i, j].append((top, bottom, grid.v_drawn(i, j)))
    maxw = max([b['width'] for b in list(grid.spec_h.values()) + list(grid.spec_v.values()) + [grid.default]]) / 2 + TOL + thin
    used = collections.defaultdict(list)
    ys = {}
    merged = collections.OrderedDict()      # boundaries closer than this are one (rows of height 0)
    for (y, j), sp in sorted(H.items(), key=lambda e: (e[0][1], e[0][0])):
        for (y2, j2) in merged:
            if j2 == j and abs(y2 - y) < 4:
                merged[y2, j2] += [s for _, s in sp]
                ys[y2, j2].append(y)
                if abs(y2 - y) > TOL:
                    merged[y2, j2].append(ANY)
                    maxw = max(maxw, abs(y2 - y) + TOL + thin)
                break
        else:
            merged[y, j] = [s for _, s in sp]
            ys[y, j] = [y]

    def edge(kind, where, specs, near, cover, a, b):
        on = [l for l in lines if cover(l)]
        for l in on:
            used[id(l)].append((a, b))
        if ANY in specs or len(specs) > 1 and any(s != specs[0] for s in specs):
            return
        s = specs[0]
        ctx.see('edges_' + kind)
        if s is None:
            ctx.see('hidden_edges')
            if on:
                ctx.bad('border-stray', 'page %d: a border is drawn %s where there is none: %r', p, where, [(l.width, l.color) for l in on])
            return
        ctx.see('dashed_or_dotted', s['style'] != 'solid')
        if not on:
            ctx.bad('border-missing', 'page %d: no border %s, expected %r', p, where, s)
        elif not all(match(l, s) for l in on):
            ctx.bad('border-wrong', 'page %d: border %s is %r, expected %r', p, where, [(l.width, l.color, l.dash) for l in on], s)

    for (y, j), specs in merged.items():
        mid = (X(j) + X(j + 1)) / 2
        edge('h', 'at y=%.1f in column %d' % (y, j), specs, y,
             lambda l: abs(l.y1 - l.y2) < .01 and any(abs(l.y1 - y_) < TOL for y_ in ys[y, j]) and min(l.x1, l.x2) < mid < max(l.x1, l.x2), X(j), X(j + 1))
    for (i, j), sp in V.items():
        top, bottom, s = sp[0]
        mid = (top + bottom) / 2
        edge('v', 'left of column %d in row %d' % (j, i), [s], X(j),
             lambda l: abs(l.x1 - l.x2) < .01 and abs(l.x1 - X(j)) < TOL and min(l.y1, l.y2) < mid < max(l.y1, l.y2), bottom, top)
    for l in lines:
        horiz = abs(l.y1 - l.y2) < .01
        a, b = sorted((l.x1, l.x2) if horiz else (l.y1, l.y2))
        if b - a < 2 * maxw + 4 and not used[id(l)]:
            continue
        if not used[id(l)]:
            ctx.bad('border-stray', 'page %d: a line (%.1f,%.1f)-(%.1f,%.1f) runs along no border', p, l.x1, l.y1, l.x2, l.y2)
            continue
        lo, hi = min(u[0] for u in used[id(l)]), max(u[1] for u in used[id(l)])
        if abs(a - lo) > maxw or abs(b - hi) > maxw:
            ctx.bad('border-length', 'page %d: a border reaches from %.2f to %.2f, its edges from %.2f to %.2f', p, a, b, lo, hi)
    # ---- fills
    left = list(fills)
    for c in grid.cells:
        on = [x for x in rs if c.i <= x[0] <= c.last]
        if not on:
            continue
        top, bottom = on[0][1], on[-1][2]
        x1, x2 = X(c.j), X(c.j + c.cs)
        col = grid.color(c)
        hit = [f for f in left if abs(f.x1 - x1) < TOL and abs(f.x2 - x2) < TOL and abs(f.y1 - bottom) < TOL and abs(f.y2 - top) < TOL]
        left = [f for f in left if f not in hit]
        if col is None:
            if hit:
                ctx.bad('fill-stray', 'page %d: %r has a background %r, expected none', p, c, hit[0].color)
            continue
        ctx.see('fills')
        ctx.see('span_fills', c.rs > 1 or c.cs > 1)
        if top - bottom < .02:
            continue
        if len(hit) != 1:
            ctx.bad('fill-missing' if not hit else 'fill-twice', 'page %d: background of %r (%.1f,%.1f)-(%.1f,%.1f) is drawn %d times; backgrounds %r',
                    p, c, x1, bottom, x2, top, len(hit), [tuple(round(v, 1) for v in (f.x1, f.y1, f.x2, f.y2)) for f in left][:6])
        elif not model.same_color(tuple(hit[0].color), col):
            ctx.bad('fill-color', 'page %d: background of %r is %r, expected %r', p, c, hit[0].color, col)
    if left and not ctx.v:
        f = left[0]
        ctx.bad('fill-stray', 'page %d: a background (%.1f,%.1f)-(%.1f,%.1f) covers no cell', p, f.x1, f.y1, f.x2, f.y2)
    # backgrounds lie under text and borders
    first = min([i.seq for i in pg.items if i.kind in ('text', 'line')], default=None)
    if first is not None and fills and max(f.seq for f in fills) > first:
        ctx.bad('fill-over', 'page %d: a background is painted over text or borders', p)
