"""C05: labels become named destinations leading to where the labelled text starts."""
import collections

from .. import build, gen as G, marks

CASES = {'quick': 12000, 'thorough': 360000}
NEED = {'labels': 15000, 'lookups': 15000, 'split_labels': 200, 'trees_over_7': 300, 'trees_over_49': 60, 'trees_over_343': 3}
RULE = ('random rich text with labels (also nested, and split over lines, columns, cells and pages) and documents with up to 1000 labels in random name order; '
        'every label is looked up by walking the name tree as a viewer does. Non-trivial with a label')
ASSUME = ['label names are unique in a document']


def gen(r, tier, i):
    k = r.random()
    if k < .7:
        m = marks.Marks(r, r.choice(['l', 'l', 'lo', 'lu']), r.choice([.2, .5, .9]))
        return marks.case(r, m)
    n = r.choice([1, 6, 7, 8, 13, 14, 15, 48, 49, 50, 56, 63, 98, 100, 200]) if k < .98 else r.choice([342, 343, 344, 400, 1000])
    toks = G.Toks(r, special=0, maxlen=4)
    m = marks.Marks(r, 'l')
    ps = [{'.': toks.word(), 'label': m.label()} for _ in range(n)]
    r.shuffle(ps)
    per = r.choice([1, 7, 30])
    paras = []
    for a in range(0, n, per):
        c = []
        for d in ps[a:a + per]:
            c += [d, ' ']
        paras.append({'content': c, 'text_align': 'l', 'line_height': 1.1, 'indent': 0})
    return {'driver': r.choice(['text', 'content', 'doc']), 'size': [300, 300], 'margin': 20, 'formats': {}, 'paras': paras, 'cols': 1, 'gap': 7}


def check(case, ctx):
    rd = build.read(marks.draw(case))
    chars, lost = marks.located(case, rd)
    first = {}
    lines = collections.defaultdict(set)
    prev = None
    for c in chars:
        for k, v in c.ids:
            if k == 'label':
                first.setdefault(v, (c, prev))
                lines[v].add((c.page, round(c.y, 1)))
        prev = c
    dests = dict(rd.dests())
    auto = sum(1 for p in case['paras'] for e in outline_parts(p) if 'label' not in e)
    ctx.see('labels', len(first))
    ctx.see('trees_over_7', len(dests) > 7)
    ctx.see('trees_over_49', len(dests) > 49)
    ctx.see('trees_over_343', len(dests) > 343)
    ctx.nontrivial = bool(first)
    known = set()
    for name, (c, prev) in first.items():
        key = marks.encode(name)
        known.add(key)
        ctx.see('split_labels', len(lines[name]) > 1)
        d = rd.lookup(key)
        ctx.see('lookups')
        if d is None:
            ctx.bad('not-found', 'label %r is drawn on page %d but looking it up in the tree finds nothing%s', name, c.page,
                    ' (it is listed)' if key in dests else '')
            continue
        pg = {p.ref: p.index for p in rd.pages}.get(d[0])
        if pg != c.page:
            ctx.bad('page', 'label %r starts on page %d, its destination is page %r', name, c.page, pg)
            continue
        x, y = d[2], d[3]
        if str(d[1]) != 'XYZ' or x is None or y is None:
            ctx.bad('form', 'label %r has the destination %r', name, d)
            continue
        same = prev is not None and prev.page == c.page and abs(prev.y - c.y) < .01
        left = prev.x2 if same and prev.x2 < c.x1 else c.x1 - 3 * c.size
        base = c.y + c.rise
        if not (left - .1 <= x <= c.x1 + .1):
            ctx.bad('x', 'label %r starts at x=%.2f (text before it ends at %.2f), its destination is x=%.2f', name, c.x1, left, x)
        if not (base + .3 * c.size <= y <= base + 1.3 * c.size):
            ctx.bad('y', 'label %r (size %g) starts at baseline %.2f, its destination is y=%.2f', name, c.size, base, y)
    extra = [k for k in dests if k not in known]
    if lost == 0 and len(extra) != auto:
        ctx.bad('undrawn', '%d destinations for labels that are not in the document: %r', len(extra) - auto, extra[:4])


def outline_parts(p):
    out = []
    marks.entries(p['content'], out)
    return [e[2] for e in out]
