"""C07: the outline mirrors the outline entries of the document."""
from .. import build, gen as G, marks
from ..pdfread import PStr

CASES = {'quick': 14000, 'thorough': 420000}
NEED = {'entries': 10000, 'given_titles': 2000, 'drawn_titles': 2000, 'split_entries': 200, 'closed_nodes': 300, 'open_nodes': 300}
RULE = ('random rich text with outline entries of levels 1-5 (deepening one step at a time, jumping back freely), given and drawn titles, split over lines, '
        'columns, cells and pages, configured open level 1-4; tree, titles, destinations, links and counts compared. Non-trivial with 2 entries')
ASSUME = ['levels deepen one step at a time']


def gen(r, tier, i):
    m = marks.Marks(r, r.choice(['o', 'o', 'ol']), r.choice([.2, .5, .9]))
    if r.random() < .3:
        toks = G.Toks(r, special=.1, maxlen=4)
        c = {'driver': r.choice(['text', 'content', 'table', 'doc', 'cols']), 'size': [300, 300], 'margin': 20, 'formats': {}, 'cols': 2, 'gap': 7, 'paras': []}
        for _ in range(r.choice([3, 10, 30])):
            d = {'.': toks.words(r.choice([1, 3]))}
            m.density = 1
            m(r, d)
            c['paras'].append({'content': d, 'text_align': 'l', 'line_height': 1.1, 'indent': 0})
    else:
        c = marks.case(r, m)
    c['level'] = r.choice([1, 1, 2, 3, 4])
    return c


def check(case, ctx):
    rd = build.read(marks.draw(case))
    chars, lost = marks.located(case, rd)
    # ---- expected tree
    exp = []
    flat = []
    for p in case['paras']:
        ent = []
        marks.entries(p['content'], ent)
        for level, text, part in ent:
            shown = marks.title(part, case['formats'])
            if not shown.strip():
                continue
            ctx.see('entries')
            ctx.see('given_titles' if text is not None else 'drawn_titles')
            node = [text, shown, part, []]
            flat.append(node)
            at = exp
            for _ in range(level - 1):
                if not at:
                    break
                at = at[-1][3]
            at.append(node)
    ctx.nontrivial = len(flat) > 1
    o = rd.outlines()
    if o is None:
        if exp:
            ctx.bad('missing', 'the document has %d outline entries, the file has no outline', len(flat))
        return
    if not exp:
        ctx.bad('unexpected', 'the document has no outline entries, the file has an outline')
        return
    if str(rd.root.get('PageMode')) != 'UseOutlines':
        ctx.see('outline_not_shown')
    tree, total = o
    pageno = {p.ref: p.index for p in rd.pages}

    def visible(es, level):
        return sum(1 + (visible(k[3], level - 1) if level > 1 else 0) for k in es)

    def same(t, node):
        if node[0] is not None:
            return t == marks.encode(node[0])
        return b''.join(t.split()) == b''.join(marks.encode(node[1]).split()) and t.split() == marks.encode(node[1]).split() or \
            t.split() == marks.encode(node[1]).split()

    def walk(got, want, level, path):
        if len(got) != len(want):
            ctx.bad('structure', 'entry %r has %d children, expected %d: %r, expected %r', path, len(got), len(want),
                    [g[0] for g in got][:6], [w[0] or w[1] for w in want][:6])
            return
        for (t, d, kids, count), w in zip(got, want):
            if not same(t, w):
                ctx.bad('title', 'entry %r under %r, expected %r', t, path, w[0] if w[0] is not None else w[1])
                return
            n = visible(w[3], level - 1) if w[3] else 0
            if w[3]:
                ctx.see('open_nodes' if level > 1 else 'closed_nodes')
                if level > 1 and count != n:
                    ctx.bad('count', 'open entry %r has Count %r, expected %d', t, count, n)
                if level <= 1 and (count is None or count >= 0):
                    ctx.bad('count', 'entry %r beyond the configured level has Count %r: it is shown open', t, count)
                elif level <= 1 and count != -len(w[3]):
                    ctx.bad('count', 'closed entry %r has Count %r, expected %d', t, count, -len(w[3]))
            elif count:
                ctx.bad('count', 'entry %r without children has Count %r', t, count)
            v = rd.lookup(bytes(d)) if isinstance(d, PStr) else d
            if not isinstance(v, list):
                ctx.bad('dead', 'entry %r leads to %r, which is no destination', t, d)
            elif lost == 0:
                position(v, w, t)
            walk(kids, w[3], level - 1, t)

    def position(v, w, t):
        st = where.get(id(w[2]))
        if st is None:
            return
        c, prev, n = st
        same = prev is not None and prev.page == c.page and abs(prev.y - c.y) < .01 and prev.x2 < c.x1 + .1
        left = prev.x2 if same else c.x1 - 3 * c.size
        ctx.see('split_entries', n > 1)
        if pageno.get(v[0]) != c.page:
            ctx.bad('page', 'entry %r starts on page %d and leads to page %r', t, c.page, pageno.get(v[0]))
        elif not (c.y + c.rise + .3 * c.size <= v[3] <= c.y + c.rise + 1.3 * c.size and left - .1 <= v[2] <= c.x1 + .1):
            ctx.bad('position', 'entry %r starts at %.2f,%.2f (size %g) and leads to %r', t, c.x1, c.y, c.size, v[2:4])

    where = {}
    ids = {}
    for n, node in enumerate(flat):
        ids[id(node[2])] = n
    # mark each part so that its characters can be told
    import copy
    marked = {'paras': [], 'formats': case['formats']}

    def tag(x):
        if isinstance(x, list):
            return [tag(e) for e in x]
        if isinstance(x, dict):
            y = {k: tag(v) if k.startswith('.') else v for k, v in x.items()}
            if id(x) in ids:
                y['label'] = 'N%d' % ids[id(x)]
            else:
                y.pop('label', None)
            return y
        return x
    for p in case['paras']:
        marked['paras'].append(dict(p, content=tag(p['content'])))
    cs, _ = marks.located(marked, rd)
    starts = {}
    lines = {}
    prev = None
    for c in cs:
        for k, v in c.ids:
            if k == 'label':
                starts.setdefault(v, (c, prev))
                lines.setdefault(v, set()).add((c.page, round(c.y, 1)))
        prev = c
    for n, node in enumerate(flat):
        if 'N%d' % n in starts:
            where[id(node[2])] = (*starts['N%d' % n], len(lines['N%d' % n]))
    walk(tree, exp, case['level'], None)
    if total != visible(exp, case['level']):
        ctx.bad('count', 'the outline has Count %r, %d entries are visible', total, visible(exp, case['level']))
