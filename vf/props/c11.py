"""C11: every element of a content box is drawn exactly once and in order."""
import collections
import copy

from .. import build, docgen, gen as G, model, obs
from ..common import compare_seq

CASES = {'quick': 8000, 'thorough': 240000}
NEED = {'words': 20000, 'images': 500, 'groups': 300, 'tables': 300, 'nested_boxes': 500, 'multi_column_boxes': 500, 'page_breaks': 500, 'fills': 300}
RULE = ('random content boxes (paragraphs, lists, images, tables, groups, nested boxes up to 4 deep with 1-3 columns each) drawn with content(), '
        'in documents and in table cells on small pages; non-trivial with 3 or more elements drawn')
ASSUME = ['images and groups fit in their column']


class Gen:
    def __init__(self, r, o=None):
        self.r = r
        self.o = dict({'maxcols': 3, 'depth': 3, 'kinds': 'ppppitgb'}, **(o or {}))
        self.toks = G.Toks(r, special=0, maxlen=4)
        self.images = []

    def par(self, n=None):
        r = self.r
        if n != 0 and self.o.get('numbers') and r.random() < .03:
            self.toks.n += 1
            return 7000 + self.toks.n
        n = n or r.choice([1, 2, 4, 9, 20, 45, 90])
        ws = self.toks.words(n)
        k = r.random()
        if k < .3:
            return ws
        st = {}
        if r.random() < .3:
            st['text_align'] = r.choice('lrcj')
        if r.random() < .15:
            st['line_height'] = r.choice([1, 1.4])
        if r.random() < .2:
            st['s'] = r.choice([7, 9, 13])
        if r.random() < .15:
            st['indent'] = 8
        if r.random() < .15:
            st['list_text'] = '- '
        st.update(self.margins())
        half = ws.find(' ', len(ws) // 2)
        if k < .6 and half > 0:
            e = {'.': [ws[:half], {'.b': ws[half:]}]}
        else:
            e = {'.': ws}
        if st:
            e['style'] = st
        return e

    def margins(self, p=.15):
        r = self.r
        return {k: r.choice([0, 2, 6, 12]) for k in ('margin_top', 'margin_bottom', 'margin_left', 'margin_right') if r.random() < p}

    def image(self, w, group=False):
        r = self.r
        k = len(self.images)
        # unique pixel sizes identify the picture
        wpx = 40 + k
        maxr = min(.9, self.o.get('imgh', 90) / (3 if group else 1) / w)
        self.images.append({'w': wpx, 'h': max(2, int(wpx * r.uniform(.1, maxr))), 'fmt': 'jpg', 'mode': 'L', 'seed': 1})
        e = {'image': 'IMG:%d' % k}
        st = {}
        if group:
            if r.random() < .6:
                st['min_height'] = r.choice([8, 15])
        else:
            st = self.margins()
            if r.random() < .5:
                st['image_place'] = r.choice(['flow', 'normal'])
            if r.random() < .3:
                st['min_height'] = r.choice([10, 25])
        if st:
            e['style'] = st
        return e

    def table(self, small=False):
        r = self.r
        C = r.choice([1, 2])
        R = 1 if small else r.choice([1, 2, 4, 8])
        t = {'table': [[self.toks.words(r.choice([1, 1, 2, 5 if not small else 1])) for _ in range(C)] for _ in range(R)]}
        st = {'cell_margin': r.choice([1, 3])}
        if r.random() < .5:
            st['cell_fill'] = '#%02x80c0' % r.randrange(256)
        if not small:
            st.update(self.margins())
        t['style'] = st
        return t

    def group(self, w):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            if k < .6:
                out.append(self.par(r.choice([1, 2, 4])))
            elif k < .8:
                out.append(self.image(w, True))
            else:
                out.append(self.table(True))
        for e in out:
            if isinstance(e, dict) and 'style' in e:
                e['style'].pop('line_height', None)
        g = {'group': out}
        if r.random() < .2:
            g['style'] = r.choice([{'shrink': 1}, {'margin_top': 4}, {'c': 'blue'}])
        return g

    def element(self, w, depth):
        r = self.r
        k = r.choice(self.o['kinds'])
        if k == 'i':
            return self.image(w)
        if k == 't' and w > 90:
            return self.table()
        if k == 'g':
            return self.group(w)
        if k == 'b' and depth < self.o['depth']:
            return self.box(w, depth + 1)
        return self.par()

    def box(self, w, depth=0, n=None):
        r = self.r
        cols = r.choice([1, 1, 2, 2, 3])
        gap = r.choice([None, 2, 5, 14])
        while cols > 1 and (w - 15 * (cols - 1)) / cols < 75 + 12 * depth:
            cols -= 1
        g = max(w / 25, 7) if gap is None else gap
        cw = (w - g * (cols - 1)) / cols
        b = {'content': [self.element(cw, depth) for _ in range(n or r.choice([1, 2, 2, 3, 5]))]}
        if cols > 1 or r.random() < .2:
            b['cols'] = {'count': cols}
            if gap is not None:
                b['cols']['gap'] = gap
        if depth and r.random() < .2:
            b['style'] = r.choice([{'margin_top': 6}, {'margin_bottom': 12}, {'s': 9}, {'text_align': 'j'}])
        return b


def gen(r, tier, i):
    g = Gen(r, {'numbers': True})
    w, h = r.choice([(300, 200), (300, 300), (420, 220), (500, 400)])
    m = r.choice([10, 20])
    driver = r.choice(['content', 'content', 'doc', 'text+content', 'cell'])
    n = r.choice([1, 2, 4, 8, 14])
    bw = w - 2 * m - (12 if driver == 'cell' else 0)
    case = {'driver': driver, 'size': [w, h], 'margin': m, 'box': g.box(bw, 0, n), 'images': g.images}
    if driver == 'text+content':
        case['before'] = g.par(r.choice([3, 20, 60]))
        case['after'] = g.par(3)
    return case


def text(pdf, e):
    e = copy.deepcopy(e) if not isinstance(e, int) else str(e)
    st = e.get('style', {}) if isinstance(e, dict) else {}
    pdf.text(e, **{k: st[k] for k in ('text_align', 'line_height', 'indent', 'list_text') if k in st})


def draw(case, scratch):
    from pdfme import PDF
    w, h = case['size']
    m = case['margin']
    if case['driver'] == 'doc':
        sec = dict(case['box'])
        doc = docgen.materialise({'style': {'page_size': [w, h], 'margin': m}, 'sections': [sec]}, case['images'], scratch)
        return build.document(doc)
    box = build.tuples(docgen.materialise(case['box'], case['images'], scratch))
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=m)
        pdf.add_page()
        if 'before' in case:
            text(pdf, case['before'])
        if case['driver'] == 'cell':
            pdf.table([[box]])
        else:
            pdf.content(box)
        if 'after' in case:
            if pdf.page.height - pdf.page.margin_bottom - pdf.page.y < 60:
                pdf.add_page()
            text(pdf, case['after'])
    return build.output(pdf)


def par_text(e):
    if isinstance(e, (str, int, float)):
        return str(e)
    if isinstance(e, (list, tuple)):
        return ' '.join(par_text(x) for x in e)
    out = ''
    for k, v in e.items():
        if k.startswith('.'):
            out = par_text(v)
    lt = e.get('style', {}).get('list_text') if isinstance(e.get('style'), dict) else None
    return (lt or '') + out


def flatten(e, out, float_=None):
    """Expected drawing sequence: ('w', word, group) / ('i', image index, group|'flow')."""
    if not isinstance(e, dict):
        out.extend(('w', x, float_) for x in par_text(e).split())
    elif 'image' in e:
        st = e.get('style', {})
        out.append(('i', int(e['image'][4:]), float_ or (None if st.get('image_place') == 'normal' else 'flow')))
    elif 'table' in e:
        for row in e['table']:
            for c in row:
                flatten(c, out, float_)
    elif 'group' in e:
        g = float_ or ('g', id(e))
        for x in e['group']:
            flatten(x, out, g)
    elif 'content' in e:
        for x in e['content']:
            flatten(x, out, float_)
    else:
        out.extend(('w', x, float_) for x in par_text(e).split())


def observed(rd, images):
    """Painted words and pictures in drawing order."""
    sizes = {(s['w'], s['h']): k for k, s in enumerate(images)}
    out = []
    for p in rd.pages:
        ev = [(w.seq, 'w', w.text, w) for w in obs.page_words(p, stop='.')]
        ev += [(i.seq, 'i', sizes.get((i.obj.d['Width'], i.obj.d['Height'])), i) for i in p.items if i.kind == 'image']
        for it in ev:
            if it[1] == 'i':
                it[3].page = p.index
        out.extend(sorted(ev, key=lambda e: e[:2]))
    return [e[1:] for e in out]


def count(box, ctx, depth=0):
    for e in box['content']:
        if isinstance(e, dict):
            ctx.see('images', 'image' in e)
            ctx.see('tables', 'table' in e)
            ctx.see('groups', 'group' in e)
            if 'content' in e:
                ctx.see('nested_boxes')
                count(e, ctx, depth + 1)
    ctx.see('multi_column_boxes', box.get('cols', {}).get('count', 1) > 1)


def tables_split(e):
    """Does the box hold a table whose rows may be interleaved over a page break?"""
    if not isinstance(e, dict):
        return False
    if 'table' in e:
        return any(len(row) > 1 for row in e['table'])
    return any(tables_split(x) for k in ('content', 'group') for x in e.get(k, []))


def cells_of(e, out):
    if isinstance(e, dict):
        if 'table' in e:
            for row in e['table']:
                out.append([par_text(c).split() for c in row])
        for k in ('content', 'group'):
            for x in e.get(k, []):
                cells_of(x, out)


def untangle(words, box):
    """A table row split over a break draws the rest of its cells cell by cell:
    put the words of each row back in cell order (their order within a cell is kept)."""
    rows = []
    cells_of(box, rows)
    where = {}
    for n, row in enumerate(rows):
        if len(row) > 1:
            for k, c in enumerate(row):
                for w in c:
                    where[w] = (n, k)
    out = []
    i = 0
    while i < len(words):
        if words[i] in where:
            n = where[words[i]][0]
            j = i
            while j < len(words) and words[j] in where and where[words[j]][0] == n:
                j += 1
            out.extend(sorted(words[i:j], key=lambda w: where[w][1]))
            i = j
        else:
            out.append(words[i])
            i += 1
    return out


def check(case, ctx):
    data = draw(case, ctx.scratch)
    rd = build.read(data)
    exp = []
    if 'before' in case:
        flatten(case['before'], exp)
    flatten(case['box'], exp)
    if 'after' in case:
        flatten(case['after'], exp)
    got = observed(rd, case['images'])
    count(case['box'], ctx)
    ctx.see('words', sum(k == 'w' for k, _, _ in got))
    ctx.see('page_breaks', len(rd.pages) - 1)
    ctx.nontrivial = len(exp) > 3
    # ---- pictures exactly once
    gi = collections.Counter(v for k, v, _ in got if k == 'i')
    for k in range(len(case['images'])):
        if gi[k] == 0:
            ctx.bad('image-lost', 'image %d is not drawn', k)
        elif gi[k] > 1:
            ctx.bad('image-duplicated', 'image %d is drawn %d times', k, gi[k])
    if None in gi:
        ctx.bad('image-unknown', 'an unknown image is drawn')
    # ---- words of the main flow, in order
    inflow = {v for k, v, f in exp if k == 'w' and f is None}
    groups = collections.OrderedDict()
    for k, v, f in exp:
        if isinstance(f, tuple):
            groups.setdefault(f, []).append((k, v))
    gw = [v for k, v, o in got if k == 'w']
    ge = [v for k, v, f in exp if k == 'w']
    lw, le = collections.Counter(gw), collections.Counter(ge)
    if lw != le:
        compare_seq(ctx, ge, gw)
        return
    main_g = untangle([w for w in gw if w in inflow and w != '-'], case['box'])
    main_e = [v for k, v, f in exp if k == 'w' and f is None]
    # words repeat only as list marks
    compare_seq(ctx, [w for w in main_e if w != '-'], main_g)
    # ---- pictures that may not be overtaken, relative to the words around them
    fixed = {v for k, v, f in exp if k == 'i' and f is None}
    if fixed and not tables_split(case['box']):
        a = [(k, v) for k, v, f in exp if f is None and v != '-']
        b = [(k, v) for k, v, o in got if v != '-' and (k == 'w' and v in inflow or k == 'i' and v in fixed)]
        if a != b and not ctx.v:
            n = next(n for n, (x, y) in enumerate(zip(a, b)) if x != y)
            ctx.bad('order', 'drawn in the wrong order: after %r expected %r, drawn %r', a[max(0, n - 2):n], a[n:n + 2], b[n:n + 2])
    # ---- groups in one piece and in order
    pos = {}
    for n, (k, v, o) in enumerate(got):
        if v != '-':
            pos[k, v] = n
    for g, members in groups.items():
        ps = [pos[m] for m in members if m[1] != '-' and m in pos]
        if ps != sorted(ps):
            ctx.bad('group-order', 'group drawn out of order: %r', [m for m in members][:6])
    # ---- reading direction: consecutive words never go back up without going right
    prev = None
    main = set(main_e)
    if not tables_split(case['box']):
        for k, v, o in got:
            if k != 'w' or v not in main or v == '-':
                continue
            if prev is not None and (o.page < prev.page or o.page == prev.page and o.y > prev.y + .01 and o.x1 <= prev.x1 - .01 or
                                     o.page == prev.page and abs(o.y - prev.y) < .01 and o.x1 < prev.x2 - .01):
                ctx.bad('placement', '%r (page %d, %.1f,%.1f) is drawn before %r (page %d, %.1f,%.1f)', o.text, o.page, o.x1, o.y, prev.text, prev.page, prev.x1, prev.y)
                break
            prev = o
    # ---- fills of table cells: one for each cell piece on each page
    for p in rd.pages:
        fl = collections.Counter((round(i.x1, 1), round(i.y1, 1), round(i.x2, 1), round(i.y2, 1)) for i in p.items if i.kind == 'fill')
        ctx.see('fills', len(fl))
        for k, n in fl.items():
            if n > 1:
                ctx.bad('fill-duplicated', 'the cell background %r on page %d is drawn %d times', k, p.index, n)
        ws = [(w.x1, w.y) for w in obs.page_words(p, stop='.')]
        for x1, y1, x2, y2 in fl:
            # some cell of the row has text (the others may be finished already)
            row = [(a, c) for a, b, c, d in fl if b == y1 and d == y2]
            if y2 - y1 > 8 and not any(x1 - .1 <= x <= x2 + .1 and y1 - .1 <= y <= y2 + .1 for x, y in ws for x1, x2 in row):
                ctx.bad('fill-stray', 'the cell background %r on page %d has no cell text', (x1, y1, x2, y2), p.index)
                break
