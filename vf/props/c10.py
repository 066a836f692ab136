"""C10: every character is drawn with the style the cascade gives it."""
import collections
import copy
import io

from .. import build, gen as G, metrics, model, obs

CASES = {'quick': 12000, 'thorough': 360000}
NEED = {'chars': 300000, 'styled_chars': 100000, 'underlined_chars': 20000, 'background_chars': 10000, 'list_marks': 500, 'boxes': 500, 'tables': 300, 'groups': 200,
        'nested_tables': 50, 'named_styles': 1000}
RULE = ('random nestings of styled parts (style keys, style dictionaries, named formats) in paragraphs, lists, boxes, groups, tables, sections and the document, '
        'every word unique; the graphics state of each drawn character, each underline and each background is compared with an independent cascade. '
        'Non-trivial with 5 or more characters of at least 2 styles')
ASSUME = ['standard fonts, Latin-1 text', 'colours of 1 or 3 components']
DEF = {'f': 'Helvetica', 's': 11, 'c': .1}


class Gen:
    def __init__(self, r):
        self.r = r
        self.toks = G.Toks(r, special=r.choice([0, .1]), maxlen=r.choice([3, 8]))
        self.formats = G.formats(r, {'sizes': [6, 9, 11, 13]}, 4)
        self.fams = ['Helvetica', 'Times', 'Courier'] + r.choice([[], [], ['Symbol', 'ZapfDingbats']])
        self.o = {'sizes': [6, 7.5, 9, 10, 12, 16], 'families': self.fams, 'formats': self.formats, 'depth': r.choice([1, 2, 3, 4]), 'nl': r.choice([0, .1])}
        self.named = 0

    def style(self, p=.5):
        r = self.r
        if r.random() >= p:
            return None
        if r.random() < .4:
            return r.choice(sorted(self.formats))
        return G.style_dict(r, {'sizes': [6, 8, 10, 13], 'families': self.fams})

    def par(self, n=None):
        r = self.r
        c = G.par(r, self.toks, n or r.choice([1, 3, 8, 20, 40]), self.o)
        if not isinstance(c, dict) and r.random() < .6:
            c = {'.': c}
        if isinstance(c, dict) and not isinstance(c.get('style'), str):
            st = {}
            if r.random() < .4:
                st['text_align'] = r.choice('lrcj')
            if r.random() < .2:
                st['line_height'] = r.choice([1, 1.4])
            if r.random() < .3:
                self.toks.n += 1
                st['list_text'] = '%s%d. ' % (r.choice(['k', '(', '-']), self.toks.n)
                k = r.random()
                if k < .5:
                    ls = self.style(1)
                    if isinstance(ls, str):
                        st['list_style'] = ls
                    else:
                        ls.pop('bg', None)
                        ls.pop('u', None)
                        st['list_style'] = ls
            if st:
                c['style'] = dict(c.get('style', {}), **st)
        return c

    def table(self, depth=0):
        r = self.r
        rows = []
        C = r.choice([1, 2])
        for _ in range(r.choice([1, 2, 3])):
            rows.append([self.cell(depth) for _ in range(C)])
        t = {'table': rows}
        st = self.style(.6)
        t['style'] = st if isinstance(st, str) else dict(st or {}, border_width=0, cell_margin=2)
        return t

    def cell(self, depth):
        r = self.r
        k = r.random()
        if k < .15 and depth < 2:
            return self.box(depth + 1, 2)
        if k < .25 and depth < 1:
            return self.table(depth + 1)
        return self.par(r.choice([1, 3, 8]))

    def group(self):
        g = {'group': [self.par(r2) for r2 in [self.r.choice([1, 2])] * 2]}
        st = self.style()
        if st is not None:
            g['style'] = st
        return g

    def box(self, depth=0, n=None):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 2, 4])):
            k = r.random()
            if k < .15 and depth < 3:
                out.append(self.box(depth + 1))
            elif k < .3 and depth < 2:
                out.append(self.table(depth + 1))
            elif k < .4:
                out.append(self.group())
            else:
                out.append(self.par())
        b = {'content': out}
        st = self.style()
        if st is not None:
            b['style'] = st
        if r.random() < .3:
            b['cols'] = {'count': 2}
        return b


def gen(r, tier, i):
    g = Gen(r)
    drv = r.choice(['text', 'text', 'content', 'content', 'table', 'doc', 'doc'])
    case = {'driver': drv, 'size': r.choice([[500, 300], [600, 500], [800, 800]]), 'formats': g.formats}
    for f in g.formats.values():
        f['border_width'] = 0
    base = {}
    if r.random() < .6:
        for k, vals in (('f', ['Times', 'Courier']), ('s', [8, 10, 13]), ('c', ['#123456', 'navy', [.2, .3, .4], .5])):
            if r.random() < .5:
                base[k] = r.choice(vals)
    case['base'] = base
    if drv == 'text':
        case['tree'] = [g.par() for _ in range(r.choice([1, 3]))]
    elif drv == 'table':
        case['tree'] = g.table()
    elif drv == 'content':
        case['tree'] = g.box(0, r.choice([1, 3, 6]))
    else:
        doc = {}
        if r.random() < .5:
            doc['b'] = True
        if r.random() < .3:
            doc['u'] = True
        case['doc'] = doc
        case['tree'] = [dict(g.box(0, r.choice([1, 3])), **({'style': g.style(1)})) for _ in range(r.choice([1, 2, 3]))]
        for s in case['tree']:
            s.pop('cols', None)
        case['run'] = [{'content': [g.par(2)]} for _ in range(r.choice([0, 1]))]
        for s in case['run']:
            st = g.style()
            if st is not None:
                s['style'] = st
    return case


STYLE_ARGS = {'f': 'font_family', 's': 'font_size', 'c': 'font_color'}


def draw(case):
    from pdfme import PDF, build_pdf
    w, h = case['size']
    tree = build.tuples(copy.deepcopy(case['tree']))
    if case['driver'] == 'doc':
        doc = {'style': dict(case['base'], **case['doc'], page_size=[w, h], margin=40), 'formats': copy.deepcopy(case['formats']), 'sections': tree}
        doc['running_sections'] = {'r%d' % k: dict(copy.deepcopy(s), height='top', x='left') for k, s in enumerate(case['run'])}
        for s in tree:
            s['running_sections'] = sorted(doc['running_sections'])
        buf = io.BytesIO()
        with build.guard():
            build_pdf(doc, buf)
        return buf.getvalue()
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=20, **{STYLE_ARGS[k]: v for k, v in case['base'].items()})
        pdf.formats = copy.deepcopy(case['formats'])
        pdf.add_page()
        if case['driver'] == 'text':
            for p in tree:
                kw = {}
                if isinstance(p, dict) and isinstance(p.get('style'), dict):
                    kw = {k: p['style'].pop(k) for k in ('text_align', 'line_height', 'list_text', 'list_style') if k in p['style']}
                pdf.text(p, **kw)
        elif case['driver'] == 'table':
            pdf.table(tree['table'], style=tree['style'])
        else:
            pdf.content(tree)
    return build.output(pdf)


class Expect:
    def __init__(self, case, ctx):
        self.case = case
        self.ctx = ctx
        self.formats = case['formats']
        self.words = []         # (Word)

    def par(self, e, base):
        st = dict(base)
        if isinstance(e, dict) and isinstance(e.get('style'), str):
            self.ctx.see('named_styles')
        rs = model.runs(e, st, self.formats)
        ws = model.words(rs)
        es = model.resolve(e.get('style'), self.formats) if isinstance(e, dict) else {}
        lt = es.get('list_text')
        if lt and ws:
            first = rs[0][1] if rs else st
            for t, s, _ in rs:
                if t:
                    first = s
                    break
            ls = dict(first)
            ls.update(model.resolve(es.get('list_style'), self.formats))
            w = model.Word(1)
            w.chars = [(c, ls, ('mark',)) for c in lt.strip()]
            self.words.append(w.done())
            self.ctx.see('list_marks')
        self.words.extend(ws)

    def node(self, e, base):
        if isinstance(e, dict) and ('content' in e or 'table' in e or 'group' in e):
            st = dict(base)
            st.update(model.resolve(e.get('style'), self.formats))
            if 'content' in e:
                self.ctx.see('boxes')
                for x in e['content']:
                    self.node(x, st)
            elif 'group' in e:
                self.ctx.see('groups')
                for x in e['group']:
                    self.node(x, st)
            else:
                self.ctx.see('tables')
                for row in e['table']:
                    for c in row:
                        if isinstance(c, dict) and 'table' in c:
                            self.ctx.see('nested_tables')
                        self.node(c, st)
        else:
            self.par(e, base)


def expected(case, ctx):
    base = dict(model.TEXT_DEFAULTS)
    base.update(DEF)
    base.update(case['base'])
    x = Expect(case, ctx)
    if case['driver'] == 'text':
        for p in case['tree']:
            x.par(p, base)
    elif case['driver'] == 'doc':
        for s in case['tree']:
            st = dict(base)
            st.update(case['doc'])
            x.node(s, st)
    else:
        x.node(case['tree'], base)
    body = x.words
    if case['driver'] == 'doc':
        x.words = []
        for s in case['run']:
            x.node(s, base)
        return body, x.words
    return body, []


def near(a, b, t=.02):
    return abs(a - b) <= t


def check(case, ctx):
    body, run = expected(case, ctx)
    data = draw(case)
    rd = build.read(data)
    seen = collections.defaultdict(list)
    for w in obs.all_words(rd):
        seen[w.text].append(w)
    styles = set()
    lost = 0
    marked = []         # (char, x, width, item, style, page)
    for w, many in [(w, False) for w in body] + [(w, True) for w in run]:
        got = seen.pop(w.text, [])
        if not got or not many and len(got) > 1:
            lost += 1
            continue
        for o in got:
            for (ch, st, tag), (c2, x, wd, it) in zip(w.chars, o.chars):
                ctx.see('chars')
                styles.add(id(st))
                if any(st.get(k) for k in 'biu') or st['s'] != 11:
                    ctx.see('styled_chars')
                want = metrics.base_font(st['f'], st.get('b'), st.get('i'))
                if it.base != want:
                    ctx.bad('font', '%r of %r is drawn in %s, expected %s', ch, w.text, it.base, want)
                if not obs.encoding_ok(it.font):
                    ctx.bad('encoding', '%s is used with the encoding %r', it.base, it.font.encoding)
                if not near(it.size, st['s'], .002):
                    ctx.bad('size', '%r of %r is drawn with size %r, expected %r', ch, w.text, it.size, st['s'])
                if not model.same_color(it.color, st['c']):
                    ctx.bad('color', '%r of %r is drawn in %r, expected %r', ch, w.text, it.color, st['c'])
                if not near(it.rise, st.get('r', 0) * st['s'], .002):
                    ctx.bad('rise', '%r of %r is raised by %r, expected %r', ch, w.text, it.rise, st.get('r', 0) * st['s'])
                marked.append((ch, x, wd, it, st, o.page, 'mark' in tag, w.text))
            if ctx.v:
                return
    ctx.see('lost_words', lost)
    ctx.nontrivial = len(marked) > 5 and len(styles) > 1
    if lost:
        return      # not this property's business
    decorations(ctx, rd, marked)


def decorations(ctx, rd, marked):
    lines = collections.defaultdict(list)
    fills = collections.defaultdict(list)
    for p in rd.pages:
        for it in p.items:
            if it.kind == 'line':
                lines[p.index].append([it, set()])
            elif it.kind == 'fill':
                fills[p.index].append([it, set()])
    rows = collections.defaultdict(list)
    for m in marked:
        ch, x, wd, it, st, page, mark, text = m
        rows[page, round(it.y, 1)].append(m)
        mid = x + wd / 2
        if st.get('u') and not mark:
            ctx.see('underlined_chars')
            y = it.y + it.rise - .07 * it.size
            for l in lines[page]:
                i = l[0]
                if min(i.x1, i.x2) - .1 <= x and x + wd <= max(i.x1, i.x2) + .1 and near(i.y1, y, .05) and near(i.y1, i.y2, .01) and model.same_color(i.color, st['c']):
                    l[1].add(round(it.y, 1))
                    if not near(i.width, .07 * it.size, .01):
                        ctx.bad('underline-width', 'underline of %r has width %r at size %g', text, i.width, it.size)
                    break
            else:
                c = [l[0] for l in lines[page] if near(l[0].y1, y, .3)]
                ctx.bad('underline-missing', '%r of %r (page %d, %.2f,%.2f) must be underlined in %r; lines there: %r', ch, text, page, x, it.y, st['c'],
                        [(round(i.x1, 1), round(i.x2, 1), i.color) for i in c][:4])
                return
        bg = st.get('bg')
        if bg is not None and bg != '' and not mark:
            ctx.see('background_chars')
            y = it.y + it.rise + .3 * it.size
            hit = [f for f in fills[page] if f[0].x1 - .1 <= x and x + wd <= f[0].x2 + .1 and f[0].y1 <= y - .5 * it.size and f[0].y2 >= y + .5 * it.size
                   and model.same_color(f[0].color, bg)]
            for f in hit:
                f[1].add((round(it.y, 1), round(it.rise + it.y - .25 * it.size - f[0].y1, 1)))
            if not hit:
                ctx.bad('background-missing', '%r of %r (page %d, %.2f,%.2f) must have the background %r', ch, text, page, x, it.y, bg)
                return
    over = set()        # pages where words too long for their column cross other texts
    for (page, y), ms in rows.items():
        ms = sorted(ms, key=lambda m: m[1])
        if any(a[1] + a[2] > b[1] + .1 for a, b in zip(ms, ms[1:])):
            over.add(page)
            ctx.see('crossing_pages')
    for page, ls in lines.items():
        for i, ys in ls if page not in over else ():
            if not ys:
                ctx.bad('underline-stray', 'a line at %.1f..%.1f, y=%.1f on page %d underlines nothing that asks for it', i.x1, i.x2, i.y1, page)
                return
            for y in ys:
                for ch, x, wd, it, st, pg, mark, text in rows[page, y]:
                    if not st.get('u') and i.x1 + .1 < x + wd / 2 < i.x2 - .1:
                        ctx.bad('underline-leak', '%r of %r on page %d is underlined', ch, text, page)
                        return
    for page, fs in fills.items():
        for f, ys in fs if page not in over else ():
            own = [y for y, d in ys if abs(d) <= .1]
            if not own:
                ctx.bad('background-stray', 'a background %r at %.1f..%.1f, y=%.1f on page %d belongs to no text', f.color, f.x1, f.x2, f.y1, page)
                return
            for y in own:
                # a background of a line is painted under the line's characters
                for ch, x, wd, it, st, pg, mark, text in rows[page, y]:
                    if f.seq > it.seq and f.x1 < x + wd / 2 < f.x2 and near(f.y1, it.y + it.rise - .25 * it.size, .1):
                        ctx.bad('hidden', '%r of %r on page %d is hidden under a background painted later', ch, text, page)
                        return
                for ch, x, wd, it, st, pg, mark, text in rows[page, y]:
                    if st.get('bg') in (None, '') and f.x1 + .1 < x + wd / 2 < f.x2 - .1:
                        ctx.bad('background-leak', '%r of %r on page %d has a background', ch, text, page)
                        return
