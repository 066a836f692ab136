"""C27: alignment, line height, indentation and list marks reach every paragraph they are given for."""
import copy
import io

from .. import build, gen as G, metrics, model, obs

CASES = {'quick': 20000, 'thorough': 300000}
NEED = {'paragraphs': 30000, 'lines': 100000, 'aligned_l': 10000, 'aligned_c': 10000, 'aligned_r': 10000, 'aligned_j': 10000, 'spacings': 50000, 'indented': 5000,
        'marks': 2000, 'boxes': 5000, 'tables': 3000, 'nested_tables': 300, 'groups': 1000, 'named': 1000, 'attributes_changed': 1000, 'running': 500}
RULE = ('random nestings of paragraphs in boxes, columns, groups, tables, sections, running sections and documents, with text_align, line_height, indent, list_text and '
        'list_indent given anywhere along the nesting, in PDF(...) arguments, in PDF attributes changed later and in the arguments of PDF.text; the lines of '
        'every paragraph are measured against an independent cascade. Non-trivial with 3 or more paragraphs of at least 2 different settings')
ASSUME = ['standard fonts, one size per document']
KEYS = ('text_align', 'line_height', 'indent')
ALL = KEYS + ('list_text', 'list_indent')
BASE = {'text_align': 'l', 'line_height': 1.1, 'indent': 0}
EPS = .03


def settings(r, p, lists=.1):
    d = {}
    if r.random() < p:
        d['text_align'] = r.choice('lrcj')
    if r.random() < p:
        d['line_height'] = r.choice([1, 1.25, 1.6, 2])
    if r.random() < p:
        d['indent'] = r.choice([0, 8, 20])
    if lists and r.random() < lists:
        d['list_text'] = r.choice(['- ', '1. ', '* '])
        d['list_indent'] = r.choice([12, 20])
    return d


class Gen:
    def __init__(self, r):
        self.r = r
        self.toks = G.Toks(r, maxlen=r.choice([2, 5]))
        self.formats = {'n%d' % k: settings(r, .5) for k in range(3)}
        self.p = r.choice([.15, .3, .5])

    def style(self, extra=None):
        r = self.r
        if r.random() < .2:
            n = r.choice(sorted(self.formats))
            if not extra:
                return n
            return dict(self.formats[n], **extra)
        return dict(settings(r, self.p), **(extra or {}))

    def put(self, d, extra=None):
        st = self.style(extra)
        if st or self.r.random() < .5:
            d['style'] = st
        return d

    def text(self, n=None):
        return ' '.join(self.toks.word() for _ in range(n or self.r.choice([2, 8, 20, 35])))

    def par(self, n=None):
        r = self.r
        if r.random() < .25:
            return self.text(n)
        if r.random() < .2:
            return [self.text(n)]
        return self.put({'.': self.text(n)})

    def table(self, depth):
        r = self.r
        C = r.choice([1, 2, 2, 3])
        rows = [[self.cell(depth) for _ in range(C)] for _ in range(r.choice([1, 2, 3]))]
        return self.put({'table': rows}, {'cell_margin': r.choice([2, 4]), 'border_width': 0})

    def cell(self, depth):
        k = self.r.random()
        if k < .15 and depth < 3:
            return self.box(depth + 1, 2, cols=False)
        if k < .25 and depth < 2:
            return self.table(depth + 1)
        return self.par(self.r.choice([2, 6, 12]))

    def box(self, depth=0, n=None, cols=True):
        r = self.r
        out = []
        for _ in range(n or r.choice([1, 2, 4])):
            k = r.random()
            if k < .2 and depth < 3:
                out.append(self.box(depth + 1, r.choice([1, 2]), cols))
            elif k < .35 and depth < 2:
                out.append(self.table(depth + 1))
            elif k < .42:
                out.append(self.put({'group': [self.par(6) for _ in range(2)]}))
            else:
                out.append(self.par())
        b = self.put({'content': out})
        if cols and depth < 2 and r.random() < .15:
            b['cols'] = {'count': 2, 'gap': r.choice([10, 20])}
        return b


def gen(r, tier, i):
    g = Gen(r)
    case = {'driver': r.choice(['pdf', 'pdf', 'doc']), 'size': r.choice([[420, 500], [560, 700]]), 'formats': g.formats, 's': r.choice([8, 10, 11]), 'f': r.choice(['Courier', 'Helvetica'])}
    case['base'] = settings(r, .4, 0)
    if case['driver'] == 'pdf':
        case['steps'] = steps = []
        for _ in range(r.choice([1, 2, 4])):
            if r.random() < .25:
                steps.append({'set': settings(r, .5, 0)})
            k = r.random()
            if k < .4:
                steps.append({'text': g.text(), 'kw': settings(r, .4)})
            elif k < .7:
                steps.append({'content': g.box(0, r.choice([1, 3]))})
            else:
                steps.append({'table': g.table(0)})
    else:
        case['sections'] = [g.box(0, r.choice([1, 3])) for _ in range(r.choice([1, 2]))]
        case['run'] = [{'content': [g.par(4)]} for _ in range(r.choice([0, 1]))]
        for s in case['run']:
            g.put(s)
    return case


def draw(case):
    from pdfme import PDF, build_pdf
    w, h = case['size']
    if case['driver'] == 'doc':
        doc = {'style': dict(case['base'], f=case['f'], s=case['s'], page_size=[w, h], margin=40), 'formats': copy.deepcopy(case['formats']),
               'sections': build.tuples(copy.deepcopy(case['sections'])),
               'running_sections': {'r%d' % k: dict(copy.deepcopy(s), height='top', x='left', width=w - 80) for k, s in enumerate(case['run'])}}
        for s in doc['sections']:
            s['running_sections'] = sorted(doc['running_sections'])
        buf = io.BytesIO()
        with build.guard():
            build_pdf(doc, buf)
        return buf.getvalue()
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=40, font_family=case['f'], font_size=case['s'], **case['base'])
        pdf.formats = copy.deepcopy(case['formats'])
        pdf.add_page()
        for s in build.tuples(copy.deepcopy(case['steps'])):
            if 'set' in s:
                for k, v in s['set'].items():
                    setattr(pdf, k, v)
            elif 'text' in s:
                pdf.text(s['text'], **s['kw'])
            elif 'content' in s:
                pdf.content(s['content'])
            else:
                pdf.table(s['table']['table'], style=s['table'].get('style'))
    return build.output(pdf)


class Expect:
    def __init__(self, case, ctx):
        self.case, self.ctx, self.pars = case, ctx, []

    def style(self, e, st):
        s = e.get('style') if isinstance(e, dict) else None
        if isinstance(s, str):
            self.ctx.see('named')
        return dict(st, **{k: v for k, v in model.resolve(s, self.case['formats']).items()})

    def node(self, e, st, xs, w, cell=False):
        st2 = st if cell else self.style(e, st)
        if isinstance(e, dict) and 'content' in e:
            self.ctx.see('boxes')
            if 'cols' in e:
                g = e['cols']['gap']
                w = (w - g) / 2
                xs = [x + k * (w + g) for x in xs for k in (0, 1)]
            for c in e['content']:
                self.node(c, st2, xs, w)
        elif isinstance(e, dict) and 'group' in e:
            self.ctx.see('groups')
            for c in e['group']:
                self.node(c, st2, xs, w)
        elif isinstance(e, dict) and 'table' in e:
            self.ctx.see('tables')
            for row in e['table']:
                cw = w / len(row)
                for k, c in enumerate(row):
                    if isinstance(c, dict) and 'table' in c:
                        self.ctx.see('nested_tables')
                    st3 = self.style(c, st2)
                    m = st3.pop('cell_margin', 5)       # a margin given to a nested table is the one of its cell
                    self.node(c, st3, [x + k * cw + m for x in xs], cw - 2 * m, True)
        else:
            if isinstance(e, dict):
                e = e['.']
            self.pars.append((e if isinstance(e, str) else e[0], {k: st2[k] for k in ALL if k in st2}, xs, w))


def expected(case, ctx):
    x = Expect(case, ctx)
    st = dict(BASE, **case['base'])
    w = case['size'][0] - 80
    if case['driver'] == 'doc':
        for s in case['run']:
            ctx.see('running')
            x.node(s, st, [40], w)
        for s in case['sections']:
            x.node(s, st, [40], w)
    else:
        for s in case['steps']:
            if 'set' in s:
                ctx.see('attributes_changed')
                st.update(s['set'])
            elif 'text' in s:
                x.node({'.': s['text'], 'style': s['kw']}, st, [40], w)
            else:
                x.node(s.get('content') or s['table'], st, [40], w)
    return x.pars


def check(case, ctx):
    pars = expected(case, ctx)
    rd = build.read(draw(case))
    ow = obs.all_words(rd)
    at = {}
    for k, o in enumerate(ow):
        at.setdefault(o.text, k)
    kinds = set()
    wd = lambda t: metrics.width(metrics.base_font(case['f'], False, False), t, case['s'])
    for text, st, xs, w in pars:
        words = text.split()
        if any(t not in at for t in words):
            ctx.see('lost')
            continue        # other properties are about that
        got = [ow[at[t]] for t in words]
        kinds.add(tuple(sorted(st.items(), key=str)))
        ctx.see('paragraphs')
        one(case, ctx, words, got, st, xs, w, wd, ow[at[words[0]] - 1] if at[words[0]] else None)
        if ctx.v:
            return
    ctx.nontrivial = len(pars) > 2 and len(kinds) > 1


def one(case, ctx, words, got, st, xs, w, wd, before):
    mark = st.get('list_text')
    li = st['list_indent'] if mark else 0
    ind, al, L, s = st['indent'], st['text_align'], st['line_height'], case['s']
    head = ' '.join(words[:3])
    if max(map(wd, words)) > w - li - ind - EPS:
        ctx.see('too_narrow')
        return
    lines = []
    for o in got:
        col = max([x for x in xs if x <= o.x1 + EPS], default=None)
        if col is None or o.x2 > col + w + EPS:
            ctx.bad('outside', '%r of %s... is at %.2f..%.2f, outside of its column', o.text, head, o.x1, o.x2)
            return
        if not lines or lines[-1][0] != (o.page, col) or abs(lines[-1][1][0].y - o.y) > .01:
            lines.append(((o.page, col), []))
        lines[-1][1].append(o)
    if mark:
        ctx.see('marks')
        (pg, col), ln = lines[0]
        if before is None or before.text != mark.strip() or before.page != pg or abs(before.y - ln[0].y) > .01 or abs(before.x1 - col) > EPS:
            ctx.bad('mark', '%s... should start with the mark %r at %.2f, found %r', head, mark, col, before)
            return
    elif before is not None and before.page == got[0].page and abs(before.y - got[0].y) < .01 and before.x2 < got[0].x1 + EPS and before.text in ('-', '1.', '*'):
        if max([x for x in xs if x <= before.x1 + EPS], default=None) == lines[0][0][1]:
            ctx.bad('mark', '%s... should have no mark, found %r', head, before)
            return
    ctx.see('indented', ind > 0 and al in 'lj')
    for n, (k, ln) in enumerate(lines):
        ctx.see('lines')
        ctx.see('aligned_' + al)
        x1, x2, left, right = ln[0].x1, ln[-1].x2, k[1] + li, k[1] + w
        last = n == len(lines) - 1
        if al in 'lj':
            want = left + (ind if n == 0 else 0)
            if abs(x1 - want) > EPS:
                ctx.bad('left', 'line %d of %s... (%s) starts at %.2f, expected %.2f', n, head, st, x1, want)
        if al == 'r' and abs(x2 - right) > EPS:
            ctx.bad('right', 'line %d of %s... (%s) ends at %.2f, expected %.2f', n, head, st, x2, right)
        if al == 'c' and abs(x1 + x2 - left - right) > 2 * EPS:
            ctx.bad('centre', 'line %d of %s... (%s) is at %.2f..%.2f in %.2f..%.2f', n, head, st, x1, x2, left, right)
        full = sum(map(wd, [o.text for o in ln])) + (len(ln) - 1) * wd(' ')
        if al == 'j' and not last:
            if len(ln) > 1 and abs(x2 - right) > EPS:
                ctx.bad('justify', 'line %d of %s... (%s) ends at %.2f, expected %.2f', n, head, st, x2, right)
        elif abs(x2 - x1 - min(full, w - li - (ind if n == 0 else 0))) > EPS:
            ctx.bad('stretched', 'line %d of %s... (%s) is %.2f wide, its text %.2f', n, head, st, x2 - x1, full)
        if n and lines[n - 1][0] == k:
            ctx.see('spacings')
            gap = lines[n - 1][1][0].y - ln[0].y
            if abs(gap - L * s) > EPS:
                ctx.bad('line-height', 'line %d of %s... (%s) is %.2f below the one before, expected %.2f', n, head, st, gap, L * s)
        if ctx.v:
            return
