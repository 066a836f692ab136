"""C23: notations for colours, margins, sizes, style strings, ranges and numerals."""
import io
import json
import pathlib

from .. import build, model, obs
from ..common import PAGE

CASES = {'quick': 40000, 'thorough': 1200000}
NEED = {'color_names': 148, 'hex_colors': 500, 'number_colors': 300, 'margins': 500, 'style_strings': 500, 'page_ranges': 500,
        'cell_ranges': 200, 'numerals': 3999, 'page_sizes': 100, 'rejected': 500, 'drawn': 200}
RULE = ('all colour names and numerals 1-3999, and random colours, margins, page sizes, style strings and ranges in every notation, run through '
        'the real parsers beside reference interpreters and drawn in small documents; every case is non-trivial')
ASSUME = ['colour names mean what PIL.ImageColor (CSS) says, within 0.005']
NAMES = json.loads((pathlib.Path(__file__).resolve().parents[2] / 'data' / 'color_names.json').read_text())
KINDS = ['color', 'color', 'margin', 'style', 'style', 'range', 'range', 'cells', 'size', 'bad', 'bad', 'drawn']


def num(r, hi=1.0):
    return r.choice([0, 1, round(r.uniform(0, hi), 3), round(r.uniform(0, hi), 1)])


def gen_color(r):
    k = r.random()
    if k < .25:
        return r.choice(NAMES)
    if k < .55:
        n = r.choice([3, 4, 6, 8])
        s = '#' + ''.join(r.choice('0123456789abcdefABCDEF') for _ in range(n))
        return s
    if k < .65:
        return num(r)
    if k < .75:
        return [num(r)] if r.random() < .3 else [num(r) for _ in range(3)]
    if k < .8:
        return None if r.random() < .5 else ''
    return r.choice([' ', ',']).join(str(num(r)) for _ in range(r.choice([1, 3, 3])))


def gen_margin(r):
    k = r.random()
    v = [round(r.uniform(0, 80), r.choice([0, 1, 2])) for _ in range(r.choice([1, 2, 3, 4]))]
    v = [int(x) if x == int(x) and r.random() < .7 else x for x in v]
    if k < .02:
        return []
    if k < .15:
        return v[0]
    if k < .5:
        return v
    if k < .85:
        return r.choice([' ', ',']).join(map(str, v))
    return {s: round(r.uniform(0, 80), 1) for s in ('top', 'right', 'bottom', 'left')}


def gen_style(r):
    out = []
    for a in r.sample('biufcsr', r.randint(0, 5)) + (['bg'] if r.random() < .3 else []):
        if a in 'biu':
            out.append(r.choice([a, a, a + ':1', a + ':0']))
        elif a == 'f':
            out.append('f:' + r.choice(['Helvetica', 'Times', 'Courier', 'Symbol', 'ZapfDingbats']))
        elif a in ('c', 'bg'):
            c = gen_color(r)
            while not isinstance(c, str) or (a == 'c' and c == ''):
                c = gen_color(r)
            out.append(a + ':' + c)
        elif a == 's':
            out.append('s:' + r.choice(['10', '8.5', '12.0', '7', '100']))
        else:
            out.append('r:' + r.choice(['0.5', '-0.4', '0', '1']))
    r.shuffle(out)
    sp = r.choice(['', '', ' '])
    s = (';' + sp).join(x.replace(':', r.choice([':', ':', ': ' if sp else ':']), 1) for x in out)
    return s + r.choice(['', '', ';'])


def gen_range(r):
    parts = []
    for _ in range(r.choice([1, 1, 2, 3])):
        a = r.randint(0, 12)
        k = r.random()
        if k < .35:
            parts.append(str(a))
        else:
            p = [r.choice(['', str(a)]), r.choice(['', str(a + r.randint(0, 10))])]
            if r.random() < .4:
                p.append(str(r.choice([1, 2, 3])))
            parts.append(':'.join(p))
    return r.choice([',', ', ']).join(parts)


def gen_cells(r, n):
    k = r.random()
    if k < .4:
        return ','.join(str(r.randint(-n, n - 1)) for _ in range(r.choice([1, 1, 2, 3])))
    p = [r.choice(['', '', str(r.randint(-n, n - 1))]) for _ in range(2)]
    if r.random() < .4:
        p.append(r.choice(['1', '2', '3']))
    return ':'.join(p)


BAD = [['color', c] for c in ('notacolor', '#12', '#12345', '#gggggg', '1 2', '0.1 x 0.3', [0.1, 0.2], 'red blue green', '#', {'a': 1}, [0, 0, 'x'], '0.1 0.2 0.3 0.4 0.5')] + \
      [['margin', m] for m in ('a', '10 b', '10 20 x', None)] + \
      [['style', s] for s in ('x', 'bold', 'b:2', 'b:x', 'u:2', 's:abc', 's:', 's', 'r:x', 'f:NoSuchFont', 'q:1', 'b:1:2', 'c', 'c:nocolor', 'bg:#12', 'f', 'c:1 2', 'i:yes', 'size:10')] + \
      [['range', x] for x in ('a', '', '1,', 'x:3', '1:b', '1-3', '1:2:c')] + \
      [['size', x] for x in ('a9', 'A44', '', 'tabloidx')] + \
      [['roman', x] for x in (0, -1, 4000, 5000, -3999)]


def gen(r, tier, i):
    if i < 40:
        return {'kind': 'fixed', 'k': i}
    if i < 40 + len(BAD):
        return {'kind': 'bad', 'what': BAD[i - 40]}
    k = r.choice(KINDS)
    c = {'kind': k}
    if k == 'color':
        c['v'] = [gen_color(r) for _ in range(10)]
        c['tuple'] = r.random() < .3
    elif k == 'margin':
        c['v'] = [gen_margin(r) for _ in range(5)]
        c['tuple'] = r.random() < .3
    elif k == 'style':
        c['v'] = [gen_style(r) for _ in range(5)]
    elif k == 'range':
        c['v'] = [gen_range(r) for _ in range(5)]
    elif k == 'cells':
        c['rows'], c['cols'] = r.randint(1, 7), r.randint(1, 6)
        c['v'] = gen_cells(r, c['rows']) + ('' if r.random() < .15 else ';' + gen_cells(r, c['cols']))
    elif k == 'size':
        c['v'] = [r.choice(sorted(PAGE)), r.randint(100, 900), round(r.uniform(100, 900), 2), [r.randint(100, 900), round(r.uniform(100, 900), 2)]]
    elif k == 'bad':
        c['what'] = r.choice(BAD)
        if r.random() < .4:
            good = {'style': gen_style, 'range': gen_range}.get(c['what'][0])
            if good:
                sep = ';' if c['what'][0] == 'style' else ','
                if not (c['what'][0] == 'range' and c['what'][1] == ''):
                    c['what'] = [c['what'][0], sep.join([good(r).strip(';'), c['what'][1]])]
    else:
        c.update(size=r.choice([r.choice(sorted(PAGE)), 400, [500, 420.5]]), margin=gen_margin(r), rotate=r.random() < .3,
                 style='.' + gen_style(r), pages=gen_range(r), n=r.randint(1, 12), off=r.choice([0, 3, 87, 488, 1990]))
    return c


# ---- reference interpreters
def ref_margin(m):
    if isinstance(m, dict):
        return [m['top'], m['right'], m['bottom'], m['left']]
    if isinstance(m, str):
        m = [float(x) for x in m.replace(',', ' ').split(' ')]
    if isinstance(m, (int, float)):
        m = [m]
    m = list(m)
    return {0: lambda: [0, 0, 0, 0], 1: lambda a: [a, a, a, a], 2: lambda a, b: [a, b, a, b], 3: lambda a, b, c: [a, b, c, b], 4: lambda *a: list(a)}[len(m)](*m)


def ref_style(s):
    out = {}
    for part in s.split(';'):
        if part.strip():
            k, _, v = (x.strip() for x in part.partition(':'))
            out[k] = (v != '0') if k in 'biu' else float(v) if k in 'sr' else v
    return out


def ref_pages(s, upto):
    out = set()
    for part in s.split(','):
        p = [x.strip() for x in part.split(':')]
        if len(p) == 1:
            out.add(int(p[0]))
        else:
            p += [''] * (3 - len(p))
            a = int(p[0] or 0)
            b = int(p[1]) if p[1] else upto + 1
            st = int(p[2] or 1)
            out.update(x for x in range(upto + 1) if a <= x < b and (x - a) % st == 0)
    return {x for x in out if x <= upto}


def ref_cells(s, n):
    if ':' in s or s == '':
        p = (s.split(':') + ['', '', ''])[:3] if s else ['', '', '']
        a = int(p[0]) if p[0] else 0
        b = int(p[1]) if p[1] else n
        st = int(p[2]) if p[2] else 1
        a, b = (a + n if a < 0 else a), (b + n if b < 0 else b)
        return {x for x in range(n) if a <= x < b and (x - a) % st == 0}
    return {int(x) % n for x in s.split(',')}


def ref_roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


def ref_color(c):
    if isinstance(c, str) and c.startswith('#') and len(c) in (5, 9):
        c = c[:4] if len(c) == 5 else c[:7]
    return model.color(c)


def plain(c):
    """The components of a colour value of the code under test."""
    from pdfme.color import PDFColor
    if c is None:
        return None
    v = c.color if isinstance(c, PDFColor) else c
    return None if v is None else tuple(v)


def check(case, ctx):
    from pdfme import color as C, utils as U
    from pdfme.fonts import PDFFonts
    k = case['kind']
    ctx.nontrivial = True
    if k == 'fixed':
        for name in NAMES[case['k']::40]:
            ctx.see('color_names')
            with build.guard():
                got = plain(C.parse_color(name))
                got2 = plain(U.parse_style_str('c:' + name, PDFFonts())['c'])
            for g in (got, got2):
                if not model.same_color(g, model.color(name)):
                    ctx.bad('color', 'colour %r is %r, not %r', name, g, model.color(name))
        for n in range(1 + case['k'], 4000, 40):
            ctx.see('numerals')
            with build.guard():
                got = U.to_roman(n)
            if got != ref_roman(n):
                ctx.bad('numeral', '%d is written %r, not %r', n, got, ref_roman(n))
    elif k == 'color':
        for c in case['v']:
            arg = tuple(c) if case['tuple'] and isinstance(c, list) else c
            ctx.see('hex_colors' if isinstance(c, str) and c[:1] == '#' else 'number_colors')
            exp = ref_color(c)
            with build.guard():
                got = plain(C.parse_color(arg))
                s = str(C.PDFColor(arg)), str(C.PDFColor(arg, True)), str(C.PDFColor(C.PDFColor(arg), True))
            if not (got is exp is None or got is not None and exp is not None and len(got) == len(exp) and model.same_color(got, exp, 0.005)):
                ctx.bad('color', 'colour %r is %r, not %r', c, got, exp)
            elif exp is not None:
                for txt, ops in zip(s, (('g', 'rg'), ('G', 'RG'), ('G', 'RG'))):
                    p = txt.split()
                    if p[-1] != ops[len(exp) == 3] or not model.same_color(tuple(map(float, p[:-1])), exp, 0.006):
                        ctx.bad('color', 'colour %r is set by %r', c, txt)
            elif any(x.strip() for x in s):
                ctx.bad('color', 'no colour is set by %r', s)
    elif k == 'margin':
        for m in case['v']:
            ctx.see('margins')
            arg = tuple(m) if case['tuple'] and isinstance(m, list) else m
            with build.guard():
                got = U.parse_margin(arg)
            got = [got.get(s) for s in ('top', 'right', 'bottom', 'left')]
            if got != ref_margin(m):
                ctx.bad('margin', 'margin %r is %r (top, right, bottom, left)', m, got)
    elif k == 'style':
        for s in case['v']:
            ctx.see('style_strings')
            with build.guard():
                got = dict(U.parse_style_str(s, PDFFonts()))
            exp = ref_style(s)
            for key in ('c', 'bg'):
                if key in exp and key in got:
                    a, b = plain(got.pop(key)), ref_color(exp.pop(key))
                    if not (a is b is None or a and b and model.same_color(a, b)):
                        ctx.bad('style', 'style string %r gives %s %r', s, key, a)
            if got != exp or any(got[x] is not exp[x] for x in exp if x in 'biu'):
                ctx.bad('style', 'style string %r means %r, not %r', s, got, exp)
    elif k == 'range':
        for s in case['v']:
            ctx.see('page_ranges')
            with build.guard():
                m = U.parse_range_string(s)
                got = {x for x in range(60) if x in m}
            if got != ref_pages(s, 59):
                ctx.bad('range', 'page range %r selects %r, not %r', s, sorted(got), sorted(ref_pages(s, 59)))
    elif k == 'size':
        for s in case['v']:
            ctx.see('page_sizes')
            with build.guard():
                got = tuple(U.get_page_size(s))
            exp = PAGE[s] if isinstance(s, str) else tuple(s) if isinstance(s, list) else (s, s)
            if got != exp:
                ctx.bad('size', 'page size %r is %r', s, got)
    elif k == 'cells':
        cells(case, ctx)
    elif k == 'bad':
        invalid(case, ctx)
    else:
        drawn(case, ctx)


def invalid(case, ctx):
    from pdfme import PDF, color as C, utils as U
    from pdfme.fonts import PDFFonts
    kind, v = case['what']
    ctx.see('rejected')
    f = {'color': lambda: plain(C.parse_color(v)), 'margin': lambda: U.parse_margin(v), 'style': lambda: U.parse_style_str(v, PDFFonts()),
         'range': lambda: [x for x in range(60) if x in U.parse_range_string(v)], 'size': lambda: PDF(page_size=v).page_width, 'roman': lambda: U.to_roman(v)}[kind]
    try:
        got = f()
    except Exception:
        return
    ctx.bad('accepted', 'invalid %s %r is accepted as %r', kind, v, got)


def cells(case, ctx):
    from pdfme import PDF
    ctx.see('cell_ranges')
    R, K = case['rows'], case['cols']
    with build.guard():
        pdf = PDF(page_size=(600, 600), margin=0)
        pdf.add_page()
        pdf.table([['x'] * K for _ in range(R)], fills=[{'pos': case['v'], 'color': [0.2, 0.4, 0.6]}])
    rd = build.read(build.output(pdf))
    page = rd.pages[0]
    ys = sorted({round(i.y, 1) for i in page.texts() if i.text.strip()}, reverse=True)
    got = set()
    for it in page.items:
        if it.kind == 'fill':
            rows = [n for n, y in enumerate(ys) if it.y1 < y < it.y2]
            col = (it.x1 + it.x2) / 2 / (600 / K)
            got.update((n, int(col)) for n in rows)
    a, _, b = case['v'].partition(';')
    exp = {(i, j) for i in ref_cells(a, R) for j in ref_cells(b, K)}
    if got != exp:
        ctx.bad('cells', 'position %r in a %dx%d table selects %r, not %r', case['v'], R, K, sorted(got), sorted(exp))


def drawn(case, ctx):
    from pdfme import build_pdf
    ctx.see('drawn')
    buf = io.BytesIO()
    w, h = PAGE[case['size']] if isinstance(case['size'], str) else case['size'] if isinstance(case['size'], list) else (case['size'],) * 2
    if case['rotate']:
        w, h = h, w
    t, rt, b, l = ref_margin(case['margin'])
    style = {k: v for k, v in ref_style(case['style'][1:]).items() if k not in ('r',)}
    doc = {'style': {'page_size': case['size'], 'margin': case['margin'], 'rotate_page': case['rotate'], 'page_numbering_offset': case['off'], 'page_numbering_style': 'roman'},
           'running_sections': {'m': {'x': 5, 'y': 0, 'height': 20, 'content': ['MARK']}},
           'per_page': [{'pages': case['pages'], 'running_sections': {'include': ['m']}}],
           'sections': [{'content': [{case['style'] + (';' if case['style'] != '.' else '') + 'r:0': 'left'}, {'.': 'right', 'style': {'text_align': 'r'}}, {'.': {'var': '$page'}} if False else {'.': [{'var': '$page'}]}]}
                        for _ in range(case['n'])]}
    with build.guard():
        build_pdf(doc, buf)
    rd = build.read(buf.getvalue())
    if len(rd.pages) != case['n']:
        ctx.bad('drawn-pages', '%d pages for %d sections', len(rd.pages), case['n'])
        return
    exp = ref_pages(case['pages'], case['n'])
    for n, p in enumerate(rd.pages):
        mb = p.mediabox
        if abs(mb[2] - w) > .01 or abs(mb[3] - h) > .01:
            ctx.bad('drawn-size', 'page size %r (rotate %r) gives a %r page', case['size'], case['rotate'], mb)
        ws = obs.page_words(p)
        if (ws[0].text == 'MARK') != (n in exp):
            ctx.bad('drawn-range', 'range %r: page %d %s selected', case['pages'], n, 'not' if n in exp else 'wrongly')
        if ws[0].text == 'MARK':
            ws.pop(0)
        if len(ws) != 3 or [x.text for x in ws[:2]] != ['left', 'right']:
            ctx.bad('drawn-text', 'page %d shows %r', n, ws)
            return
        s = style.get('s', 11)
        if abs(ws[0].x1 - l) > .1 or abs(ws[1].x2 - (w - rt)) > .1:
            ctx.bad('drawn-margin', 'margin %r: text spans %.2f..%.2f on a page %g wide', case['margin'], ws[0].x1, ws[1].x2, w)
        if not -.1 <= (h - t - ws[0].y) - s <= 1.5:
            ctx.bad('drawn-margin', 'margin %r: first baseline is %.2f below the page top', case['margin'], h - ws[0].y)
        it = ws[0].chars[0][3]
        from ..metrics import base_font
        bf = base_font(style.get('f', 'Helvetica'), style.get('b'), style.get('i'))
        if it.base != bf or abs(it.size - s) > .01:
            ctx.bad('drawn-style', 'style %r draws in %s %g', case['style'], it.base, it.size)
        if not model.same_color(tuple(it.color), ref_color(style.get('c', 0.1))):
            ctx.bad('drawn-style', 'style %r draws in colour %r', case['style'], it.color)
        fills = [i for i in p.items if i.kind == 'fill']
        bg = ref_color(style.get('bg'))
        if len(fills) != (bg is not None) or bg is not None and not model.same_color(tuple(fills[0].color), bg):
            ctx.bad('drawn-style', 'style %r draws backgrounds %r', case['style'], fills)
        if sum(i.kind == 'line' for i in p.items) != bool(style.get('u')):
            ctx.bad('drawn-style', 'style %r draws underlines %r', case['style'], [i for i in p.items if i.kind == 'line'])
        if ws[2].text != ref_roman(n + 1 + case['off']):
            ctx.bad('drawn-numeral', 'page %d is numbered %r', n + 1 + case['off'], ws[2].text)
