"""C08: every word of every paragraph is drawn once, in order, whatever the box, column or page breaks."""
from .. import build, gen as G, model, obs
from ..common import compare_seq

CASES = {'quick': 18000, 'thorough': 540000}
NEED = {'words': 2000, 'paragraphs': 100, 'page_breaks': 30, 'column_breaks': 20, 'glued_words': 50, 'newlines': 50}
RULE = ('random rich text (nested styles, spaces, newlines, numbers, special characters, every word unique) drawn through '
        'text(), content boxes with 1-4 columns, table cells and whole documents on random page sizes; a case is non-trivial '
        'when at least 5 words were drawn over 2 or more lines')
ASSUME = ['text is Latin-1 and standard fonts (TrueType text is C20)']


def gen_par(r, toks, formats, narrow=False):
    o = {'sizes': [6, 8, 9, 10, 11, 12, 15], 'formats': formats, 'depth': r.choice([0, 1, 2, 3]), 'nl': r.choice([0, .1, .3])}
    p = {'content': G.par(r, toks, r.choice([1, 2, 5, 12, 30, 60, 120]), o),
         'text_align': r.choice('lrcj'), 'line_height': r.choice([1, 1.1, 1.1, 1.5, 2]),
         'indent': r.choice([0, 0, 0, 10, 25])}
    if r.random() < .25:
        p['list_text'] = r.choice(['1. ', '- ', 'a) ', '(b) ', '\\ ', '[x] ', '* '])
        if r.random() < .5:
            p['list_indent'] = r.choice([15, 20, 30])
        if r.random() < .5:
            p['list_style'] = G.style_dict(r, {'sizes': [7, 9, 12], 'rise': False, 'bg': False})
    if r.random() < .05:
        # nothing, or only a number, is a paragraph too
        p['content'] = r.choice(['', [], {'.': ''}, {'.b': 7000 + toks.n}, {'.': 7000 + toks.n + .5}, [7000 + toks.n]])
        toks.n += 1
    return p


def gen_case(r):
    toks = G.Toks(r, special=r.choice([0, .05, .3]), maxlen=r.choice([3, 8, 12]))
    formats = G.formats(r, {'sizes': [6, 9, 11, 13]})
    driver = r.choice(['text', 'text', 'content', 'cols', 'cols', 'table', 'doc'])
    w, h = r.choice([(200, 150), (300, 200), (300, 300), (420, 500), (595, 842)])
    case = {'driver': driver, 'size': [w, h], 'margin': r.choice([10, 20, 30]), 'formats': formats,
            'cols': r.choice([2, 2, 3, 4]) if w >= 300 else 2, 'gap': r.choice([7, 10, 15])}
    case['paras'] = [gen_par(r, toks, formats) for _ in range(r.choice([1, 1, 2, 4]))]
    return case


def gen(r, tier, i):
    return gen_case(r)


def PAR_STYLE(p):
    return {k: p[k] for k in ('text_align', 'line_height', 'indent', 'list_text', 'list_indent', 'list_style') if k in p}


def element(p):
    import copy
    c = build.tuples(copy.deepcopy(p['content']))
    if not isinstance(c, dict):
        c = {'.': c}
    st = c.get('style')
    if isinstance(st, str):
        c = {'.': [c]}
        st = None
    c['style'] = dict(st or {}, **PAR_STYLE(p))
    return c


def draw(case):
    import copy
    import io
    from pdfme import PDF, build_pdf
    w, h = case['size']
    m = case['margin']
    paras = case['paras']
    with build.guard():
        if case['driver'] == 'text':
            pdf = PDF(page_size=(w, h), margin=m)
            pdf.formats = copy.deepcopy(case['formats'])
            pdf.add_page()
            for p in paras:
                pdf.text(build.tuples(copy.deepcopy(p['content'])), **PAR_STYLE(p))
        elif case['driver'] in ('content', 'cols'):
            pdf = PDF(page_size=(w, h), margin=m)
            pdf.formats = copy.deepcopy(case['formats'])
            pdf.add_page()
            c = {'content': [element(p) for p in paras]}
            if case['driver'] == 'cols':
                c['cols'] = {'count': case['cols'], 'gap': case['gap']}
            pdf.content(c)
        elif case['driver'] == 'table':
            pdf = PDF(page_size=(w, h), margin=m)
            pdf.formats = copy.deepcopy(case['formats'])
            pdf.add_page()
            pdf.table([[element(p)] for p in paras])
        else:
            buf = io.BytesIO()
            build_pdf({'style': {'page_size': [w, h], 'margin': m}, 'formats': copy.deepcopy(case['formats']),
                       'sections': [{'content': [element(p) for p in paras]}]}, buf)
            return buf.getvalue()
        return build.output(pdf)


def expected(case):
    out = []
    for p in case['paras']:
        ws = model.par_words(p['content'], formats=case['formats'])
        if 'list_text' in p:
            lab = model.Word(1)
            lab.chars = [(c, {}, ()) for c in p['list_text'].strip()]
            out.append((lab.done(), True))
        out.extend((w, False) for w in ws)
        if ws:
            # paragraphs always start on a line of their own
            k = len(out) - len(ws)
            if 'list_text' not in p:
                ws[0].br += 1
    return out


def box_width(case):
    w = case['size'][0] - 2 * case['margin']
    if case['driver'] == 'cols':
        return (w - case['gap'] * (case['cols'] - 1)) / case['cols']
    return w - 15


def column_of(case, x):
    if case['driver'] != 'cols':
        return 0
    w = case['size'][0] - 2 * case['margin']
    cw = (w - case['gap'] * (case['cols'] - 1)) / case['cols']
    return int((x - case['margin'] + .01) // (cw + case['gap']))


def check(case, ctx):
    data = draw(case)
    rd = build.read(data)
    ow = obs.all_words(rd)
    exp = expected(case)
    over = False
    if max((w.width() for w, _ in exp if not _), default=0) > box_width(case) - 60:
        over = True
        # words wider than the box stick out of it: columns cannot be told apart by position
        ctx.see('overlong_words')
        ordered = ow
    else:
        ordered = sorted(ow, key=lambda w: (w.page, column_of(case, w.x1), -round(w.y, 1), w.x1))
    ctx.see('paragraphs', len(case['paras']))
    ctx.see('words', len(ow))
    nl = len({(w.page, w.y) for w in ow})
    ctx.see('lines', nl)
    ctx.see('glued_words', sum(1 for w, _ in exp if len({id(c[1]) for c in w.chars}) > 1))
    ctx.nontrivial = len(exp) >= 5 and nl >= 2
    want, have = [w.text for w, _ in exp], [w.text for w in ordered]
    if over and case['driver'] == 'cols':
        # a word that sticks out of its column may touch, or seem to be in, another one: only the text counts
        if ''.join(want) != ''.join(have):
            compare_seq(ctx, want, have)
        return
    if not compare_seq(ctx, want, have):
        return
    prev = None
    for (e, lab), o in zip(exp, ordered):
        if prev is not None:
            if prev.page != o.page:
                ctx.see('page_breaks')
            elif column_of(case, prev.x1) != column_of(case, o.x1):
                ctx.see('column_breaks')
            same = prev.page == o.page and column_of(case, prev.x1) == column_of(case, o.x1) and abs(prev.y - o.y) < .01
            if e.br:
                ctx.see('newlines')
                if same:
                    ctx.bad('newline-ignored', 'newline before %r but it is on the line of %r', e.text, prev.text)
            elif same and o.x1 - prev.x2 < 0.5:
                if not lab_prev and not over:
                    ctx.bad('words-touch', 'no gap between %r and %r (%.2f)', prev.text, o.text, o.x1 - prev.x2)
        prev = o
        lab_prev = lab
