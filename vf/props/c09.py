"""C09: paragraph lines fit their box, fill it and follow the alignment."""
import copy

from .. import build, gen as G, metrics, model, obs
from ..common import compare_seq

CASES = {'quick': 30000, 'thorough': 900000}
NEED = {'lines': 5000, 'aligned_l': 300, 'aligned_r': 300, 'aligned_c': 300, 'aligned_j': 300, 'box_breaks': 300,
        'greedy_checked': 500, 'first_lines': 200, 'list_labels': 50, 'glyph_widths': 10000, 'raised_lines': 5000}
RULE = ('one random paragraph (unique words, mixed styles) laid out in a random sequence of boxes by _text(), text(), columns or '
        'a table cell; and every character of every standard font alone at the right edge or centred; non-trivial when 3 or more lines were drawn')
ASSUME = ['AFM metrics of the standard fonts', 'Latin-1 text']
EPS = 0.15


GLYPHS = [chr(k) for k in range(33, 256) if not 127 <= k <= 160]


def gen(r, tier, i):
    if i % 25 == 0:
        # single characters at the right edge: every width of every standard font
        f = list(metrics.FAMILY)[i // 25 % 5]
        k = i // 125 * 16 % len(GLYPHS)
        return {'driver': 'widths', 'f': f, 'b': r.random() < .5, 'i': r.random() < .5, 's': r.choice([10, 12.5, 24]), 'al': r.choice('rrc'), 'chars': (GLYPHS * 2)[k:k + 16]}
    toks = G.Toks(r, special=r.choice([0, .1]), maxlen=r.choice([2, 4, 8]))
    formats = G.formats(r, {'sizes': [6, 9, 11, 13], 'rise': False})
    uniform = r.random() < .4
    o = {'sizes': [] if uniform else [6, 8, 9, 10, 11, 12, 15], 'formats': None if uniform else formats,
         'rise': not uniform and r.random() < .4, 'depth': r.choice([0, 1, 2]), 'nl': r.choice([0, 0, .15])}
    p = {'content': G.par(r, toks, r.choice([3, 8, 20, 40, 80]), o), 'text_align': r.choice('lrcj'),
         'line_height': r.choice([1, 1.1, 1.1, 1.5, 2]), 'indent': r.choice([0, 0, 10, 25])}
    if r.random() < .3:
        p['list_text'] = r.choice(['1. ', '- ', 'a) ', '(b) ', '[x] '])
        if r.random() < .5:
            p['list_indent'] = r.choice([22, 30])
        if r.random() < .5:
            p['list_style'] = G.style_dict(r, {'sizes': [7, 9, 12, 20], 'rise': False, 'bg': False})
    case = {'driver': r.choice(['rects', 'rects', 'text', 'cols', 'cell']), 'p': p, 'formats': formats}
    if case['driver'] == 'rects':
        w = r.choice([None, 150, 220, 400])
        case['rects'] = [[r.choice([0, 20, 33.3]), r.choice([0, 10, 44.4]), w or r.choice([130, 180, 250, 350]),
                          r.choice([0, 5, 12, 20, 31, 40, 60, 90, 150])] for _ in range(r.choice([1, 2, 4, 8]))]
    else:
        case['size'] = r.choice([[220, 150], [300, 200], [420, 300]])
        case['margin'] = r.choice([10, 20, 25.5])
    return case


def pkw(p):
    return {k: copy.deepcopy(p[k]) for k in ('text_align', 'line_height', 'indent', 'list_text', 'list_indent', 'list_style') if k in p}


def draw(case):
    """-> (bytes, boxes per page or None)"""
    from pdfme import PDF
    p = case['p']
    c = build.tuples(copy.deepcopy(p['content']))
    boxes = []
    with build.guard():
        if case['driver'] == 'rects':
            pdf = PDF(page_size=(500, 400), margin=0)
            pdf.formats = copy.deepcopy(case['formats'])
            rects = case['rects'] + [[20, 20, case['rects'][-1][2], 360]] * 60
            t = None
            for x, y, w, h in rects:
                pdf.add_page()
                if t is None:
                    t = pdf._text(c, width=w, height=h, x=x, y=y, **pkw(p))
                else:
                    t = pdf._text(t, width=w, height=h, x=x, y=y)
                boxes.append((x, 400 - y, w, h))
                if t.finished:
                    break
        else:
            m = case['margin']
            W, H = case['size']
            pdf = PDF(page_size=(W, H), margin=m)
            pdf.formats = copy.deepcopy(case['formats'])
            pdf.add_page()
            if case['driver'] == 'text':
                pdf.text(c, **pkw(p))
                boxes = [(m, H - m, W - 2 * m, H - 2 * m)] * len(pdf.pages)
            else:
                from .c08 import element
                e = element(p)
                if case['driver'] == 'cols':
                    pdf.content({'cols': {'count': 2, 'gap': 10}, 'content': [e]})
                else:
                    pdf.table([[e]])
        return build.output(pdf), boxes


def label_width(p, formats):
    rs = [r for r in model.runs(p['content'], model.TEXT_DEFAULTS, formats) if r[0]]
    st = dict(rs[0][1]) if rs else dict(model.TEXT_DEFAULTS)
    st.update(model.resolve(p.get('list_style'), formats))
    return sum(model.char_width(st, c) for c in p['list_text']), st['s']


def space(w):
    return model.char_width(w.sp or model.TEXT_DEFAULTS, ' ')


def widths(case, ctx):
    from pdfme import PDF
    st = {'f': case['f'], 's': case['s'], 'b': case['b'], 'i': case['i']}
    with build.guard():
        pdf = PDF(page_size=(300, 1200), margin=20)
        pdf.add_page()
        pdf.text({'.': '\n'.join(case['chars']), 'style': st}, text_align=case['al'])
    ow = obs.all_words(build.read(build.output(pdf)))
    if not compare_seq(ctx, case['chars'], [o.text for o in ow]):
        return
    base = metrics.base_font(case['f'], case['b'], case['i'])
    for o in ow:
        ctx.see('glyph_widths')
        f = o.chars[0][3].font
        if not obs.encoding_ok(f):
            ctx.bad('glyph-width', 'the widths of %s do not belong to its encoding %r', f.base, f.encoding)
            return
        w = metrics.width(base, o.text, case['s'])
        x = 280 - w if case['al'] == 'r' else 150 - w / 2
        if abs(o.x1 - x) > .03:
            ctx.bad('glyph-width', '%r of %s in size %g, %s aligned, starts at %.3f, expected %.3f', o.text, base, case['s'], case['al'], o.x1, x)
            return


def check(case, ctx):
    if case['driver'] == 'widths':
        return widths(case, ctx)
    p = case['p']
    data, boxes = draw(case)
    rd = build.read(data)
    ow = obs.all_words(rd)
    exp = model.par_words(p['content'], formats=case['formats'])
    if not exp:
        return
    rs = model.runs(p['content'], model.TEXT_DEFAULTS, case['formats'])
    li = 0
    lsize = 0
    got = list(ow)
    if 'list_text' in p:
        li, lsize = label_width(p, case['formats'])
        if rs[0][0].startswith('\n'):
            return
        li = p.get('list_indent', li)
        lab = got.pop(0) if got else None
        if lab is None or lab.text != p['list_text'].strip():
            ctx.bad('list-mark', 'the list mark %r is not drawn first (%r)', p['list_text'], lab)
            return
    if not compare_seq(ctx, [w.text for w in exp], [w.text for w in got]):
        return
    sizes = [st['s'] for t, st, _ in rs if t]
    top_size = max(sizes)
    rises = [st['s'] * st['r'] for t, st, _ in rs if t]
    up, down = max(0, max(rises)), max(0, -min(rises))
    L = p['line_height']
    al = p['text_align']
    f = .7 if al == 'j' else 1
    if case['driver'] == 'cols':
        cw = (case['size'][0] - 2 * case['margin'] - 10) / 2
        if max(e.width() for e in exp) + li + p['indent'] > cw:
            return              # words wider than a column: columns cannot be told apart by position
    # ---- lines
    lines = []
    for k, (e, o) in enumerate(zip(exp, got)):
        if lines:
            le, lo = lines[-1][-1]
            if lo.page == o.page and abs(lo.y - o.y) < .01 and o.x1 > lo.x1 and (case['driver'] != 'cols' or col(case, o) == col(case, lo)):
                lines[-1].append((e, o))
                continue
        lines.append([(e, o)])
    ctx.see('lines', len(lines))
    ctx.nontrivial = len(lines) >= 3
    if 'list_text' in p:
        ctx.see('list_labels')
        bx = box_of(case, boxes, lines[0][0][1])
        if abs(lab.y - lines[0][0][1].y) > .01 or lab.page != lines[0][0][1].page:
            ctx.bad('list-mark', 'list mark %r is not on the first line', lab)
        elif abs(lab.x1 - bx[0]) > EPS:
            ctx.bad('list-mark', 'list mark %r is not at the left edge %.2f', lab, bx[0])
    prev = prev_box = None
    for n, ln in enumerate(lines):
        e0, o0 = ln[0]
        first = n == 0
        nxt = lines[n + 1][0][0] if n + 1 < len(lines) else None
        forced = nxt is None or nxt.br > 0
        bx = box_of(case, boxes, o0)
        x0, top, W, H = bx
        left = x0 + li + (p['indent'] if first and al in 'lj' else 0)
        avail = W - li - (p['indent'] if first else 0)
        right = x0 + W
        nat = sum(e.width() for e, _ in ln) + f * sum(space(e) for e, _ in ln[1:])
        words = ' '.join(o.text for _, o in ln[:3])
        x1, x2 = o0.x1, ln[-1][1].x2
        ctx.see('first_lines', first)
        over = nat > avail + EPS
        if over and len(ln) > 1:
            ctx.bad('too-wide', 'line %d (%s...) needs %.2f in %.2f', n, words, nat, avail)
            continue
        if not over:
            if x1 < x0 - EPS or x2 > right + EPS:
                ctx.bad('outside', 'line %d (%s...) spans %.2f..%.2f, box %.2f..%.2f', n, words, x1, x2, x0, right)
                continue
            ctx.see('aligned_' + al)
            if al in 'lj' and abs(x1 - left) > EPS:
                ctx.bad('align', '%s-aligned line %d (%s...) starts at %.2f, not %.2f', al, n, words, x1, left)
            if al == 'r' and abs(x2 - right) > EPS:
                ctx.bad('align', 'right-aligned line %d (%s...) ends at %.2f, not %.2f', n, words, x2, right)
            if al == 'c' and abs((x1 + x2) - (x0 + li + right)) > 2 * EPS:
                ctx.bad('align', 'centred line %d (%s...) is at %.2f..%.2f in %.2f..%.2f', n, words, x1, x2, x0 + li, right)
            if al == 'j' and not forced and len(ln) > 1 and abs(x2 - right) > EPS:
                ctx.bad('align', 'justified line %d (%s...) ends at %.2f, not %.2f', n, words, x2, right)
            if al != 'j' or forced:
                full = sum(e.width() for e, _ in ln) + sum(space(e) for e, _ in ln[1:])
                if full <= avail and abs((x2 - x1) - full) > EPS:
                    ctx.bad('spacing', 'line %d (%s...) is %.2f wide, its text %.2f', n, words, x2 - x1, full)
        if not forced:
            ctx.see('greedy_checked')
            if nat + f * space(nxt) + nxt.width() < avail - EPS:
                ctx.bad('not-filled', 'line %d (%s...) uses %.2f of %.2f but %r (%.2f) would fit', n, words, nat, avail, nxt.text, nxt.width())
        # ---- vertical
        ms = max(e.maxsize() for e, _ in ln)
        rise, sunk = raised(ln)
        if first:
            ms, rise = max(ms, lsize), max(0, rise - max(0, lsize - ms))
        ctx.see('raised_lines', rise > 0 or sunk > 0)
        if first or prev.page != o0.page or prev_box != bx:
            if top is not None:
                if o0.y > top - ms - rise + EPS:
                    ctx.bad('above-box', 'line %d at %.2f with size %g is above the box top %.2f', n, o0.y, ms, top)
                if o0.y < top - (max(top_size, lsize) + up + down + 1.1 * L) - EPS:
                    ctx.bad('gap', 'first line in the box at %.2f is too far below its top %.2f', o0.y, top)
            if not first and prev.page != o0.page:
                ctx.see('box_breaks')
                need = L * (top_size + up + down + 1.1 * L)
                if prev_box[1] is not None and prev.page == o0.page - 1 and prev.y - prev_box[1] + prev_box[3] > need + EPS:
                    ctx.bad('early-break', 'line %d (%s...) moved to the next box though %.2f were left and it needs at most %.2f',
                            n, words, prev.y - prev_box[1] + prev_box[3], need)
        else:
            gap = prev.y - o0.y
            hi = L * (top_size + up + down + (1.1 * L if e0.br else 0)) + (max(0, e0.br - 1)) * 40
            least = L * ms + rise + (prev_sunk if e0.br < 2 else 0)
            if gap < least - EPS:
                ctx.bad('gap', 'line %d (%s...) is %.2f below the previous one, needs %.2f', n, words, gap, least)
            elif gap > hi + EPS:
                ctx.bad('gap', 'line %d (%s...) is %.2f below the previous one, at most %.2f expected', n, words, gap, hi)
        if top is not None and o0.y < top - H - EPS:
            ctx.bad('below-box', 'line %d (%s...) at %.2f is below the box bottom %.2f', n, words, o0.y, top - H)
        prev, prev_box, prev_sunk = o0, bx, sunk


def raised(ln):
    rs = [st.get('r', 0) * st['s'] for e, _ in ln for _, st, _ in e.chars]
    return max(0, max(rs)), max(0, -min(rs))


def col(case, o):
    m = case['margin']
    cw = (case['size'][0] - 2 * m - 10) / 2
    return 0 if o.x1 < m + cw + 5 else 1


def box_of(case, boxes, o):
    if boxes:
        return boxes[o.page]
    m = case['margin']
    W, H = case['size']
    if case['driver'] == 'cols':
        cw = (W - 2 * m - 10) / 2
        return (m + col(case, o) * (cw + 10), None, cw, None)
    return (m + 5.25, None, W - 2 * m - 10.5, None)
