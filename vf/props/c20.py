"""C20: TrueType text is embedded so that it is shown and read back faithfully."""
import copy
import io
import os

from .. import build, fontgen, metrics

CASES = {'quick': 1000, 'thorough': 30000}
NEED = {'characters': 50000, 'fonts_embedded': 500, 'missing': 500, 'bold_italic': 500, 'fallback_modes': 50, 'justified_lines': 300, 'right_lines': 100, 'lists': 100,
        'beyond_bmp': 100, 'shared_glyphs': 50, 'underlined': 200, 'documents': 600, 'added_fonts': 10, 'descriptors': 300, 'licences': 20, 'forbidden': 10}
RULE = ('fonts generated with random characters, glyph orders, widths, units and names (and the Open Sans files of the repository), registered for random modes or added to '
        'a document, drawn mixed with standard fonts in text, columns, tables and documents, several documents per process; every drawn character checked for the font file, glyph, '
        'width, extracted text and position. Non-trivial with 20 characters')
ASSUME = ['of characters sharing a glyph the lowest is the one read back', 'fonts have a space']


def gen(r, tier, i):
    if r.random() < .04:
        return {'refused': r.random() < .7, 'spec': dict(fontgen.spec(r, 'n'), os2=4), 'bits': r.random(), 'add': r.random() < .5}
    fam = r.choice(['FamA', 'FamA', 'My Font'])
    fonts = {}
    if r.random() < .1:
        fonts = {'n': 'OpenSans-Regular.ttf', 'b': 'OpenSans-Bold.ttf'}
        chars = 'abcdefghijABCDEFG0123()\\éßñαβωжя–—“”€' + '漢'
    else:
        for m in ['n'] + [m for m in ('b', 'i', 'bi') if r.random() < .5]:
            fonts[m] = fontgen.spec(r, m)
        chars = ''.join(s['chars'] for s in fonts.values())
    pool = [c for c in chars if c not in ' \xa0'] + list('漢Qq§')[:r.choice([0, 0, 2])]
    if r.random() < .3:
        pool += [c for f in fonts.values() if isinstance(f, dict) and f['share'] for c in '\u2c00']
    case = {'family': fam, 'fonts': fonts, 'driver': r.choice(['text', 'content', 'cols', 'table', 'doc']), 'add': r.random() < .35,
            'width': r.choice([200, 300, 400]), 'default': r.random() < .2, 'twice': r.random() < .3, 'paras': []}
    for _ in range(r.choice([1, 2, 4])):
        p = {'align': r.choice('lrcjj'), 'parts': [], 'indent': r.choice([0, 0, 15]), 'key': r.random() < .5}
        n = r.choice([2, 8, 25, 60])
        while n > 0:
            k = min(n, r.choice([1, 2, 6, 15, 40]))
            n -= k
            st = {'s': r.choice([8, 10, 11, 13.5])}
            if r.random() < .8 and not case['default']:
                st['f'] = fam
            elif case['default'] and r.random() < .3:
                st['f'] = r.choice(['Helvetica', 'Times'])
            for a in 'biu':
                if r.random() < .25:
                    st[a] = True
            std = st.get('f', fam if case['default'] else '') != fam
            ws = [''.join(r.choice('abcXYZ019(\\)é' if std else pool) for _ in range(r.choice([1, 2, 4, 7]))) for _ in range(k)]
            p['parts'].append([st, ws])
        if r.random() < .3:
            std = p['parts'][0][0].get('f', fam if case['default'] else '') != fam
            p['list'] = ''.join(r.choice('abcXYZ019(\\)' if std else pool) for _ in range(2))
        case['paras'].append(p)
    return case


def element(p):
    out = []
    for st, ws in p['parts']:
        t = ' '.join(ws) + ' '
        st = dict(st)
        if p['key']:
            key = '.' + ';'.join('%s:%s' % (k, int(v) if v is True else v) for k, v in st.items())
            out.append({key: t})
        else:
            out.append({'.': t, 'style': st})
    e = {'.': out, 'style': {'text_align': p['align'], 'indent': p['indent']}}
    if 'list' in p:
        e['style'].update(list_text=p['list'] + ' ')
    return e


def draw(case, files):
    from pdfme import PDF, build_pdf
    fam = case['family']
    w = case['width']
    kw = {'font_family': fam} if case['default'] else {}
    els = [element(p) for p in case['paras']]
    if case['driver'] == 'doc':
        buf = io.BytesIO()
        build_pdf({'style': dict({'page_size': [w, 300], 'margin': 20}, **({'f': fam} if case['default'] else {})), 'sections': [{'content': els}]}, buf)
        return buf.getvalue()
    pdf = PDF(page_size=[w, 300], margin=20, **kw)
    if case['add']:
        for m, f in files.items():
            pdf.add_font(f, fam, m)
    pdf.add_page()
    if case['driver'] == 'text':
        for p, e in zip(case['paras'], els):
            a = {k: e['style'][k] for k in ('text_align', 'indent', 'list_text') if k in e['style']}
            pdf.text(e['.'], **a)
    elif case['driver'] == 'table':
        pdf.table([[e] for e in els])
    elif case['driver'] == 'cols':
        pdf.content({'cols': {'count': 2, 'gap': 10}, 'content': els})
    else:
        pdf.content({'content': els})
    buf = io.BytesIO()
    pdf.output(buf)
    return buf.getvalue()


def licence(case, ctx):
    """Fonts whose licence forbids embedding (a subset) are refused, others are not."""
    from pdfme import PDF
    from pdfme.fonts import PDFFont
    forbid = [2, 0x100, 0x200, 0x300, 0x104, 0x208]
    allow = [0, 4, 8]
    ft = (forbid if case['refused'] else allow)[int(case['bits'] * (6 if case['refused'] else 3))]
    s = dict(case['spec'], fsType=ft)
    path = os.path.join(str(ctx.scratch), 'lic%d-%d.ttf' % (s['seed'], ft))
    fontgen.build(s, path)
    ctx.see('licences')
    ctx.see('forbidden', case['refused'])
    try:
        pdf = PDF()
        if case['add']:
            pdf.add_font(path, 'Lic', 'n')
        else:
            PDFFont.register('Lic', 'n', path)
            pdf = PDF()
        pdf.add_page()
        pdf.text({'.': 'aea', 'style': {'f': 'Lic'}})
        pdf.output(io.BytesIO())
        raised = None
    except Exception as e:
        raised = e
    finally:
        PDFFont.registered_fonts.pop(('Lic', 'n'), None)
    if case['refused'] and raised is None:
        ctx.bad('licence-ignored', 'a font of fsType %#x was embedded', ft)
    elif not case['refused'] and raised is not None:
        ctx.bad('licence-refused', 'a font of fsType %#x was refused: %r', ft, raised)


def descriptor(ctx, fd, src):
    """The font descriptor tells about the font what the font file does."""
    ctx.see('descriptors')
    n = lambda k: float(fd.get(k))
    for key, want in (('Ascent', src.ascent), ('Descent', src.descent), ('CapHeight', src.cap), ('ItalicAngle', src.angle)):
        if want is not None and abs(n(key) - want) > 1:
            ctx.bad('descriptor', '%s is %g in the font descriptor of %s and %g in the font', key, n(key), src.name, want)
    box = [float(v) for v in fd.get('FontBBox')]
    if any(abs(a - b) > 1 for a, b in zip(box, src.bbox)):
        ctx.bad('descriptor', 'FontBBox is %r in the font descriptor of %s and %r in the font', box, src.name, src.bbox)
    fl = int(fd.get('Flags'))
    if bool(fl & 64) != (src.angle != 0) or bool(fl & 1) != src.fixed or src.weight is not None and bool(fl & 262144) != (src.weight >= 600) or not fl & 4:
        ctx.bad('descriptor', 'Flags are %d in the font descriptor of %s (angle %g, fixed %r, weight %r)', fl, src.name, src.angle, src.fixed, src.weight)


def check(case, ctx):
    if 'refused' in case:
        return licence(case, ctx)
    from pdfme.fonts import PDFFont
    import pdfme
    fam = case['family']
    files = {}
    for m, s in case['fonts'].items():
        if isinstance(s, str):
            files[m] = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(pdfme.__file__))), 'fonts', s)
        else:
            files[m] = os.path.join(str(ctx.scratch), 'f%d%s.ttf' % (s['seed'], m))
            fontgen.build(s, files[m])
    data = {m: open(f, 'rb').read() for m, f in files.items()}
    real = {m: fontgen.load(d) for m, d in data.items()}
    add = case['add'] and case['driver'] != 'doc' and not any(p['key'] for p in case['paras'])
    try:
        if not add:
            for m, f in files.items():
                PDFFont.register(fam, m, f)
        with build.guard():
            docs = [draw(dict(case, add=add), files) for _ in range(2 if case['twice'] else 1)]
    finally:
        for m in files:
            PDFFont.registered_fonts.pop((fam, m), None)
    ctx.see('added_fonts', add)
    for d in docs:
        ctx.see('documents')
        if not one(case, ctx, build.read(d), real):
            return


def expected(case):
    """[[(char, style, new word)]] per paragraph, marks of lists first."""
    out = []
    for p in case['paras']:
        cs = []
        if 'list' in p:
            st = dict(p['parts'][0][0])
            cs += [(c, st, k == 0) for k, c in enumerate(p['list'])]
        for st, ws in p['parts']:
            for w in ws:
                cs += [(c, st, k == 0) for k, c in enumerate(w)]
        out.append(cs)
    return out


def one(case, ctx, rd, real):
    fam = case['family']
    drawn = []
    emb = {}
    rules = []
    for page in rd.pages:
        for it in page.items:
            if it.kind == 'text':
                f = it.font
                if f.type0 and id(f) not in emb:
                    fd = rd.res(f.cid['FontDescriptor'])
                    e = emb[id(f)] = fontgen.load(rd.res(fd['FontFile2']).data())
                    ctx.see('fonts_embedded')
                    src = [f for f in real.values() if f.name == e.name]
                    if len(src) == 1:
                        descriptor(ctx, fd, src[0])
                    if len({f.base, str(f.cid.get('BaseFont')), str(fd.get('FontName'))}) > 1:
                        ctx.bad('names', 'a font is called %r, %r and %r', f.base, str(f.cid.get('BaseFont')), str(fd.get('FontName')))
                    if e.name and ''.join(c for c in e.name if c.isalnum()) != ''.join(c for c in f.base if c.isalnum()):
                        ctx.bad('font-name', 'the font file is called %r and the font %r', e.name, f.base)
                    if f.w_conflicts:
                        ctx.bad('w-conflict', 'widths of a glyph differ: %r', f.w_conflicts[:3])
                        return
                for ch, off, w, code in it.chars:
                    drawn.append((ch, code, it.x + off, w, it, page.index))
            elif it.kind in ('line', 'fill'):
                rules.append((page.index, it))
    ink = []
    sp = {}
    for k, d in enumerate(drawn):
        if d[0] in ' \xa0':
            sp[len(ink)] = True
        else:
            ink.append(d)
    exp = expected(case)
    flat = [c for p in exp for c in p]
    ctx.nontrivial = len(flat) > 20
    modes = lambda st: (('b' if st.get('b') else '') + ('i' if st.get('i') else '')) or 'n'
    if len(ink) != len(flat):
        ctx.bad('characters', '%d characters drawn, expected %d', len(ink), len(flat))
        return
    k = 0
    for p, cs in zip(case['paras'], exp):
        part = ink[k:k + len(cs)]
        for (c, st, new), (ch, code, x, w, it, pg) in zip(cs, part):
            family = st.get('f', fam if case['default'] else 'Helvetica')
            ctx.see('characters')
            if abs(it.size - st['s']) > .01:
                ctx.bad('size', '%r drawn in size %g, expected %g', c, it.size, st['s'])
                return
            if family != fam:
                base = metrics.base_font(family, st.get('b'), st.get('i'))
                if it.base != base or ch != c:
                    ctx.bad('standard', '%r (%s) drawn as %r in %s', c, base, ch, it.base)
                    return
                continue
            m = modes(st)
            ctx.see('bold_italic', m != 'n')
            if m not in real:
                ctx.see('fallback_modes')
                m = 'n'
            font = real[m]
            if not it.font.type0 or emb[id(it.font)].shapes != font.shapes:
                ctx.bad('file', '%r, style %r, is drawn in %s, not with the file registered for %r', c, st, it.base, m)
                return
            gid = font.gid.get(ord(c), 0)
            if code != gid:
                ctx.bad('glyph', '%r is drawn with glyph %d, the font has it at %d', c, code, gid)
                return
            if abs(it.font.width(code) - font.widths[gid]) > 1e-5:
                ctx.bad('width', 'the file gives %r the width %g, the font %g', c, it.font.width(code), font.widths[gid])
                return
            if gid == 0:
                ctx.see('missing')
            else:
                ctx.see('beyond_bmp', ord(c) > 0xffff)
                ctx.see('shared_glyphs', font.first[gid] != ord(c))
                if ch != chr(font.first[gid]):
                    ctx.bad('extract', '%r is read back as %r', c, ch)
                    return
                if it.font.tounicode_all.get(code, {ch}) != {ch}:
                    ctx.bad('extract-twice', 'glyph %d is read back as %r', code, it.font.tounicode_all[code])
                    return
        if not layout(case, ctx, p, cs, part, rules, real):
            return
        k += len(cs)
    return True


def layout(case, ctx, p, cs, ink, rules, real):
    nl = len(p['list']) if 'list' in p else 0
    ctx.see('lists', nl > 0)
    # adjacency inside words
    lines = []
    w0 = case['width'] - 40
    for k, ((c, st, new), d) in enumerate(zip(cs, ink)):
        ch, code, x, w, it, pg = d
        if k and not new:
            q = ink[k - 1]
            if q[5] != pg or abs(q[4].y - it.y) > .01:
                if k >= nl:
                    ctx.bad('broken-word', 'a word is broken before %r', c)
                    return
            elif abs(q[2] + q[3] - x) > .05:
                ctx.bad('adjacency', '%r starts at %.2f, the character before ends at %.2f', c, x, q[2] + q[3])
                return
        if k < nl:
            continue
        if st.get('u') and abs(w) > .5:
            ctx.see('underlined')
            hit = False
            for rp, ru in rules:
                if rp != pg:
                    continue
                lo, hi = min(ru.x1, ru.x2), max(ru.x1, ru.x2)
                if lo - .1 <= x and hi + .1 >= x + w and abs(ru.y1 - (it.y - .07 * it.size)) < .3 * it.size:
                    hit = True
                    break
            if not hit:
                ctx.bad('underline', '%r at %.1f,%.1f is not underlined', c, x, it.y)
                return
        if not lines or lines[-1][-1][1][5] != pg or abs(lines[-1][-1][1][4].y - it.y) > .01 or x < lines[-1][-1][1][2] or \
                case['driver'] == 'cols' and (x < 25 + (w0 - 10) / 2) != (lines[-1][-1][1][2] < 25 + (w0 - 10) / 2):
            lines.append([])
        lines[-1].append(((c, st, new), d))
    # where the column is
    w = case['width'] - 40
    left = 20
    if case['driver'] == 'table':
        left, w = None, w
    wide = word = 0
    for (c, st, new), d in zip(cs[nl:], ink[nl:]):
        word = d[3] + (0 if new else word)
        wide = max(wide, word)
    for n, l in enumerate(lines):
        x1, x2 = l[0][1][2], l[-1][1][2] + l[-1][1][3]
        words = sum(e[0][2] for e in l)
        if case['driver'] == 'cols':
            cw = (w - 10) / 2
            a = 20 if x1 < 20 + cw else 20 + cw + 10
            b = a + cw
        elif case['driver'] == 'table':
            a, b = 20 + 5.25, 20 + w - 5.25
        else:
            a, b = 20, 20 + w
        tol = .6 if case['driver'] == 'table' else .1
        if wide + p['indent'] + sum(d[3] for d in ink[:nl]) + 15 > b - a:
            break   # words wider than a column
        if words > 1 and x2 > b + tol + .3:
            ctx.bad('overflow', 'a line of %d words ends at %.2f, its column at %.2f', words, x2, b)
            return
        if x2 - x1 > b - a - 20:
            if x2 - x1 > b - a:
                continue
        if p['align'] == 'r':
            ctx.see('right_lines')
            if abs(x2 - b) > tol:
                ctx.bad('right', 'line ends at %.2f, its column at %.2f', x2, b)
                return
        elif p['align'] == 'j' and n < len(lines) - 1 and words > 1:
            ctx.see('justified_lines')
            if abs(x2 - b) > tol:
                ctx.bad('justify', 'justified line ends at %.2f, its column at %.2f', x2, b)
                return
        if p['align'] == 'l':
            for (e, d), (e2, d2) in zip(l, l[1:]):
                if e2[2]:
                    st = e[1]
                    family = st.get('f', case['family'] if case['default'] else 'Helvetica')
                    m = (('b' if st.get('b') else '') + ('i' if st.get('i') else '')) or 'n'
                    sw = real[m if m in real else 'n'].width(' ') * st['s'] if family == case['family'] else \
                        metrics.width(metrics.base_font(family, st.get('b'), st.get('i')), ' ', st['s'])
                    if abs(d2[2] - d[2] - d[3] - sw) > .05:
                        ctx.bad('space', 'gap of %.2f before %r, the space is %.2f wide', d2[2] - d[2] - d[3], e2[0], sw)
                        return
    return True
