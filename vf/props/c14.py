"""C14: images keep their pixels, their proportions and their place."""
import io
import os
import random
import struct

from .. import build, docgen, gen as G, obs

CASES = {'quick': 11000, 'thorough': 330000}
NEED = {'images_drawn': 10000, 'embedded': 4000, 'jpeg_exact': 3000, 'png_compared': 900, 'cmyk': 300, 'gray': 300, 'tricky_jpeg': 500, 'streams': 1500, 'paths': 1500,
        'drawn_again': 1500, 'placed': 4000, 'beside': 500, 'after_image': 1500, 'in_tables': 1000, 'in_boxes': 1500, 'shrunk': 300, 'after_box': 300,
        'after_table': 300, 'exact_fit': 50}
RULE = ('random JPEG and PNG pictures of every mode and source, drawn directly (position, size, move), in tables and content boxes, again on the same and on other '
        'pages. Non-trivial with 2 or more drawings')
ASSUME = ['pictures are opaque with 8 bits per channel', 'the image name identifies the picture', 'images fit in a page']
EPS = .06


# ---- pictures
def pictures(r, many=False):
    out = []
    for k in range(r.choice([11, 13, 26]) if many else r.choice([1, 2, 3, 5])):
        fmt = r.choice(['jpg', 'jpg', 'jpeg', 'png'])
        mode = r.choice(['RGB', 'RGB', 'L', 'CMYK'] if fmt != 'png' else ['RGB', 'RGBA', 'L', 'P', 'LA', '1'])
        out.append({'w': r.choice([8, 12, 16, 20, 24, 30, 40, 47]) + k, 'h': r.choice([8, 13, 20, 24, 33, 40]), 'fmt': fmt, 'mode': mode, 'seed': r.randrange(6) + 10 * k,
                    'tricky': r.choice([None, None, 'app', 'com', 'restart', 'noadobe', 'tables', 'big']) if fmt != 'png' else None,
                    'src': r.choice(['str', 'str', 'path', 'stream', 'both']), 'ext': r.choice([None, None, fmt, fmt.upper(), '.' + fmt])})
    return out


def picture(spec):
    from PIL import Image
    rr = random.Random(spec['seed'])
    w, h = spec['w'], spec['h']
    c = [[rr.randrange(256) for _ in range(3)] for _ in range(4)]
    px = []
    for y in range(h):
        b = y / (h - 1)
        for x in range(w):
            a = x / (w - 1)
            px.append(tuple(int((c[0][i] * (1 - a) + c[1][i] * a) * (1 - b) + (c[2][i] * (1 - a) + c[3][i] * a) * b) for i in range(3)))
    im = Image.new('RGB', (w, h))
    im.putdata(px)
    m = spec['mode']
    if m == 'P':
        return im.convert('P', palette=Image.ADAPTIVE)
    if m in ('RGBA', 'LA'):
        im = im.convert('L' if m == 'LA' else 'RGB')
        im.putalpha(255)
        return im
    return im.convert(m)


def encode(spec):
    rr = random.Random(spec['seed'])
    b = io.BytesIO()
    im = picture(spec)
    if spec['fmt'] == 'png':
        im.save(b, 'PNG')
        return b.getvalue()
    kw = {'quality': 90, 'progressive': spec['seed'] % 3 == 0}
    t = spec['tricky']
    if t == 'restart':
        kw['restart_marker_rows'] = 1
    im.save(b, 'JPEG', **kw)
    d = b.getvalue()
    if t in ('app', 'com'):
        # a segment that holds what looks like another frame header
        fake = b'\xff\xd8\xff\xc0\x00\x11\x08\x00\x07\x00\x09\x01\x01\x11\x00' + bytes(range(200))
        d = d[:2] + (b'\xff\xe1' if t == 'app' else b'\xff\xfe') + struct.pack('>H', len(fake) + 2) + fake + d[2:]
    if t == 'big':
        # a colour profile or a preview in long segments
        for n in [65533, 40000, 32768][:1 + spec['seed'] % 3]:
            d = d[:2] + b'\xff\xe2' + struct.pack('>H', n + 2) + bytes(rr.randrange(256) for _ in range(50)) * (n // 50) + bytes(n % 50) + d[2:]
    if t == 'noadobe' and spec['mode'] == 'CMYK':
        p = d.find(b'\xff\xee')
        d = d[:p] + d[p + 2 + struct.unpack('>H', d[p + 2:p + 4])[0]:]
    if t == 'tables':
        # every other segment before the frame header
        segs, i = [], 2
        while d[i + 1] != 0xDA:
            n = 2 + d[i + 2] * 256 + d[i + 3]
            segs.append(d[i:i + n])
            i += n
        segs.sort(key=lambda s: s[1] in (0xC0, 0xC1, 0xC2))
        d = d[:2] + b''.join(segs) + d[i:]
    return d


class Pic:
    def __init__(self, spec, k, scratch):
        self.spec = spec
        self.k = k
        self.data = encode(spec)
        self.dir = os.path.join(scratch, 'p%d_%d' % (os.getpid(), k))
        os.mkdir(self.dir)
        self.path = os.path.join(self.dir, 'picture.' + spec['fmt'])
        with open(self.path, 'wb') as f:
            f.write(self.data)
        self.ratio = spec['h'] / spec['w']
        self.n = 0

    def args(self, ctx):
        """How this picture is handed over this time."""
        import pathlib
        self.n += 1
        s = self.spec['src']
        if s == 'both':
            s = ['str', 'path'][self.n % 2]
        ctx.see({'str': 'strings', 'path': 'paths', 'stream': 'streams'}[s])
        if s == 'stream':
            b = io.BytesIO(self.data)
            if self.n % 3 == 0:
                b.read()    # as after writing the picture into it
                ctx.see('streams_at_end')
            return {'image': b, 'extension': self.spec['ext'] or self.spec['fmt'], 'image_name': 'stream %d' % self.k}
        a = {'image': self.path if s == 'str' else pathlib.Path(self.path)}
        if self.spec['ext']:
            a['extension'] = self.spec['ext']
        return a


# ---- cases
def gen(r, tier, i):
    many = r.random() < .03
    pics = pictures(r, many)
    toks = G.Toks(r, special=0, maxlen=4)
    if many:
        # a page full of different pictures, some of them more than once
        ops = [['image', r.randrange(len(pics)) if r.random() < .2 else p, {'x': 30 + 70 * (p % 5), 'y': 30 + 60 * (p // 5), 'width': 40}] for p in range(len(pics))]
        for p in range(3):
            ops.insert(r.randrange(len(ops) + 1), ['page']) if r.random() < .2 else None
        return {'kind': 'ops', 'pics': pics, 'size': [420, 595], 'margin': 20, 'ops': ops}
    if r.random() < .4:
        return flow_case(r, pics, toks)
    w, h = r.choice([300, 420.5, 612]), r.choice([400, 595.3, 842])
    m = r.choice([20, 33.3, 56.693])
    W = w - 2 * m
    ops = []
    est = m
    x = m

    def ok(width):
        return [k for k, s in enumerate(pics) if width * s['h'] / s['w'] < 140]
    for _ in range(r.choice([2, 4, 8, 14])):
        k = r.random()
        if est > h - m - 160:
            ops.append(['page'])
            est, x = m, m
        if k < .6:
            p = r.randrange(len(pics))
            ratio = pics[p]['h'] / pics[p]['w']
            a = {}
            q = r.random()
            if q < .5:
                a['width'] = round(r.uniform(10, min(60, w - m - x - 1)), 2) if w - m - x > 12 else 5
                iw, ih = a['width'], a['width'] * ratio
            elif q < .8:
                a['height'] = round(r.uniform(8, 50), 2)
                iw, ih = a['height'] / ratio, a['height']
            elif q < .9:
                a['width'], a['height'] = round(r.uniform(10, 50), 2), round(r.uniform(10, 50), 2)
                iw, ih = a['width'], a['height']
            else:
                iw, ih = W, W * ratio
                if est + ih > h - m:
                    a['width'] = 20
                    iw, ih = 20, 20 * ratio
            if r.random() < .3 and 'width' in a:
                a['x'] = x = round(r.uniform(m, w - m - iw), 2)
            if r.random() < .2:
                a['y'] = round(r.uniform(m, h - m - ih), 2)
                est = a['y']
            mv = r.choice([None, None, 'bottom', 'next'])
            if mv:
                a['move'] = mv
            if mv == 'next':
                x += iw
                if x > w - m - 80:
                    del a['move']
                    mv = None
            if mv != 'next':
                est += ih
            ops.append(['image', p, a])
        elif k < .75:
            ops.append(['text', toks.word()])
            est += 13
            x = m
        elif k < .85:
            n = r.choice([2, 3, 4])
            ops.append(['table', [[r.choice(ok(W / n)) if ok(W / n) and r.random() < .5 else toks.word() for _ in range(n)]]])
            est += max([W / n * pics[c]['h'] / pics[c]['w'] for c in ops[-1][1][0] if isinstance(c, int)] + [15]) + 12
            x = m
        elif k < .95:
            els = [r.choice(ok(80)) if ok(80) and r.random() < .5 else toks.word() for _ in range(r.choice([1, 2, 3]))]
            mg = {str(j): [r.choice([0, 10]), W - r.choice([20, 40])] for j, e in enumerate(els) if isinstance(e, int)}
            mg = {j: [a_, b_ - a_] for j, (a_, b_) in mg.items()}
            if est + sum(20 if isinstance(e, str) else 40 * pics[e]['h'] / pics[e]['w'] + 6 for e in els) > h - m - 20:
                ops.append(['page'])
                est = m
            ops.append(['box', els, mg])
            est += sum(20 if isinstance(e, str) else 40 * pics[e]['h'] / pics[e]['w'] + 6 for e in els)
            x = m
        else:
            n = sum(o[0] == 'page' for o in ops)
            if n:
                ops += [['goto', r.randrange(n)], ['image', r.randrange(len(pics)), {'x': m, 'y': m + r.choice([0, 50]), 'width': 12.5}], ['goto', n]]
    return {'kind': 'ops', 'pics': pics, 'size': [w, h], 'margin': m, 'ops': ops}


def flow_case(r, pics, toks):
    W, H = r.choice([100, 160, 240]), r.choice([100, 120, 200, 300])
    m = r.choice([10, 20])
    els = []
    for s in pics:
        if s['h'] / s['w'] * W > H:
            s['w'] = max(s['w'], -(-8 * W // H))
            s['h'] = max(8, int(H / W * s['w'] * r.uniform(.3, 1)))
    if r.random() < .4:
        # exactly as high as the page
        pics[0]['w'], pics[0]['h'] = W // 4, H // 4
    for _ in range(r.choice([2, 5, 9, 14])):
        if r.random() < .45:
            els.append({'text': toks.words(r.choice([1, 5, 20])), 'style': {'margin_bottom': r.choice([0, 5, 8])}})
        else:
            st = {}
            if r.random() < .5:
                st['min_height'] = r.choice([5, 15, 30, 60])
            if r.random() < .5:
                st['image_place'] = r.choice(['normal', 'flow'])
            for k in ('margin_left', 'margin_right', 'margin_top', 'margin_bottom'):
                if r.random() < .2:
                    st[k] = r.choice([3, 8])
            els.append({'pic': r.randrange(len(pics)), 'style': st})
    return {'kind': 'flow', 'pics': pics, 'size': [W + 2 * m, H + 2 * m], 'margin': m, 'els': els, 'table': r.random() < .2}


# ---- checking
def embedded(ctx, rd, pics, used):
    """The image objects of the file, matched with the pictures; -> {object ref: picture}"""
    from PIL import Image
    objs = {n: o for n, o in rd.objs.items() if getattr(o, 'd', None) and o.d.get('Subtype') == 'Image'}
    if len(objs) != len(used):
        ctx.bad('embedded-count', '%d different pictures were drawn, the file holds %d images', len(used), len(objs))
    by = {}
    for n, o in objs.items():
        ctx.see('embedded')
        d = o.d
        if d.get('Type') != 'XObject' or d.get('Filter') not in ('DCTDecode', ['DCTDecode']) or d.get('BitsPerComponent') != 8:
            ctx.bad('image-dict', 'object %d: %r', n, d)
            return {}
        p = next((p for p in used if p.data == o.raw), None)
        try:
            im = Image.open(io.BytesIO(o.raw))
            im.load()
        except Exception as e:
            ctx.bad('image-data', 'the data of image object %d cannot be decoded: %s', n, e)
            return {}
        if p is None:
            cands = [q for q in used if q.spec['fmt'] == 'png' and q not in by.values() and (q.spec['w'], q.spec['h']) == im.size]
            diffs = sorted((diff(im.convert('RGB'), picture(q.spec).convert('RGB')), q.k, q) for q in cands)
            if not diffs or diffs[0][0] > (45 if diffs[0][2].spec['mode'] == '1' else 9):
                ctx.bad('picture', 'image object %d (%dx%d) shows none of the pictures drawn (nearest %r)', n, *im.size, diffs[:1])
                return {}
            p = diffs[0][2]
            ctx.see('png_compared')
        else:
            ctx.see('jpeg_exact')
            ctx.see('tricky_jpeg', p.spec['tricky'] in ('app', 'com', 'restart'))
        if (d.get('Width'), d.get('Height')) != (p.spec['w'], p.spec['h']):
            ctx.bad('dimensions', 'a picture of %dx%d is declared %rx%r', p.spec['w'], p.spec['h'], d.get('Width'), d.get('Height'))
        cs = {'L': 'DeviceGray', 'RGB': 'DeviceRGB', 'CMYK': 'DeviceCMYK'}[im.mode]
        ctx.see({'L': 'gray', 'RGB': 'rgb', 'CMYK': 'cmyk'}[im.mode])
        if d.get('ColorSpace') != cs:
            ctx.bad('color-space', 'a picture of mode %s is declared %r', im.mode, d.get('ColorSpace'))
        inverted = im.mode == 'CMYK' and 'adobe' in im.info
        if d.get('Decode') != ([1, 0] * 4 if inverted else None):
            ctx.bad('decode', 'a picture of mode %s (%s) is declared with Decode %r', im.mode, 'inverted' if inverted else 'as it is', d.get('Decode'))
        for k in ('SMask', 'Mask', 'ImageMask'):
            if d.get(k) is not None:
                ctx.bad('mask', 'an opaque picture has %s', k)
        by[n] = p
    return by


def diff(a, b):
    x, y = a.tobytes(), b.tobytes()
    return sum(abs(p - q) for p, q in zip(x, y)) / len(x)


def drawn(ctx, rd, by):
    """Painted things of every page in order, images with their picture."""
    out = []
    for pg in rd.pages:
        ev = []
        for it in pg.items:
            if it.kind == 'image':
                p = by.get(it.ref[0])
                if p is None:
                    continue
                if abs(it.m[1]) > 1e-6 or abs(it.m[2]) > 1e-6 or it.w <= 0 or it.h <= 0:
                    ctx.bad('flipped', 'an image is drawn with the matrix %r', it.m)
                    continue
                it.pic = p
                ctx.see('images_drawn')
        out.append(pg)
    return out


def check(case, ctx):
    pics = [Pic(s, k, ctx.scratch) for k, s in enumerate(case['pics'])]
    try:
        (ops if case['kind'] == 'ops' else flow)(case, ctx, pics)
    finally:
        for p in pics:
            os.unlink(p.path)
            os.rmdir(p.dir)


def ops(case, ctx, pics):
    from pdfme import PDF
    w, h = case['size']
    m = case['margin']
    log = []            # (page, op)
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=m)
        pdf.add_page()
        for op in case['ops']:
            pg = pdf.page_index
            if op[0] == 'page':
                pdf.add_page()
                log.append((pdf.page_index, op))
                continue
            if op[0] == 'goto':
                pdf.page_index = op[1]
                continue
            if op[0] == 'image':
                pdf.image(**pics[op[1]].args(ctx), **op[2])
            elif op[0] == 'text':
                pdf.text(op[1])
            elif op[0] == 'table':
                pdf.table([[pics[c].args(ctx) if isinstance(c, int) else c for c in row] for row in op[1]], style={'cell_fill': '#eef'})
            else:
                pdf.content({'content': [dict(pics[e].args(ctx), style={'margin_left': op[2][str(j)][0], 'margin_right': op[2][str(j)][1]}) if isinstance(e, int) else e
                                         for j, e in enumerate(op[1])]})
            log.append((pg, op))
    rd = build.read(build.output(pdf))
    used = [p for p in pics if p.n]
    ctx.nontrivial = sum(p.n for p in pics) > 1
    ctx.see('drawn_again', sum(max(0, p.n - 1) for p in pics))
    by = embedded(ctx, rd, pics, used)
    if ctx.v:
        return
    # drawing order on every page follows the operations made on it
    pos = {}
    cur = {}
    items = {}
    for pg in drawn(ctx, rd, by):
        ev = [i for i in pg.items if i.kind in ('image', 'fill', 'line')] + obs.page_words(pg)
        items[pg.index] = sorted(ev, key=lambda e: e.seq)
        pos[pg.index] = 0
        cur[pg.index] = (m, m, m)       # x, lowest and highest y of the next element (from the top)
    last = {}

    def take(pg, kinds, n):
        """The next n things of these kinds on the page, in order."""
        out = []
        while len(out) < n:
            if pos[pg] >= len(items[pg]):
                return None
            e = items[pg][pos[pg]]
            pos[pg] += 1
            if getattr(e, 'kind', 'word') in kinds:
                out.append(e)
        return out
    for pg, op in log:
        if op[0] == 'page':
            continue
        x, lo, hi = cur[pg]
        if op[0] == 'image':
            a = op[2]
            p = pics[op[1]]
            got = take(pg, ('image', 'word'), 1)
            if not got or getattr(got[0], 'pic', None) is not p:
                ctx.bad('missing', 'page %d: picture %d is not drawn in its place in the order, but %r', pg, p.k, got)
                return
            i = got[0]
            ew = a.get('width', a['height'] / p.ratio if 'height' in a else w - 2 * m)
            eh = a.get('height', ew * p.ratio)
            if abs(i.w - ew) > EPS or abs(i.h - eh) > EPS:
                ctx.bad('size', 'picture %d is drawn %.2f x %.2f, expected %.2f x %.2f (%r)', p.k, i.w, i.h, ew, eh, a)
            if 'x' in a:
                x = a['x']
            if 'y' in a:
                lo = hi = a['y']
            if abs(i.x - x) > EPS:
                ctx.bad('x', 'picture %d starts at x=%.2f, expected %.2f', p.k, i.x, x)
            top = h - i.y - i.h
            if not lo - EPS <= top <= hi + EPS:
                ctx.bad('y' if 'y' in a else 'cursor', 'the top of picture %d lies %.2f below the top of the page, expected %.2f..%.2f', p.k, top, lo, hi)
            ctx.see('placed')
            ctx.see('after_' + last.get(pg, 'start'))
            if a.get('move') == 'next':
                cur[pg] = (x + ew, top, top)
                ctx.see('beside')
            else:
                cur[pg] = (x, top + eh, top + eh)
            last[pg] = 'image'
        elif op[0] == 'text':
            got = take(pg, ('image', 'word'), 1)
            if not got or getattr(got[0], 'text', '') != op[1]:
                ctx.bad('missing', 'page %d: the text %r is not drawn in its place in the order, but %r', pg, op[1], got)
                return
            o = got[0]
            b = h - o.y
            if abs(o.x1 - m) > EPS or not lo + 11 - EPS <= b <= hi + 12.6 + EPS:
                ctx.bad('text-place', 'the text %r starts at x=%.2f, %.2f below the top; the element before it ends at %.2f', op[1], o.x1, b, lo)
            ctx.see('after_' + last.get(pg, 'start'))
            cur[pg] = (m, b - EPS, b + EPS)
            last[pg] = 'text'
        elif op[0] == 'table':
            # fills and lines are drawn first
            start = pos[pg]
            n = sum(len(row) for row in op[1])
            fills = take(pg, ('fill', 'word', 'image'), n)
            if not fills or any(f.kind != 'fill' for f in fills if not isinstance(f, obs.OWord)) or any(isinstance(f, obs.OWord) for f in fills):
                ctx.bad('missing', 'page %d: the table is not drawn in its place in the order, but %r', pg, fills)
                return
            top = h - max(f.y2 for f in fills)
            bottom = h - min(f.y1 for f in fills)
            if not lo - .6 <= top <= hi + .6:
                ctx.bad('table-place', 'the table starts %.2f below the top, the element before it ends at %.2f', top, lo)
            ctx.see('after_' + last.get(pg, 'start'))
            cells = op[1][0]
            k = len(cells)
            got = take(pg, ('image', 'word'), k)
            for j, c in enumerate(cells):
                g = got[j] if got else None
                if isinstance(c, int):
                    if g is None or getattr(g, 'pic', None) is not pics[c]:
                        ctx.bad('missing', 'page %d: picture %d of the table is not drawn in its place, but %r', pg, c, g)
                        return
                    cw = (w - 2 * m) / k
                    ctx.see('in_tables')
                    if abs(g.x - (m + cw * j + 5.25)) > .6 or abs(g.w - (cw - 10.5)) > .6 or abs(g.h - g.w * pics[c].ratio) > EPS or abs(h - g.y2 - top - 5.25) > .6:
                        ctx.bad('table-image', 'picture %d lies at %.2f..%.2f x %.2f..%.2f in the cell %d of a table from %.2f below the top', c, g.x, g.x2, g.y, g.y2, j, top)
                    if h - g.y > bottom + EPS:
                        ctx.bad('table-image', 'picture %d ends below its row', c)
                elif g is None or getattr(g, 'text', '') != c:
                    ctx.bad('missing', 'page %d: the text %r of the table is not drawn in its place, but %r', pg, c, g)
                    return
            cur[pg] = (m, bottom - .6, bottom + .6)
            last[pg] = 'table'
        else:
            got = take(pg, ('image', 'word'), len(op[1]))
            y = lo
            slack = hi - lo
            for j, e in enumerate(op[1]):
                g = got[j] if got else None
                if isinstance(e, int):
                    if g is None or getattr(g, 'pic', None) is not pics[e]:
                        ctx.bad('missing', 'page %d: picture %d of the box is not drawn in its place, but %r', pg, e, g)
                        return
                    ml, mr = op[2][str(j)]
                    ctx.see('in_boxes')
                    ew = w - 2 * m - ml - mr
                    top = h - g.y2
                    if abs(g.x - m - ml) > EPS or abs(g.w - ew) > EPS or abs(g.h - ew * pics[e].ratio) > EPS:
                        ctx.bad('box-image', 'picture %d lies at %.2f..%.2f, %.2f high, in a box of margin %r from %.2f', e, g.x, g.x2, g.h, op[2][str(j)], m)
                    if not y - EPS <= top <= y + slack + EPS:
                        ctx.bad('box-place', 'picture %d starts %.2f below the top, expected %.2f', e, top, y)
                    y, slack = h - g.y + 5, 0
                else:
                    if g is None or getattr(g, 'text', '') != e:
                        ctx.bad('missing', 'page %d: the text %r of the box is not drawn in its place, but %r', pg, e, g)
                        return
                    b = h - g.y
                    if not y + 11 - EPS <= b <= y + slack + 12.6 + EPS:
                        ctx.bad('box-place', 'the text %r lies %.2f below the top, the element before it ends at %.2f', e, b, y)
                    y, slack = b + 5, 0
            ctx.see('after_' + last.get(pg, 'start'))
            cur[pg] = (m, y - 5 - EPS, y + EPS)
            last[pg] = 'box'
    for pg in items:
        rest = [e for e in items[pg][pos[pg]:] if getattr(e, 'kind', 'word') in ('image', 'word', 'fill')]
        if rest:
            ctx.bad('extra', 'page %d: drawn though not asked for: %r', pg, rest[:3])


def flow(case, ctx, pics):
    from pdfme import PDF
    w, h = case['size']
    m = case['margin']
    els = []
    with build.guard():
        pdf = PDF(page_size=(w, h), margin=m)
        pdf.add_page()
        for e in case['els']:
            if 'pic' in e:
                els.append(dict(pics[e['pic']].args(ctx), style=dict(e['style'])))
            else:
                els.append({'.': e['text'], 'style': dict(e['style'])})
        pdf.content({'content': els})
    rd = build.read(build.output(pdf))
    used = [p for p in pics if p.n]
    want = [(pics[e['pic']], e['style']) for e in case['els'] if 'pic' in e]
    ctx.nontrivial = len(want) > 1
    ctx.see('drawn_again', sum(max(0, p.n - 1) for p in pics))
    by = embedded(ctx, rd, pics, used)
    if ctx.v:
        return
    got = [i for pg in drawn(ctx, rd, by) for i in pg.items if i.kind == 'image']
    page = {id(i): pg for pg in rd.pages for i in pg.items}
    if sorted(p.k for p, st in want) != sorted(i.pic.k for i in got):
        ctx.bad('missing', 'pictures %r were to be drawn, drawn are %r', [p.k for p, st in want], [i.pic.k for i in got])
        return
    W, H = w - 2 * m, h - 2 * m

    def wrong(p, st, i):
        """Why the drawing i is not the one of this element, or None."""
        ml, mr = st.get('margin_left', 0), st.get('margin_right', 0)
        fw = W - ml - mr
        fh = fw * p.ratio
        mh = st.get('min_height')
        if abs(i.h - i.w * p.ratio) > EPS:
            return 'its proportions are not kept (%.2f x %.2f)' % (i.w, i.h)
        if abs(i.w - fw) <= EPS:
            if abs(i.x - m - ml) > EPS:
                return 'it starts at x=%.2f, expected %.2f' % (i.x, m + ml)
            if i.y < m - EPS or i.y2 > h - m + EPS:
                return 'it leaves the margins: %.2f..%.2f' % (i.y, i.y2)
        elif i.w > fw:
            return 'it is wider (%.2f) than its column' % i.w
        elif mh is None:
            return 'it is shrunk from %.2f to %.2f without a minimum height' % (fw, i.w)
        elif i.h < mh - EPS:
            return 'it is shrunk to %.2f, below its minimum height %g' % (i.h, mh)
        elif i.y2 - m >= fh + EPS:
            return 'it is shrunk to %.2f, though there is room for %.2f' % (i.h, i.y2 - m)
        elif abs(i.y - m) > EPS:
            return 'it is shrunk and does not reach the bottom'
        elif abs(i.x + i.w / 2 - m - ml - fw / 2) > EPS:
            return 'it is shrunk and not centred'
    # match elements with drawings, one to one
    why = [[wrong(p, st, i) if i.pic is p else '' for i in got] for p, st in want]
    owner = {}

    def place(k, seen):
        for j in range(len(got)):
            if why[k][j] is None and j not in seen:
                seen.add(j)
                if j not in owner or place(owner[j], seen):
                    owner[j] = k
                    return True
    for k, (p, st) in enumerate(want):
        if not place(k, set()):
            ctx.bad('box-image', 'picture %d %r: %s', p.k, st, '; '.join(x for x in why[k] if x)[:300])
            return
    for j, i in enumerate(got):
        p, st = want[owner[j]]
        ctx.see('in_boxes')
        ctx.see('shrunk', i.w < W - st.get('margin_left', 0) - st.get('margin_right', 0) - EPS)
        ctx.see('exact_fit', abs(i.h - H) < .01)
