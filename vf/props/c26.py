"""C26: elements placed by hand lie in the rectangle asked for, and the position of the page moves as asked."""
import io

from .. import build, obs
from ..gen import Toks

CASES = {'quick': 9000, 'thorough': 270000}
NEED = {'texts': 3000, 'tables': 2000, 'boxes': 2000, 'images': 1500, 'default_x': 2000, 'default_y': 2000, 'default_width': 2000, 'default_height': 2000, 'moved_bottom': 3000,
        'moved_next': 1500, 'not_moved': 1000, 'continued': 400, 'cut': 1000, 'set_by_hand': 500, 'flowed': 1000, 'beginnings': 200, 'other_pages': 300, 'exact_right': 2000}
RULE = ('random histories of paragraphs, tables, boxes and pictures placed on pages of different sizes and margins with position, width and height given or left out, every kind '
        'of move, the position set by hand, flowing elements in between, earlier pages revisited and cut elements continued elsewhere; what is drawn and where the position goes is '
        'compared with a model of the position. Non-trivial with 3 or more elements')
ASSUME = ['words fit the width given', 'standard fonts']
COLORS = ['#%02x%02x%02x' % (80 + 16 * a, 80 + 16 * b, 200) for a in range(8) for b in range(8)]


def gen(r, tier, i):
    toks = Toks(r, special=.03, maxlen=3)
    ops = []
    for k in range(r.choice([2, 4, 8, 14])):
        q = r.random()
        if q < .1:
            ops.append(['page', r.choice([None, [300, 400], [420, 500], [250, 600]]), r.choice([None, [10, 20, 30, 40], 25])])
            continue
        if q < .15:
            ops.append(['begin'])
            continue
        if q < .22:
            ops.append(['set', round(r.random() * .5, 3) if r.random() < .6 else None, round(r.random() * .6, 3) if r.random() < .6 else None])
            continue
        if q < .27:
            ops.append(['goto', r.randrange(9)])
            continue
        if q < .5:
            ops.append(['again', r.randrange(9)] + rect(r))
            continue
        kind = r.choice(['text', 'text', 'table', 'box', 'image'])
        if kind == 'text':
            e = {'words': toks.words(r.choice([1, 4, 15, 50])), 's': r.choice([8, 10, 11, 13.5]), 'align': r.choice(['l', 'j', 'r', None])}
        elif kind == 'table':
            R, C = r.choice([1, 2, 5, 9]), r.choice([1, 2, 3])
            e = {'rows': [[toks.word() for _ in range(C)] for _ in range(R)]}
        elif kind == 'box':
            e = {'els': [r.choice(['text', 'image']) for _ in range(r.choice([1, 2, 3]))], 'cols': r.choice([1, 1, 2])}
            e['els'] = [toks.words(r.choice([1, 5, 20])) if t == 'text' else [r.randint(10, 40), r.randint(2, 5)] for t in e['els']]
        else:
            e = {'pic': [r.randint(10, 40), r.randint(2, 12)]}
        if r.random() < .2 and kind != 'image':
            ops.append(['flow', kind, e])
        else:
            ops.append(['put', kind, e] + rect(r))
    return {'size': r.choice([[300, 400], [500, 350], [612, 792]]), 'margin': r.choice([0, 20, [30, 10, 50, 25]]), 'ops': ops}


def rect(r):
    """Fractions of what is left (x, y) or of the room from there (width, height), or None."""
    return [{'x': round(r.random() * .5, 3) if r.random() < .4 else None, 'y': round(r.random() * .6, 3) if r.random() < .4 else None,
             'width': round(r.uniform(.5, 1), 3) if r.random() < .5 else None, 'height': round(r.uniform(.08, r.choice([.3, 1])), 3) if r.random() < .6 else None},
            r.choice(['bottom', 'bottom', 'next', None, '-'])]


def jpeg(w, h):
    from PIL import Image
    b = io.BytesIO()
    Image.new('L', (w, h), 90).save(b, 'JPEG')
    b.seek(0)
    return b


def check(case, ctx):
    from pdfme import PDF
    made = []           # element records
    runs = []           # (record, page, x, y, width, height, position after, finished before, finished)
    state = {'col': 0, 'pic': 0}
    with build.guard():
        pdf = PDF(page_size=tuple(case['size']), margin=case['margin'] if not isinstance(case['margin'], list) else list(case['margin']))
        pdf.add_page()

    def near(a, b):
        return abs(a - b) < 1e-6

    def create(kind, e):
        """(what to hand over, keywords, record)"""
        rec = {'kind': kind, 'e': e, 'obj': None, 'n': len(made)}
        made.append(rec)
        if kind == 'text':
            rec['words'] = e['words'].split()
            return {'.': e['words'], 'style': {'s': e['s']}}, ({'text_align': e['align']} if e['align'] else {}), rec
        if kind == 'table':
            rec['words'] = [w for row in e['rows'] for w in row]
            c = COLORS[state['col'] % len(COLORS)]
            state['col'] += 1
            rec['color'] = tuple(int(c[k:k + 2], 16) / 255 for k in (1, 3, 5))
            return [list(row) for row in e['rows']], {'style': {'cell_fill': c}}, rec
        if kind == 'box':
            rec['words'] = [w for t in e['els'] if isinstance(t, str) for w in t.split()]
            rec['pics'] = []
            els = []
            for t in e['els']:
                if isinstance(t, str):
                    els.append(t)
                else:
                    state['pic'] += 1
                    d = (t[0] * 4, t[1] * 2 + 0)
                    name = 'pic%d' % state['pic']
                    rec['pics'].append(name)
                    els.append({'image': jpeg(*d), 'extension': 'jpg', 'image_name': name})
            return {'content': els, 'cols': {'count': e['cols'], 'gap': 10}}, {}, rec
        state['pic'] += 1
        rec['name'] = 'pic%d' % state['pic']
        rec['words'] = []
        return jpeg(e['pic'][0] * 4, e['pic'][1] * 4), {}, rec

    def place(rec, a, move, thing=None, kw=None):
        """Run an element by hand; checks the position of the page afterwards."""
        pg = pdf.page
        ml, mr, mt, mb = pg.margin_left, pg.margin_right, pg.margin_top, pg.margin_bottom
        x0, y0 = pg.x, pg.y
        args = {}
        if a['x'] is not None or pg.width - mr - x0 < 110:
            args['x'] = ml + (a['x'] or 0) * max(0, pg.width - ml - mr - 130)
        if a['y'] is not None or pg.height - mb - y0 < 90:
            args['y'] = mt + (a['y'] or 0) * max(0, pg.height - mt - mb - 100)
        x, y = args.get('x', x0), args.get('y', y0)
        W, H = pg.width - mr - x, pg.height - mb - y
        if a['width'] is not None:
            args['width'] = W * a['width']
        if a['height'] is not None:
            args['height'] = H * a['height']
        w, h = args.get('width', W), args.get('height', H)
        if rec['kind'] == 'image':
            p = rec['e']['pic']
            ratio = p[1] / p[0]
            if a['width'] is None:
                # the content width, unless the height says otherwise
                w = args['height'] / ratio if a['height'] is not None else pg.width - ml - mr
                if x + w > pg.width + 1000 or a['height'] is None:
                    args['width'] = w = min(W, 60)
            if a['height'] is None:
                h = w * ratio
            args['move'] = move
            with build.guard():
                pdf.image(thing, 'jpg', rec['name'], **args)
            fin = True
        else:
            args['move'] = move
            f = {'text': pdf._text, 'table': pdf._table, 'box': pdf._content}[rec['kind']]
            with build.guard():
                rec['obj'] = f(thing if thing is not None else rec['obj'], **args, **(kw or {}))
            fin = rec['obj'].finished
        for k in ('x', 'y', 'width', 'height'):
            ctx.see('default_' + k, k not in args)
        x1, y1 = pdf.page.x, pdf.page.y
        if move == 'next':
            ctx.see('moved_next')
            if not near(x1, x + w) or not near(y1, y):
                ctx.bad('move-next', '%s at (%.2f, %.2f) of width %.2f moved the position to (%.2f, %.2f)', rec['kind'], x, y, w, x1, y1)
        elif move == 'bottom':
            ctx.see('moved_bottom')
            if not near(x1, x) or y1 < y - 1e-6 or y1 > y + h + 1e-6:
                ctx.bad('move-bottom', '%s at (%.2f, %.2f) of height %.2f moved the position to (%.2f, %.2f)', rec['kind'], x, y, h, x1, y1)
        else:
            ctx.see('not_moved')
            if not near(x1, x) or not near(y1, y):
                ctx.bad('moved', '%s at (%.2f, %.2f) moved the position to (%.2f, %.2f) though not asked to', rec['kind'], x, y, x1, y1)
        runs.append({'rec': rec, 'page': pdf.page_index, 'x': x, 'y': y, 'w': w, 'h': h, 'y1': y1 if move == 'bottom' else None, 'fin': fin})

    for op in case['ops']:
        if op[0] == 'page':
            kw = {}
            if op[1]:
                kw['page_size'] = tuple(op[1])
            if op[2]:
                kw['margin'] = op[2]
            with build.guard():
                pdf.add_page(**kw)
            p = pdf.page
            if not near(p.x, p.margin_left) or not near(p.y, p.margin_top):
                ctx.bad('new-page', 'a new page has its position at (%.2f, %.2f), its margins are %.2f and %.2f', p.x, p.y, p.margin_left, p.margin_top)
        elif op[0] == 'begin':
            pdf.page.go_to_beginning()
            ctx.see('beginnings')
            p = pdf.page
            if not near(p.x, p.margin_left) or not near(p.y, p.margin_top):
                ctx.bad('beginning', 'the beginning of the page is at (%.2f, %.2f), its margins are %.2f and %.2f', p.x, p.y, p.margin_left, p.margin_top)
        elif op[0] == 'set':
            ctx.see('set_by_hand')
            p = pdf.page
            if op[1] is not None:
                p.x = p.margin_left + op[1] * max(0, p.width - p.margin_left - p.margin_right - 130)
            if op[2] is not None:
                v = p.margin_top + op[2] * max(0, p.height - p.margin_top - p.margin_bottom - 100)
                p.y = v
                if not near(p.y, v):
                    ctx.bad('set', 'the position was set to %.2f and is %.2f', v, p.y)
        elif op[0] == 'goto':
            n = op[1] % len(pdf.pages)
            old = [(p.x, p.y) for p in pdf.pages]
            ctx.see('other_pages', n != pdf.page_index)
            pdf.page_index = n
            if [(p.x, p.y) for p in pdf.pages] != old:
                ctx.bad('goto', 'going to another page moved a position')
        elif op[0] == 'again':
            open_ = [m for m in made if m['obj'] is not None and not m['obj'].finished]
            if open_:
                rec = open_[op[1] % len(open_)]
                used = {m['page'] for m in runs if m['rec'] is rec}
                if pdf.page_index in used:
                    # one run of an element on a page, so that its parts can be told apart
                    free = [k for k in range(len(pdf.pages)) if k not in used]
                    if free:
                        pdf.page_index = free[-1]
                    else:
                        with build.guard():
                            pdf.add_page()
                if len(runs) < 60:
                    place(rec, op[2], op[3])
                    ctx.see('continued')
        elif op[0] == 'put':
            thing, kw, rec = create(op[1], op[2])
            ctx.see({'text': 'texts', 'table': 'tables', 'box': 'boxes', 'image': 'images'}[op[1]])
            place(rec, op[3], op[4], thing, kw)
        else:
            thing, kw, rec = create(op[1], op[2])
            pg = pdf.page
            y, n = pg.y, pdf.page_index
            if pg.height - pg.margin_bottom - y < 60 or y < pg.margin_top:
                y = pg.y = pg.margin_top
            if n != len(pdf.pages) - 1 and len(rec['words']) > 4:
                # would go on on the last page
                rec['kind'] = 'skipped'
                continue
            ctx.see('flowed')
            f = {'text': pdf.text, 'table': pdf.table, 'box': pdf.content}[op[1]]
            if op[1] == 'box' and rec['pics']:
                rec['kind'] = 'skipped'
                continue
            with build.guard():
                f(thing, **kw)
            if pdf.page_index == n:
                runs.append({'rec': rec, 'page': n, 'x': pg.margin_left, 'y': y, 'w': pg.width - pg.margin_left - pg.margin_right, 'h': pg.height - pg.margin_bottom - y, 'y1': pdf.page.y, 'fin': True})
                if not near(pdf.page.x, pg.margin_left):
                    ctx.bad('flow-x', '%s left the position at x=%.2f, the margin is %.2f', op[1], pdf.page.x, pg.margin_left)
            else:
                rec['kind'] = 'flowed'
        if ctx.v:
            return
    # what was cut goes on until it is finished
    for rec in made:
        k = 0
        while rec['obj'] is not None and not rec['obj'].finished:
            with build.guard():
                pdf.add_page(page_size=(700, 3000), margin=20)
            place(rec, {'x': None, 'y': None, 'width': None, 'height': None}, 'bottom')
            k += 1
            if ctx.v:
                return
            if k > 5:
                ctx.bad('endless', 'an element is not finished after %d pages of 3000', k)
                return
    ctx.nontrivial = len(runs) > 2
    compare(case, ctx, pdf, made, runs)


def compare(case, ctx, pdf, made, runs):
    rd = build.read(build.output(pdf))
    words = {}
    for o in obs.all_words(rd, stop='.'):
        words.setdefault(o.text, []).append(o)
    fills = {}
    pics = {}
    for pg in rd.pages:
        for i in pg.items:
            if i.kind == 'fill':
                fills.setdefault((pg.index, tuple(round(c, 2) for c in i.color)), []).append(i)
            elif i.kind == 'image':
                pics.setdefault(pg.index, []).append(i)
    for rec in made:
        if rec['kind'] == 'skipped':
            continue
        for w in rec['words']:
            if len(words.get(w, [])) != 1:
                ctx.bad('lost' if w not in words else 'repeated', '%r of a %s is drawn %d times', w, rec['kind'], len(words.get(w, [])))
                return
    heights = [p.height for p in pdf.pages]
    mine = {}
    for rec in made:
        mine[rec['n']] = [m for m in runs if m['rec'] is rec]
    for rec in made:
        rs = mine[rec['n']]
        if rec['kind'] in ('skipped', 'flowed') or not rs:
            continue
        # distribute the words over the runs: by page and rectangle, in order
        ws = [words[w][0] for w in rec['words']]
        for u in rs:
            H = heights[u['page']]
            top, bot = H - u['y'], H - u['y'] - u['h']
            inside(ctx, rec, u, ws, top, bot, H, rd, fills, pics, len(rs))
            if ctx.v:
                return


def lines_of(ws):
    out = []
    for o in ws:
        if out and out[-1][0].page == o.page and abs(out[-1][0].y - o.y) < .01 and o.x1 >= out[-1][-1].x2 - .1:
            out[-1].append(o)
        else:
            out.append([o])
    return out


def inside(ctx, rec, u, ws, top, bot, H, rd, fills, pics, n):
    kind = rec['kind']
    x, w = u['x'], u['w']
    here = [o for o in ws if o.page == u['page']]
    what = '%s %d placed at (%.2f, %.2f) %.2f x %.2f' % (kind, rec['n'], x, u['y'], w, u['h'])
    if kind == 'image':
        p = rec['e']['pic']
        cand = [i for i in pics.get(u['page'], []) if (i.obj.d['Width'], i.obj.d['Height']) == (p[0] * 4, p[1] * 4)]
        if not any(abs(i.x - x) < .02 and abs(i.y2 - top) < .02 and abs(i.w - w) < .02 and abs(i.h - u['h']) < .02 for i in cand):
            ctx.bad('image-place', '%s is drawn at %r', what, [(round(i.x, 2), round(H - i.y2, 2), round(i.w, 2), round(i.h, 2)) for i in cand])
        if u['y1'] is not None and abs(u['y1'] - u['y'] - u['h']) > 1e-6:
            ctx.bad('image-move', '%s moved the position to y=%.2f', what, u['y1'])
        return
    if n > 1:
        ctx.see('cut')
    # words too wide for a cell or column stick out
    room = w / len(rec['e']['rows'][0]) - 12 if kind == 'table' else (w - 10) / 2 if kind == 'box' and rec['e']['cols'] == 2 else w
    for o in here:
        if (o.x1 < x - .05 or o.x2 > x + w + .05) and not o.x2 - o.x1 > room:
            ctx.bad('outside-x', '%s: %r lies at %.2f..%.2f', what, o.text, o.x1, o.x2)
            return
        if o.y + .5 * o.size > top + .05 or o.y < bot - .15 * o.size:
            ctx.bad('outside-y', '%s: %r has its baseline %.2f below the top of the page', what, o.text, H - o.y)
            return
    if kind == 'text':
        s = rec['e']['s']
        ls = lines_of(here)
        al = rec['e']['align'] or 'l'
        for j, l in enumerate(ls):
            if al in 'lj' and abs(l[0].x1 - x) > .05:
                ctx.bad('text-left', '%s: a line starts at %.2f', what, l[0].x1)
            if al == 'r' and abs(l[-1].x2 - x - w) > .05:
                ctx.bad('text-right', '%s: a line ends at %.2f', what, l[-1].x2)
            if al == 'j' and j < len(ls) - 1 and len(l) > 1:
                ctx.see('exact_right')
                if abs(l[-1].x2 - x - w) > .3:
                    ctx.bad('text-width', '%s: a justified line ends at %.2f', what, l[-1].x2)
        if ls:
            if abs(H - ls[0][0].y - u['y'] - s) > .2 * s:
                ctx.bad('text-top', '%s: the first baseline is %.2f below the top of the page', what, H - ls[0][0].y)
            if u['y1'] is not None and not -.02 <= u['y1'] - (H - ls[-1][0].y) <= .3 * s:
                ctx.bad('text-move', '%s: the last baseline is at %.2f, the position moved to %.2f', what, H - ls[-1][0].y, u['y1'])
        if not u['fin'] and ls:
            # cut: one more line would not have fitted
            if H - ls[-1][0].y + 1.1 * s + .1 * s < u['y'] + u['h'] - .05:
                ctx.bad('text-cut', '%s: cut after the baseline at %.2f', what, H - ls[-1][0].y)
    elif kind == 'table':
        fs = fills.get((u['page'], tuple(round(c, 2) for c in rec['color'])), [])
        if not fs:
            if n == 1 or here:
                ctx.bad('table-missing', '%s is not drawn there', what)
            return
        a, b = min(f.x1 for f in fs), max(f.x2 for f in fs)
        ctx.see('exact_right')
        if abs(a - x) > .6 or abs(b - x - w) > .6:
            ctx.bad('table-width', '%s reaches from %.2f to %.2f', what, a, b)
        t, z = H - max(f.y2 for f in fs), H - min(f.y1 for f in fs)
        if abs(t - u['y']) > .6 or z > u['y'] + u['h'] + .6:
            ctx.bad('table-top', '%s reaches from %.2f to %.2f below the top of the page', what, t, z)
        if u['y1'] is not None and abs(u['y1'] - z) > .6:
            ctx.bad('table-move', '%s ends at %.2f, the position moved to %.2f', what, z, u['y1'])
    else:
        ims = []
        if n == 1 and rec['pics']:
            dims = [(t[0] * 4, t[1] * 2) for t in rec['e']['els'] if not isinstance(t, str)]
            ims = [i for i in pics.get(u['page'], []) if (i.obj.d['Width'], i.obj.d['Height']) in dims and x - .05 <= i.x and i.x2 <= x + w + .05 and bot - .05 <= i.y and i.y2 <= top + .05]
            if len(ims) < len(dims):
                ctx.bad('box-image', '%s: only %d of its %d pictures are drawn there', what, len(ims), len(dims))
                return
            if len(ims) > len(dims):
                return
        if n == 1:
            low = [o.y for o in here] + [i.y for i in ims]
            high = [o.y + 11 for o in here] + [i.y2 for i in ims]
            if rec['e']['cols'] == 1:
                for i in ims:
                    ctx.see('exact_right')
                    if abs(i.x - x) > .05 or i.x2 - x - w > .05 or i.h > i.w * 3:
                        ctx.bad('box-image-width', '%s: a picture lies at %.2f..%.2f', what, i.x, i.x2)
            if abs(H - max(high) - u['y']) > 1.7:
                ctx.bad('box-top', '%s starts %.2f below the top of the page', what, H - max(high))
            if u['y1'] is not None and not -.02 <= u['y1'] - (H - min(low)) <= 8.6:
                ctx.bad('box-move', '%s ends at %.2f, the position moved to %.2f', what, H - min(low), u['y1'])
