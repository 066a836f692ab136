"""C24: layout finishes in a bounded number of steps, draws on every page, and reports what can never fit."""
import collections
import copy
import sys

from .. import build, docgen
from . import c11

CASES = {'quick': 7000, 'thorough': 210000}
NEED = {'fitting': 1200, 'never': 300, 'reported': 300, 'pages': 4000, 'exact_elements': 1500, 'steps': 1000000, 'columns': 400, 'nested_columns': 100, 'footnotes': 50, 'documents': 150,
        'tables': 200, 'many_columns': 50, 'snug': 400}
RULE = ('boxes, tables, paragraphs and documents on pages whose height is exactly, or an instant more or less than, that of runs of their elements, with 1-12 columns, deep nesting, '
        'pictures and groups of the height of a column, footnotes; and the same with one element that can never fit, which has to raise. The calls made inside pdfme are '
        'counted, the words and pictures drawn and the pages are checked. Non-trivial with 2 pages or an error expected')
ASSUME = ['step budget: 4000 calls + 2500 per word or picture and level of columns (normal use needs less than a fifth)']

EPS = [0, 0, 0, 1e-9, -1e-9, 1e-4, -1e-4, .5, -.5]


def gen(r, tier, i):
    g = c11.Gen(r)
    w = r.choice([120, 200, 320, 500])
    if r.random() < .12:
        return snug(r, g, w)
    driver = r.choice(['content', 'content', 'doc', 'doc', 'table', 'text', 'cell'])
    # the height of the pages: lines of 11 points take 12.1 the first and 11 * 1.1 the others
    lines = r.choice([1, 2, 3, 5, 9, 20])
    h = r.choice([lines * 12.1, lines * 12.1 + (lines - 1) * 5, lines * 12.1 + 5, 60, 90, 100.5, 200]) + r.choice(EPS)
    h = max(h, 13)
    case = {'driver': driver, 'w': w, 'h': h, 'never': r.random() < .2, 'images': g.images, 'cap': 0}
    small = h < 45
    el = Exact(r, g, w, h)
    if driver in ('content', 'doc', 'cell'):
        depth = r.choice([0, 0, 1, 2]) if not small else r.choice([0, 1])
        cw = w if driver != 'cell' else w - 10.5
        el.h = h if driver != 'cell' else h - 11
        if el.h < 13:
            el.h = 13
            case['h'] = h = 24
        case['box'] = el.box(cw, depth, r.choice([1, 2, 4, 8, 16]))
        if driver == 'doc' and h > 80 and r.random() < .5:
            case['foot'] = r.choice([1, 3])
    elif driver == 'text':
        case['box'] = {'content': [el.par() for _ in range(r.choice([1, 3]))]}
    else:
        el.h = h - 11
        C = r.choice([1, 2, 3])
        if el.h < 13:
            case['h'] = h = 24
            el.h = 13
        case['table'] = [[r.choice([g.toks.words(r.choice([1, 3, 10, 40])), el.image(w / C - 10.5, True)]) for _ in range(C)] for _ in range(r.choice([1, 3, 8]))]
    if case['never']:
        case['giant'] = giant(r, w, h, driver)
        box = case.get('box')
        if driver == 'text':
            box['content'].append(case['giant'])
        elif box is not None:
            put(r, box, case['giant'])
        else:
            r.choice(case['table'])[0] = case['giant']
    return case


def snug(r, g, w):
    """Elements that use a page to its end: the height they take is measured first."""
    el = Exact(r, g, w, 150)
    steps = []
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.choice(['text', 'table', 'table', 'content', 'content'])
        if k == 'text':
            e = el.par()
        elif k == 'table':
            C = r.choice([1, 2, 3])
            e = {'table': [[g.toks.words(r.choice([1, 3, 10])) for _ in range(C)] for _ in range(r.choice([1, 3, 8]))],
                 'style': {'cell_margin': r.choice([0, 2, 5]), 'border_width': r.choice([0, .5, 3])}}
            if r.random() < .4:
                e['table'][r.randrange(len(e['table']))][r.randrange(C)] = {'.': g.toks.words(3), 'rowspan': 2}
                e['table'] = cut_spans(e['table'])
        else:
            e = {'content': []}
            for _ in range(r.choice([1, 2, 5])):
                j = r.random()
                e['content'].append(el.par() if j < .6 else el.group(w) if j < .7 else {'content': [el.par()], 'style': {'margin_bottom': r.choice([0, 20])}} if j < .85
                                    else {'table': [[g.toks.words(2)] for _ in range(2)]})
        steps.append([k, e])
    return {'driver': 'snug', 'w': w, 'steps': steps, 'eps': r.choice([1e-3, .01, .3, .5, .9, 3]), 'never': False, 'images': g.images}


def cut_spans(rows):
    for i, row in enumerate(rows):
        for j, c in enumerate(row):
            if isinstance(c, dict):
                if i + 1 < len(rows):
                    rows[i + 1][j] = None
                else:
                    del c['rowspan']
    return rows


def check_snug(case, ctx):
    from pdfme import PDF

    def run(h):
        with build.guard():
            pdf = PDF(page_size=(case['w'] + 40, h + 40), margin=20)
            pdf.add_page()
            for k, e in copy.deepcopy(case['steps']):
                if k == 'text':
                    st = e.get('style', {}) if isinstance(e, dict) else {}
                    pdf.text(e, **{a: st[a] for a in ('text_align', 'line_height', 'indent', 'list_text', 'list_style') if a in st})
                elif k == 'table':
                    pdf.table(e['table'], style=e['style'])
                else:
                    pdf.content(e)
        return pdf
    pdf = run(6000)
    if len(pdf.pages) > 1:
        return
    used = pdf.page.y - 20
    words = sorted(w.text for w in docgen_words(build.read(build.output(pdf))))
    pdf = run(used + case['eps'])
    ctx.see('snug')
    ctx.nontrivial = True
    if len(pdf.pages) != 1:
        ctx.bad('wasted:' + case['steps'][-1][0], '%d pages of %.3f for elements that take %.3f', len(pdf.pages), used + case['eps'], used)
    rd = build.read(build.output(pdf))
    if sorted(w.text for w in docgen_words(rd)) != words:
        ctx.bad('words', 'the words drawn change with the height of the page')


def docgen_words(rd):
    from .. import obs
    return obs.all_words(rd)


def put(r, box, e):
    inner = [x for x in box['content'] if isinstance(x, dict) and 'content' in x]
    if inner and r.random() < .6:
        return put(r, r.choice(inner), e)
    box['content'].insert(r.randrange(len(box['content']) + 1), e)


def giant(r, w, h, driver):
    k = r.random()
    big = {'.': 'giant', 'style': {'s': h + r.choice([.1, 5, 300])}}
    if driver == 'text' or k < .35:
        if r.random() < .3:
            return {'.': ['a b ', dict(big), ' c']}
        if r.random() < .2:
            return {'.': 'giant', 'style': {'list_text': '- ', 'list_style': {'s': h + 5}}}
        return big
    if k < .55:
        return {'image': 'TALL', 'style': {k: v for k, v in (('min_height', h + r.choice([.1, 40])), ('image_place', r.choice(['normal', 'flow']))) if r.random() < .6}}
    if k < .75 and driver != 'table':
        return {'group': [r.choice(['a b', {'image': 'TALL'}, big]) if r.random() < .3 else 'x' for _ in range(2)] + [r.choice([{'image': 'TALL'}, big])]}
    if driver == 'table':
        return r.choice([{'image': 'TALL'}, big, {'.': 'giant', 'style': {'cell_margin': h / 2 + 3}}, {'content': [big]}])
    return {'table': [['a', r.choice([{'image': 'TALL'}, big, {'content': ['x', big]}])]]}


class Exact:
    """Elements whose height is that of the page, or a part of it."""
    def __init__(self, r, g, w, h):
        self.r, self.g, self.w, self.h = r, g, w, h
        self.exact = 0

    def par(self):
        r = self.r
        e = self.g.par(r.choice([1, 1, 3, 10, 40, 120]))
        if isinstance(e, dict) and 'style' in e:
            if self.h < 16:
                for k in ('s', 'line_height', 'list_text'):
                    e['style'].pop(k, None)
            # a margin above or below never makes the rest not fit
            for k in ('margin_left', 'margin_right'):
                e['style'].pop(k, None)
        return e

    def image(self, w, cell=False):
        """A picture as high as the page, a part of it, or not related to it."""
        r = self.r
        want = r.choice([self.h, self.h, self.h / 2, self.h / 3, self.h - 12.1 - 5, self.h - 12.1, min(self.h, 30)])
        if want < 2:
            want = self.h
        want = min(want, self.h)
        # the height drawn is width * h / w: sizes that give it, never more
        wpx = 40 + len(self.g.images)
        st = {'image_place': r.choice(['flow', 'normal'])}
        sw = w
        hpx = int(wpx * want / w)
        hpx = max(hpx, 1)
        # narrow the column by a margin, so that the height is exact
        sw = want * wpx / (hpx + 1)
        if sw < w - .01 and not cell:
            hpx += 1
            st['margin_right'] = w - sw
            self.exact += 1
        if r.random() < .3:
            st['min_height'] = r.choice([self.h, self.h / 2, 10])
            st['min_height'] = min(st['min_height'], self.h)
        self.g.images.append({'w': wpx, 'h': hpx, 'fmt': 'jpg', 'mode': 'L', 'seed': 1})
        return {'image': 'IMG:%d' % (len(self.g.images) - 1), 'style': st}

    def group(self, w):
        r = self.r
        out = []
        room = self.h
        n = r.choice([1, 2, 3])
        for k in range(n):
            if room < 12.1:
                break
            out.append(self.g.toks.words(1))
            room -= 12.1 + 20
        return {'group': out or [self.g.toks.words(1)]}

    def element(self, w, depth):
        r = self.r
        k = r.random()
        if k < .5:
            return self.par()
        if k < .65:
            return self.image(w)
        if k < .75:
            return self.group(w)
        if k < .82 and self.h > 30 and w > 60:
            return {'table': [[self.g.toks.words(r.choice([1, 2, 8])) for _ in range(2)] for _ in range(r.choice([1, 3]))], 'style': {'cell_margin': 2}}
        if depth > 0:
            return self.box(w, depth - 1, r.choice([1, 2, 5]))
        return self.par()

    def box(self, w, depth, n):
        r = self.r
        cols = r.choice([1, 1, 2, 3, 5, 12])
        gap = r.choice([0, 2, 7])
        while cols > 1 and (w - gap * (cols - 1)) / cols < 36:
            cols -= 1
        cw = (w - gap * (cols - 1)) / cols
        b = {'content': [self.element(cw, depth) for _ in range(n)]}
        if cols > 1:
            b['cols'] = {'count': cols, 'gap': gap}
        if r.random() < .2:
            b['style'] = {'margin_bottom': r.choice([0, 20])}
        return b


def levels(e):
    """Columns multiplied along the deepest nesting."""
    if not isinstance(e, dict):
        return 1
    k = max([levels(x) for x in e.get('content', [])] + [1])
    return k * (1 + e.get('cols', {}).get('count', 1) // 2)


def tall(scratch):
    import os
    from PIL import Image
    p = os.path.join(str(scratch), 'tall-%d.jpg' % os.getpid())
    if not os.path.exists(p):
        Image.new('L', (10, 4000)).save(p)
    return p


def fill(node, path):
    if isinstance(node, dict):
        return {k: path if k == 'image' and v == 'TALL' else fill(v, path) for k, v in node.items()}
    return [fill(v, path) for v in node] if isinstance(node, list) else node


class Steps:
    """Counts the calls of functions of pdfme."""
    def __enter__(self):
        self.n = 0
        self.limit = 10 ** 9
        mon = sys.monitoring
        mon.use_tool_id(3, 'steps')

        def start(code, off):
            if 'pdfme' not in code.co_filename:
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.limit = 10 ** 12
                raise TooMany()
        mon.register_callback(3, mon.events.PY_START, start)
        mon.set_events(3, mon.events.PY_START)
        return self

    def __exit__(self, *a):
        mon = sys.monitoring
        mon.set_events(3, 0)
        mon.register_callback(3, mon.events.PY_START, None)
        mon.free_tool_id(3)


class TooMany(BaseException):
    pass


def draw(case, ctx):
    from pdfme import PDF
    w, h = case['w'], case['h']
    t = tall(ctx.scratch)
    mat = lambda e: fill(docgen.materialise(e, case['images'], str(ctx.scratch)), t)
    if case['driver'] == 'doc':
        from pdfme import build_pdf
        box = mat(case['box'])
        for k in range(case.get('foot', 0)):
            box['content'].insert(0, {'.': [{'.': 'mark%d ' % k}, {'footnote': 'note%d' % k}]})
        import io
        buf = io.BytesIO()
        with build.guard():
            build_pdf({'style': {'page_size': [w + 40, h + 40], 'margin': 20}, 'sections': [box]}, buf)
        return buf.getvalue()
    with build.guard():
        pdf = PDF(page_size=(w + 40, h + 40), margin=20)
        pdf.add_page()
        if case['driver'] == 'content':
            pdf.content(mat(case['box']))
        elif case['driver'] == 'cell':
            pdf.table([[mat(case['box'])]])
        elif case['driver'] == 'table':
            pdf.table(mat(case['table']))
        else:
            for e in case['box']['content']:
                e = mat(e)
                st = e.get('style', {}) if isinstance(e, dict) else {}
                pdf.text(e, **{k: st[k] for k in ('text_align', 'line_height', 'indent', 'list_text', 'list_style') if k in st})
    return build.output(pdf)


def check(case, ctx):
    if case['driver'] == 'snug':
        return check_snug(case, ctx)
    exp = []
    src = case.get('box') or {'content': [c for row in case['table'] for c in row]}
    src = {'content': [x for x in src['content']]}
    strip = without(src, case.get('giant'))
    c11.flatten(strip, exp)
    lev = levels(case.get('box'))
    budget = 4000 + 2500 * (len(exp) + 4 * case.get('foot', 0)) * lev
    if case['never']:
        budget = budget * 4 + 3000000
    ctx.see('many_columns', any_cols(case.get('box'), 5))
    ctx.see('columns', any_cols(case.get('box'), 2))
    ctx.see('nested_columns', lev > 2 and nested(case.get('box')))
    ctx.see('footnotes', case.get('foot', 0))
    ctx.see('documents', case['driver'] == 'doc')
    ctx.see('tables', case['driver'] == 'table')
    ctx.see('exact_elements', sum('margin_right' in e.get('style', {}) for e in images_of(src)))
    ctx.see('never' if case['never'] else 'fitting')
    try:
        with Steps() as s:
            s.limit = budget
            data = draw(case, ctx)
    except TooMany:
        ctx.bad('steps', 'more than %d calls for %d words and pictures', budget, len(exp))
        return
    except build.CodeError as e:
        ctx.see('steps', s.n)
        if case['never']:
            ctx.see('reported')
            ctx.nontrivial = True
            if type(e.exc) is not Exception:
                ctx.bad('never-error', 'what can never fit raised %r, which says nothing about it', e.exc)
            return
        raise
    ctx.see('steps', s.n)
    ctx.note = s.n / budget
    rd = build.read(data)
    if case['never']:
        ctx.bad('never-fits', 'an element that cannot fit was accepted, in %d pages', len(rd.pages))
        return
    ctx.see('pages', len(rd.pages))
    ctx.nontrivial = len(rd.pages) > 1
    for p in rd.pages:
        if not any(it.kind in ('image', 'fill', 'line') or it.kind == 'text' and it.text.strip() for it in p.items):
            ctx.bad('empty-page', 'page %d of %d has nothing on it', p.index, len(rd.pages))
            return
    got = c11.observed(rd, case['images'])
    marks = {'mark%d' % k for k in range(case.get('foot', 0))}
    gw = collections.Counter(v for k, v, o in got if k == 'w')
    ew = collections.Counter(v for k, v, f in exp if k == 'w')
    lost = [v for v in ew if gw[v] < ew[v]]
    twice = [v for v in ew if gw[v] > ew[v]]
    if lost or twice:
        ctx.bad('words', 'words lost: %r, drawn twice: %r', lost[:4], twice[:4])
    gi = collections.Counter(v for k, v, o in got if k == 'i')
    n = len(case['images'])
    wrong = [k for k in range(n) if gi[k] != 1 and 'IMG:%d\'' % k in repr(src)]
    if wrong:
        ctx.bad('pictures', 'pictures not drawn once: %r', wrong[:4])


def without(e, giant):
    if isinstance(e, dict):
        return {k: [without(x, giant) for x in v if giant is None or x != giant] if k in ('content',) else v for k, v in e.items()}
    return e


def images_of(e):
    if isinstance(e, dict):
        if 'image' in e:
            yield e
        for v in e.values():
            yield from images_of(v)
    elif isinstance(e, list):
        for v in e:
            yield from images_of(v)


def any_cols(e, n):
    return isinstance(e, dict) and (e.get('cols', {}).get('count', 1) >= n or any(any_cols(x, n) for x in e.get('content', [])))


def nested(e, inside=False):
    if not isinstance(e, dict):
        return False
    many = e.get('cols', {}).get('count', 1) > 1
    return many and inside or any(nested(x, inside or many) for x in e.get('content', []))
