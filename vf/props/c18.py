"""C18: page numbers and variables show the right value wherever they are used."""
import copy

from .. import build, obs
from ..common import compare_seq

CASES = {'quick': 1600, 'thorough': 48000}
NEED = {'page_numbers': 20000, 'roman': 3000, 'in_running': 2000, 'in_tables': 1000, 'in_columns': 500, 'in_groups': 300, 'resets': 300, 'variables': 2000,
        'missing': 200, 'offsets': 500, 'numbers_below_one': 60, 'pdf_pages': 500, 'numbers_after_break': 300, 'ten_or_more': 2000}
RULE = ('random documents with page numbers and variables in paragraphs, tables, columns, groups, nested boxes and running sections, over sections with offsets, '
        'styles and resets, and documents built page by page that change them, add text to earlier pages and change variables; every one drawn compared with '
        'the value in force on its page. Non-trivial with 2 pages')
ASSUME = ['numbers written in Roman numerals are between 1 and 3999', 'the number is position plus offset, as the code has it (the text of the documentation, where an offset of 3 makes '
          'page 4 page 1, disagrees with itself on the sign)']
KEYS = ['name', 'count', 'price', 'long', 'a b', '$own', 'x.y', 'none']


def value(r, k):
    return {'name': r.choice(['Zoe', 'Al(b)', 'é\\x', "O'N"]), 'count': r.choice([70007, 12345]), 'price': r.choice([9.5, .25, 1e3]),
            'long': ' '.join('v%d' % i for i in range(r.choice([2, 5, 25]))), 'a b': 'AB', '$own': 'own', 'x.y': 'xy', 'none': r.choice(['', 0, False, None])}[k]


class Body:
    def __init__(self, r, sec):
        self.r = r
        self.sec = sec
        self.n = 0

    def par(self, long=False, short=False):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2]) if short else r.choice([1, 2, 6]) if not long else r.choice([10, 30])):
            for _ in range(r.choice([0, 1, 3, 8])):
                out.append('w%d ' % self.n if r.random() < .7 else {'.' + r.choice(['', 'b', 's:9', 'u;i']): 'w%d ' % self.n})
                self.n += 1
            if r.random() < .75:
                v = '$page'
            else:
                v = r.choice(KEYS[:3] * short or KEYS + ['absent', 'Name'])
            part = {'var': v}
            k = r.random()
            if k < .2:
                part['style'] = {'b': True, 's': r.choice([8, 11])}
            elif k < .3:
                part['style'] = 'fmt'
            elif k < .4:
                part['uri'] = 'http://x.org'
            out.append('<')
            out.append(part if r.random() < .8 else {'.' + r.choice(['', 'b', 'c:red']): ['', part]})
            out.append('> ')
        return out

    def element(self, depth=0):
        r = self.r
        k = r.random()
        if k < .5 or depth > 1:
            p = {'.': self.par(r.random() < .2)}
            if r.random() < .3:
                p['style'] = {'text_align': r.choice('lrcj')}
            return p
        if k < .7:
            cols = r.choice([1, 2])
            return {'widths': [1] * cols, 'table': [[{'.': self.par()} if r.random() < .8 or depth else {'content': [{'.': self.par()}, {'.': self.par()}]}
                                                     for _ in range(cols)] for _ in range(r.choice([1, 3, 8]))]}
        if k < .85:
            return {'cols': {'count': 2}, 'content': [self.element(depth + 1) for _ in range(r.choice([1, 3, 6]))]}
        if k < .95 and not depth:
            return {'group': [{'.': self.par(short=True)} for _ in range(r.choice([1, 2, 3]))]}
        return {'content': [self.element(depth + 1) for _ in range(2)]}


def numbering(r, plain=False):
    st = {}
    if plain:
        # offsets below zero make numbers that Roman numerals cannot write
        if r.random() < .6:
            st['page_numbering_offset'] = r.choice([-1, -2, -3, -7, -40, 0, 5])
        if r.random() < .2:
            st['page_numbering_reset'] = r.random() < .8
        return st
    if r.random() < .3:
        st['page_numbering_style'] = r.choice(['roman', 'arabic', 'roman'])
    if r.random() < .35:
        st['page_numbering_offset'] = r.choice([0, 1, 3, 8, 37, 98, 390, 1900])
    if r.random() < .3:
        st['page_numbering_reset'] = r.random() < .8
    return st


def gen(r, tier, i):
    if r.random() < .25:
        return gen_ops(r)
    plain = r.random() < .2
    st = dict(page_size=r.choice([[300, 250], [300, 400], [420, 500]]), margin=40)
    if r.random() < .4:
        st.update(numbering(r, plain))
        if r.random() < .8:
            st.pop('page_numbering_reset', None)
    doc = {'style': st, 'formats': {'fmt': {'c': 'blue'}}, 'sections': []}
    rs = {}
    if r.random() < .8:
        rs['head'] = {'x': 'left', 'y': 5, 'height': 30, 'content': [{'.': ['H<', {'var': '$page'}, '> ', 'H<', {'var': r.choice(KEYS[:3] + ['absent'])}, '>']}]}
    if r.random() < .5:
        rs['foot'] = {'x': 'left', 'y': 'bottom', 'height': 'bottom', 'style': {'text_align': 'r'},
                      'content': [{'widths': [1, 1], 'table': [[{'.': ['F<', {'var': '$page'}, '>']}, {'.b': ['F<', {'.': [{'var': '$page'}]}, '>']}]]}]}
    if rs:
        doc['running_sections'] = rs
    for k in range(r.choice([1, 2, 3, 5])):
        b = Body(r, k)
        s = {'content': ['S%d' % k] + [b.element() for _ in range(r.choice([1, 2, 4, 8]))], 'running_sections': list(rs)}
        n = numbering(r, plain)
        if n:
            s['style'] = n
        doc['sections'].append(s)
    if r.random() < .3:
        doc['per_page'] = [{'pages': r.choice(['1', '::2', '2:']), 'style': {'rotate_page': True}}]
    ctxt = {k: value(r, k) for k in KEYS if r.random() < .8}
    if plain:
        ctxt.pop('none', None)      # its value could be taken for a page number
    return {'doc': doc, 'context': ctxt}


def roman(n):
    out = ''
    for v, s in ((1000, 'M'), (900, 'CM'), (500, 'D'), (400, 'CD'), (100, 'C'), (90, 'XC'), (50, 'L'), (40, 'XL'), (10, 'X'), (9, 'IX'), (5, 'V'), (4, 'IV'), (1, 'I')):
        while n >= v:
            out += s
            n -= v
    return out


MARK = '$page'


def tokens(x, ctx, context):
    """The words of a rich text; page numbers stay marks."""
    flat = []

    def walk(e):
        if isinstance(e, (list, tuple)):
            for y in e:
                walk(y)
        elif isinstance(e, dict):
            if 'var' in e:
                if e['var'] == MARK:
                    flat.append('\0')
                else:
                    v = context.get(e['var'], '')
                    ctx.see('variables')
                    ctx.see('missing', e['var'] not in context)
                    flat.append(str(v))
            else:
                walk(next(v for k, v in e.items() if k.startswith('.')))
        else:
            flat.append(str(e))
    walk(x)
    return ''.join(flat).split()


def paras(e, ctx, context, where=()):
    """[(words, where)] of an element in document order."""
    if isinstance(e, str):
        return [(tokens(e, ctx, context), where)]
    if 'table' in e:
        return [p for row in e['table'] for c in row for p in paras(c, ctx, context, where + ('tables',))]
    if 'group' in e:
        return [p for c in e['group'] for p in paras(c, ctx, context, where + ('groups',))]
    if 'content' in e:
        w = ('columns',) if 'cols' in e else ()
        return [p for c in e['content'] for p in paras(c, ctx, context, where + w)]
    return [(tokens(e, ctx, context), where)]


def check(case, ctx):
    if 'ops' in case:
        return run_ops(case, ctx)
    doc, context = case['doc'], case['context']
    rd = build.read(build.document(doc, context))
    ctx.nontrivial = len(rd.pages) > 1
    off, style = 0, 'arabic'
    dst = doc['style']
    off = dst.get('page_numbering_offset', off)
    style = dst.get('page_numbering_style', style)
    page = 0
    pages = [obs.page_words(p) for p in rd.pages]
    n = 0
    # which page starts a section
    first = []
    for k, ws in enumerate(pages):
        first.append([w.text for w in ws if w.text[0] == 'S'])
    sec = -1
    for k, ws in enumerate(pages):
        body = [w.text for w in ws if w.text[0] not in 'HF']
        if first[k]:
            sec = int(first[k][0][1:])
            st = dict(dst, **doc['sections'][sec].get('style', {}))
            off = st.get('page_numbering_offset', off)
            style = st.get('page_numbering_style', style)
            if st.get('page_numbering_reset'):
                off = -k
                ctx.see('resets')
            ctx.see('offsets', bool(off))
            ctx.see('numbers_below_one', k + 1 + off < 1)
            exp = [p for e in doc['sections'][sec]['content'] for p in paras(e, ctx, context)]
            todo = {}
            total = 0
            for ws_, where in exp:
                for t in ws_:
                    total += 1
                    todo[t] = todo.get(t, 0) + 1
            left = dict(todo)
            where = {}
            for ws_, wh in exp:
                for t in ws_:
                    if '\0' in t:
                        for q in set(wh):
                            ctx.see('in_' + q)
        elif sec < 0:
            ctx.bad('section', 'page %d: no section has started', k)
            return
        number = k + 1 + off
        shown = roman(number) if style == 'roman' else str(number)
        ctx.see('ten_or_more', number > 9)
        for t in body:
            u = t
            if t not in left:
                u = t.replace('<%s>' % shown, '<\0>')
                ctx.see('page_numbers')
                ctx.see('roman', style == 'roman')
                ctx.see('numbers_after_break', not first[k])
            if u not in left:
                ctx.bad('number' if '<' in t else 'word', 'page %d (section %d): %r, the page number in force is %r', k, sec, t, shown)
                return
            left[u] -= 1
            if not left[u]:
                del left[u]
        hd = [t.text for t in ws if t.text[0] == 'H']
        want = []
        rs = doc.get('running_sections', {})
        if 'head' in rs:
            ctx.see('in_running')
            want = ['H<%s>' % shown] + tokens(rs['head']['content'][0]['.'][3:], ctx, context)
        if hd != want:
            ctx.bad('running', 'page %d (section %d): header %r, expected %r', k, sec, hd, want)
            return
        ft = [t.text for t in ws if t.text[0] == 'F']
        want = ['F<%s>' % shown] * 2 if 'foot' in rs else []
        ctx.see('in_running', 'foot' in rs)
        if ft != want:
            ctx.bad('running', 'page %d (section %d): footer %r, expected %r', k, sec, ft, want)
            return
        if k + 1 == len(pages) or first[k + 1]:
            if left:
                ctx.bad('lost', 'section %d: not drawn: %r', sec, sorted(left.items())[:5])
                return


def gen_ops(r):
    """Pages added one by one; numbering and variables change in between."""
    plain = r.random() < .25
    ops = [['new', {k: v for k, v in numbering(r, plain).items() if k != 'page_numbering_reset'}], ['page']]
    style = ops[0][1].get('page_numbering_style', 'arabic')
    if r.random() < .6:
        ops.insert(1, ['running'])
    pages = 1
    for _ in range(r.choice([5, 12, 25])):
        k = r.random()
        if k < .15:
            ops.append(['offset', r.choice([-5, -2, -1, 0, 4] if plain else [0, 2, 9, 77])])
        elif k < .25:
            ops.append(['style', 'arabic' if plain else r.choice(['roman', 'arabic'])])
        elif k < .4:
            ops.append(['var', r.choice(KEYS[:3]), r.choice(['n1', 5, 'q(', 2.5])])
        elif k < .6:
            ops.append(['page'])
            pages += 1
        elif k < .75:
            ops.append(['goto', r.randrange(pages)])
        else:
            ops.append(['text', r.choice(['text', 'table', 'content']), r.choice(['$page', '$page', 'name', 'count', 'price', 'absent'])])
    return {'ops': ops}


def run_ops(case, ctx):
    from pdfme import PDF
    exp = []
    off, style = 0, 'arabic'
    context = {}
    now = None
    running = False
    with build.guard():
        for op in case['ops']:
            if op[0] == 'new':
                pdf = PDF(page_size=[300, 400], margin=30, **op[1])
                off = op[1].get('page_numbering_offset', 0)
                style = op[1].get('page_numbering_style', 'arabic')
            elif op[0] == 'offset':
                pdf.page_numbering_offset = off = op[1]
            elif op[0] == 'style':
                pdf.page_numbering_style = style = op[1]
            elif op[0] == 'var':
                pdf.context[op[1]] = op[2]
                context[op[1]] = op[2]
            elif op[0] == 'running':
                pdf.add_running_section({'content': [{'.': ['H<', {'var': '$page'}, '>']}]}, 200, 20, 30, 5)
                running = True
            elif op[0] in ('page', 'goto'):
                if op[0] == 'page':
                    pdf.add_page()
                    exp.append([])
                    at = len(exp) - 1
                else:
                    pdf.page_index = at = op[1]
                # the number is fixed when the page is entered
                now = roman(at + 1 + off) if style == 'roman' else str(at + 1 + off)
                if op[0] == 'page' and running:
                    exp[at].append('H<%s>' % now)
            else:
                c = {'.': ['b<', {'var': op[2]}, '>']}
                if pdf.page.y > 350:
                    continue
                if op[1] == 'text':
                    pdf.text(c)
                elif op[1] == 'table':
                    pdf.table([[c]])
                else:
                    pdf.content({'content': [c]})
                v = now if op[2] == '$page' else str(context.get(op[2], ''))
                ctx.see('page_numbers', op[2] == '$page')
                exp[at].append('b<%s>' % v)
    rd = build.read(build.output(pdf))
    ctx.nontrivial = len(rd.pages) > 1
    ctx.see('pdf_pages', len(rd.pages))
    if len(exp) != len(rd.pages):
        ctx.bad('pages', '%d pages, expected %d', len(rd.pages), len(exp))
        return
    for n, (p, e) in enumerate(zip(rd.pages, exp)):
        got = [w.text for w in obs.page_words(p)]
        if got != e:
            ctx.bad('direct', 'page %d: %r, expected %r', n, [x for x in got if x not in e][:4] or got[:6], [x for x in e if x not in got][:4] or e[:6])
            return
