"""C28: input without a meaning is refused when it is added, and leaves the rest of the document alone."""
import copy
import io
import os

from .. import build, gen as G, obs
from ..common import compare_seq

CASES = {'quick': 20000, 'thorough': 400000}
NEED = {'refused': 16000, 'accepted_twins': 16000, 'documents': 3000, 'nested': 3500, 'caught': 12000, 'words_kept': 500000, 'later_pages': 1500, 'at_output': 300}
RULE = ('well-formed documents and drawing histories, each offered twice: as they are, and with one malformed value at a random place (document, section, running '
        'section, box, columns, group, cell, nested table, footnote, arguments of the drawing methods), in the first or on a later page; every case is non-trivial')
ASSUME = ['only the kinds of malformed input listed in the check']

# a case holds its odd values as marks, made real by real()
ODD = {'@bytes': lambda: b'xx', '@set': lambda: {'xx'}, '@object': object}


def png(fmt, size=(40, 2), mode='RGB'):
    from PIL import Image
    b = io.BytesIO()
    Image.new(mode, size, 99).save(b, fmt)
    return b.getvalue()


def image(d, scratch):
    flaw, fmt = d['flaw'], d['fmt']
    data = png('JPEG' if fmt == 'jpg' else 'PNG')
    if flaw == 'garbage':
        data = b'this is no image at all' * d['n']
    elif flaw == 'cut':
        data = data[:8]
    elif flaw == 'empty':
        data = b''
    if d['by'] == 'path':
        if flaw == 'missing':
            return {'image': str(scratch) + '/nosuch.' + fmt}
        p = '%s/%d%s.%s' % (scratch, os.getpid(), flaw or 'ok', 'xyz' if flaw == 'ext' else fmt)
        with open(p, 'wb') as f:
            f.write(data)
        return {'image': p}
    e = {'image': io.BytesIO(data), 'extension': fmt, 'image_name': 'm' + (flaw or 'ok')}
    if flaw == 'noext':
        del e['extension']
    elif flaw == 'noname':
        del e['image_name']
    elif flaw == 'ext':
        e['extension'] = 'xyz'
    elif flaw == 'type':
        e['image'] = d['n']
    return e


def real(v, scratch):
    if isinstance(v, str) and v in ODD:
        return ODD[v]()
    if isinstance(v, list):
        return [real(x, scratch) for x in v]
    if isinstance(v, dict):
        if '$img' in v:
            e = image(v['$img'], scratch)
            e.update((k, real(x, scratch)) for k, x in v.items() if k != '$img')
            return e
        return {k: real(x, scratch) for k, x in v.items()}
    return v


class Gen:
    def __init__(self, r):
        self.r = r
        self.toks = G.Toks(r, maxlen=5)
        self.most = 12

    def w(self, n=None):
        return ' '.join(self.toks.word() for _ in range(n or self.r.choice([1, 2, 6])))

    def rows(self, n=None, c=None):
        r = self.r
        c = c or r.choice([1, 2, 3, 4])
        return [[self.w(1) for _ in range(c)] for _ in range(n or min(self.most, r.choice([1, 2, 5, 12])))]

    # every flaw gives (what it is, a malformed element, its well-formed twin)
    def text(self):
        r = self.r
        w = self.w()
        k = r.choice(['value', 'part', 'style_name', 'style_type', 'style_str', 'font', 'color', 'size', 'list_style', 'list_indent', 'indent', 'line_height', 'inner'])
        if k == 'value':
            return k, {'.': r.choice([None, '@bytes', '@set', '@object', {'.': w}])}, {'.': [{'.': w}]}
        if k == 'part':
            p = [self.w(1) + ' ' for _ in range(r.choice([1, 3]))]
            q = list(p)
            q.insert(r.randrange(len(q) + 1), r.choice([None, '@bytes', '@set', '@object', [w]]))
            return k, {'.': q}, {'.': p}
        if k == 'style_name':
            return k, {'.': w, 'style': r.choice(['nosuch', 'N0', 'n'])}, {'.': w, 'style': 'n0'}
        if k == 'style_type':
            return k, {'.': w, 'style': r.choice([5, ['b'], '@object', 1.5])}, {'.': w, 'style': {'b': 1}}
        if k == 'style_str':
            b, g = r.choice([('q', 'b'), ('b;zz:3', 'b;u'), ('i;s:big', 'i;s:9'), ('x:1', 'u:1'), ('bold', 'b'), ('s', 's:9'), ('c:nocolor', 'c:red'), ('bg:nocolor', 'bg:red'), ('f:NoFont', 'f:Courier')])
            return k, {'.' + b: w}, {'.' + g: w}
        if k == 'font':
            return k, {'.': w, 'style': {'f': r.choice(['NoFont', 'courier new', ''])}}, {'.': w, 'style': {'f': 'Courier'}}
        if k == 'color':
            return k, {'.': w, 'style': {r.choice(['c', 'bg']): r.choice(['nocolor', '#12', '#12345', '#12345g', '#xyz', '1 2', '1 x 0', '@object', [.1, 'x', .2]])}}, {'.': w, 'style': {'c': '#123'}}
        if k == 'size':
            return k, {'.': w, 'style': {'s': r.choice(['big', '@object', [9]])}}, {'.': w, 'style': {'s': 9}}
        if k == 'list_style':
            return k, {'.': w, 'style': {'list_text': '- ', 'list_style': r.choice([5, '@object', 'nosuch', ['b']])}}, {'.': w, 'style': {'list_text': '- ', 'list_style': 'n0'}}
        if k == 'list_indent':
            return k, {'.': w, 'style': {'list_text': '- ', 'list_indent': r.choice(['x', [5], '@object'])}}, {'.': w, 'style': {'list_text': '- ', 'list_indent': 9}}
        if k in ('indent', 'line_height'):
            return k, {'.': w, 'style': {k: r.choice(['x', [5], '@object'])}}, {'.': w, 'style': {k: 1.5}}
        _, b, g = self.text_span()
        return 'inner', {'.': [self.w(1) + ' ', b, ' ' + self.w(1)]}, {'.': [self.w(1) + ' ', g]}

    def text_span(self):
        while True:
            k, b, g = self.text()
            if k in ('value', 'part', 'style_name', 'style_type', 'style_str', 'font', 'color', 'size', 'inner'):
                return k, b, g

    def table(self):
        r = self.r
        rows = self.rows()
        c = len(rows[0])
        good = {'table': rows}
        bad = {'table': copy.deepcopy(rows)}
        if r.random() < .3:
            good['widths'] = bad['widths'] = [r.choice([1, 2, 3.5]) for _ in range(c)]
        k = r.choice(['row', 'row', 'row', 'row_type', 'widths', 'widths', 'type', 'style', 'border', 'fill', 'cell', 'cell_margin', 'span'])
        if k == 'row':
            b = bad['table']
            if len(b) == 1:
                b.append(self.rows(1, c)[0])
                good['table'] = copy.deepcopy(b)
            i = r.randrange(1, len(b)) if r.random() < .85 else 0
            d = r.choice([1, 1, 2]) if c == 1 or r.random() < .5 else -r.randint(1, c)
            if i == 0 and r.random() < .5:
                d = -c
            b[i] = b[i][:c + d] if d < 0 else b[i] + [r.choice([None, self.w(1)]) for _ in range(d)]
        elif k == 'row_type':
            bad['table'].append(r.choice([None, 5, '@object']))
        elif k == 'widths':
            g = [r.choice([1, 2, 3.5]) for _ in range(c)]
            good['widths'] = g
            b = list(g)
            m = r.choice(['more', 'less', 'word', 'none', 'zero', 'str', 'number'])
            if m == 'more':
                b += [1] * r.choice([1, 2])
            elif m == 'less':
                b = b[:-1]
            elif m == 'zero':
                b = [0] * c
            elif m in ('word', 'none'):
                b[r.randrange(c)] = {'word': '2', 'none': None}[m]
            else:
                b = {'str': '1' * c, 'number': c}[m]
            bad['widths'] = b
        elif k == 'type':
            bad['table'] = r.choice([None, 5, 'abc', '@object', {'a': 1}])
        elif k == 'style':
            good['style'], bad['style'] = 'n0', r.choice(['nosuch', 5, ['b'], '@object'])
        elif k == 'border':
            if r.random() < .5:
                bad['style'], good['style'] = {'border_style': r.choice(['wavy', '', 5])}, {'border_style': 'dashed'}
            else:
                f = r.choice(['style', 'color', 'width'])
                good['borders'] = [dict({'pos': 'h0;:'}, **{f: {'style': 'dotted', 'color': 'red', 'width': 2}[f]})]
                bad['borders'] = [dict({'pos': 'h0;:'}, **{f: r.choice({'style': ['wavy', 5], 'color': ['nocolor', '@object'], 'width': ['wide', '@object']}[f])})]
        elif k == 'fill':
            good['fills'] = [{'pos': '0;0', 'color': 'red'}]
            bad['fills'] = [r.choice([{'pos': '0;0', 'color': 'nocolor'}, {'pos': 'a;b', 'color': 'red'}, {'pos': '0;0'}])]
        elif k == 'cell_margin':
            good['style'], bad['style'] = {'cell_margin': 3}, {'cell_margin': r.choice(['wide', '@object', [3]])}
        elif k == 'span':
            g = r.choice(['colspan', 'rowspan'])
            i, j = r.randrange(len(rows)), r.randrange(c)
            good['table'][i][j] = {'.': self.w(1), g: 1}
            bad['table'][i][j] = {'.': self.w(1), g: r.choice(['x', '@object', [1]])}
        else:
            kk, b, g = self.flaw('Tti', 1)
            i, j = r.randrange(len(rows)), r.randrange(c)
            good['table'][i][j], bad['table'][i][j] = g, b
            return 'cell/' + kk, bad, good
        return 'table.' + k, bad, good

    def img(self):
        r = self.r
        by = r.choice(['path', 'stream'])
        fmt = r.choice(['jpg', 'png'])
        flaw = r.choice(['missing', 'ext', 'garbage', 'cut', 'empty'] if by == 'path' else ['noext', 'noname', 'ext', 'type', 'garbage', 'cut', 'empty'])
        b = {'fmt': fmt, 'by': by, 'flaw': flaw, 'n': r.choice([1, 3, 50])}
        if flaw == 'type':
            b['n'] = r.choice([None, 5, ['a']])
        return 'image.' + flaw, {'$img': b, 'style': {'max_height': 40}} if 0 else {'$img': b}, {'$img': dict(b, flaw='')}

    def group(self):
        r = self.r
        g = [self.w(2) for _ in range(r.choice([1, 2]))]
        b = list(g)
        k = r.choice(['member', 'type', 'inner'])
        if k == 'member':
            b.insert(r.randrange(len(b) + 1), r.choice([{'content': [self.w(1)]}, {'group': [self.w(1)]}, {'foo': 1}, {}]))
        elif k == 'type':
            b = r.choice([None, 5, '@object'])
        else:
            old, self.most = self.most, 2
            kk, bb, gg = self.flaw('tiT', 1)
            self.most = old
            n = r.randrange(len(b) + 1)
            b.insert(n, bb)
            g.insert(n, gg)
            return 'group/' + kk, {'group': b}, {'group': g}
        return 'group.' + k, {'group': b}, {'group': g}

    def box(self):
        r = self.r
        good = {'content': [self.w(3)]}
        bad = copy.deepcopy(good)
        k = r.choice(['type', 'cols', 'style', 'count'])
        if k == 'type':
            bad['content'] = r.choice([None, 5, '@object'])
        elif k == 'cols':
            good['cols'], bad['cols'] = {'count': 2}, r.choice([5, 'abc', [2], '@object'])
        elif k == 'count':
            good['cols'], bad['cols'] = {'count': 2}, {'count': r.choice(['x', 0, '@object', [2]])}
        else:
            good['style'], bad['style'] = 'n0', r.choice(['nosuch', 5, ['b'], '@object'])
        return 'box.' + k, bad, good

    def note(self):
        kk, b, g = self.text_span()
        w = self.w(2)
        return 'footnote/' + kk, {'.': [w + ' ', {'.': self.w(1), 'footnote': b}]}, {'.': [w + ' ', {'.': self.w(1), 'footnote': g}]}

    def flaw(self, kinds, depth=0, notes=False):
        r = self.r
        k = r.random()
        if depth < 3 and 'b' in kinds and k < .3:
            kk, b, g = self.flaw('bTtig', depth + 1, notes)
            pre, post = [self.w(2) for _ in range(r.choice([0, 1]))], [self.w(2) for _ in range(r.choice([0, 1]))]
            ob, og = {'content': pre + [b] + post}, {'content': pre + [g] + post}
            if depth == 0 and r.random() < .3 and 'image' not in kk:
                ob['cols'] = og['cols'] = {'count': r.choice([2, 3]), 'gap': 10}
                return 'columns/' + kk, ob, og
            return 'box/' + kk, ob, og
        if notes and k < .4:
            return self.note()
        return {'t': self.text, 'T': self.table, 'i': self.img, 'g': self.group, 'b': self.box}[r.choice([x for x in kinds if x != 'b' or depth < 3])]()

    def document(self):
        """Flaws of the document around the elements: (what, change of the malformed one, of its twin)."""
        r = self.r
        return r.choice([
            ('page_size', {'style': {'page_size': r.choice(['a99', 'A4x', [300], [300, 300, 300], '@object'])}}, {'style': {'page_size': 'a4'}}),
            ('margin', {'style': {'margin': r.choice(['wide', '1 x', '@object'])}}, {'style': {'margin': '30 40'}}),
            ('font', {'style': {'f': 'NoFont'}}, {'style': {'f': 'Times'}}),
            ('style', {'style': r.choice(['nosuch', 5, [1]])}, {'style': {}}),
            ('section', {'sections': r.choice([[5], ['abc'], [None], 5, '@object'])}, {}),
            ('no_sections', {'sections': []}, {}),
            ('running_name', {'running_sections': {'a': {'width': 280, 'height': 'top', 'content': ['zz']}}, '+': {'running_sections': [r.choice(['b', 'A', ''])]}},
             {'running_sections': {'a': {'width': 280, 'height': 'top', 'content': ['zz']}}, '+': {'running_sections': ['a']}}),
            ('running_place', {'running_sections': {'a': {'height': r.choice(['middle', '@object', [1]]), 'content': ['zz']}}, '+': {'running_sections': ['a']}},
             {'running_sections': {'a': {'height': 'top', 'content': ['zz']}}, '+': {'running_sections': ['a']}}),
            ('running_element', 'running', None),
            ('section_size', {'+': {'style': {'page_size': r.choice(['a99', [300]])}}}, {'+': {'style': {'page_size': 'a5'}}}),
            ('section_style', {'+': {'style': r.choice(['nosuch', 5, ['b']])}}, {'+': {'style': 'n0'}}),
            ('per_page', {'per_page': [{'pages': r.choice(['x', '1:x', '1:1:y']), 'style': {'margin': 30}}]}, {'per_page': [{'pages': '0:2', 'style': {'margin': 30}}]}),
        ])

    def call(self):
        """Flaws in the arguments of the methods of PDF."""
        r = self.r
        w = self.w(2)
        t = self.rows(2, 2)
        odd = r.choice([5, None, '@object', '@bytes', '@set'])
        return r.choice([
            ('text', ['text', odd, {}], ['text', w, {}]),
            ('text_list_style', ['text', w, {'list_text': '- ', 'list_style': r.choice([5, 'nosuch', '@object'])}], ['text', w, {'list_text': '- ', 'list_style': 'n0'}]),
            ('text_list_indent', ['text', w, {'list_text': '- ', 'list_indent': 'x'}], ['text', w, {'list_text': '- ', 'list_indent': 9}]),
            ('table', ['table', odd, {}], ['table', t, {}]),
            ('table_widths', ['table', t, {'widths': r.choice([[1], [1, 2, 3], [0, 0], ['a', 'b'], 'ab', 5])}], ['table', t, {'widths': [1, 2]}]),
            ('table_style', ['table', t, {'style': r.choice(['nosuch', 5])}], ['table', t, {'style': 'n0'}]),
            ('content', ['content', r.choice([5, None, '@object', '@bytes', [w], w]), {}], ['content', {'content': [w]}, {}]),
            ('image', ['image', {'$img': {'by': 'path', 'fmt': 'png', 'flaw': 'missing', 'n': 1}}, {}], ['image', {'$img': {'by': 'path', 'fmt': 'png', 'flaw': '', 'n': 1}}, {}]),
            ('image_bytes', ['image', {'$img': {'by': 'stream', 'fmt': r.choice(['png', 'jpg']), 'flaw': r.choice(['garbage', 'cut', 'ext', 'noname', 'noext']), 'n': 9}}, {}],
             ['image', {'$img': {'by': 'stream', 'fmt': 'png', 'flaw': '', 'n': 1}}, {}]),
            ('add_page', ['add_page', {'page_size': r.choice(['a99', [300], '@object'])}, {}], ['add_page', {'page_size': 'a5'}, {}]),
            ('object', ['object', r.choice(['@object', None]), {}], ['none', None, {}]),
            ('font_file', ['font', {'Zz': {'n': 'nosuch.ttf'}}, {}], ['none', None, {}]),
        ])


def filler(g, r):
    n = r.choice([0, 1, 3, 3, 40])
    return [g.w(r.choice([3, 12])) for _ in range(n)]


def gen(r, tier, i):
    g = Gen(r)
    case = {'formats': {'n0': {'b': 1}}, 'before': filler(g, r)}
    if r.random() < .03:
        k = r.choice(['pages', 'filter', 'trailer'])
        case.update(driver='end', kind=k, filter=[r.choice(['/Foo', '/LZWDecode', '/DCTDecode', '/Flate', '/ASCIIHexDecode', '/JPXDecode']), '/FlateDecode'], n=r.choice([1, 500]))
    elif r.random() < .35:
        case['driver'] = 'doc'
        case['after'] = filler(g, r)[:3]
        if r.random() < .5:
            k, b, gd = g.document()
            if b == 'running':
                k, eb, eg = g.text()
                b, gd = ({'running_sections': {'a': {'height': 'top', 'width': 280, 'style': {'s': 4}, 'content': [e]}}, '+': {'running_sections': ['a']}} for e in (eb, eg))
                k = 'running/' + k
            case.update(kind='document/' + k, doc=[b, gd])
        else:
            k, b, gd = g.flaw('tTigb', 0, True)
            case.update(kind='section/' + k, bad=b, good=gd)
        case['sections'] = r.choice([1, 1, 3])
    else:
        case['driver'] = 'pdf'
        case['steps'] = []
        for _ in range(r.choice([1, 1, 2, 4])):
            if r.random() < .4:
                k, b, gd = g.call()
            else:
                k, b, gd = g.flaw('tTigb')
                if 'table' in b and r.random() < .5:
                    b, gd = (['table', e['table'], {a: e[a] for a in e if a != 'table'}] for e in (b, gd))
                elif '.' in b and r.random() < .4 and 'style' not in b and 'style' not in gd:
                    b, gd = ['text', b, {}], ['text', gd, {}]
                else:
                    b, gd = (['content', {'content': [e]}, {}] for e in (b, gd))
            case['steps'].append({'kind': k, 'bad': b, 'good': gd, 'then': [g.w(r.choice([1, 8])) for _ in range(r.choice([1, 2]))]})
        case['kind'] = case['steps'][0]['kind']
    return case


def doc(case, bad, scratch):
    d = {'style': {'page_size': [360, 400], 'margin': 40, 's': 10}, 'formats': copy.deepcopy(case['formats']),
         'sections': [{'content': ['zz']} for _ in range(case['sections'])]}
    if 'doc' in case:
        change = real(case['doc'][0 if bad else 1], scratch)
        more = change.pop('+', {})
        d['sections'][-1]['content'] = list(case['before']) + ['zz'] + list(case['after'])
        d['sections'][-1].update(more)
        st = change.pop('style', {})
        d.update(change)
        if isinstance(st, dict):
            d['style'].update(st)
        else:
            d['style'] = st
    else:
        d['sections'][-1]['content'] = list(case['before']) + [real(case['bad' if bad else 'good'], scratch)] + list(case['after'])
    return d


def perform(pdf, step, scratch):
    what, arg, kw = step
    arg, kw = real(arg, scratch), real(kw, scratch)
    if what == 'text':
        pdf.text(arg, **kw)
    elif what == 'table':
        pdf.table(arg, **kw)
    elif what == 'content':
        pdf.content(arg)
    elif what == 'image':
        pdf.image(**arg)
    elif what == 'add_page':
        pdf.add_page(**arg)
    elif what == 'object':
        pdf.base.add(arg)
    elif what == 'font':
        import pathlib
        pdf.add_font(str(pathlib.Path(scratch) / 'nosuch.ttf'), 'Zz', 'n')


def attempt(ctx, kind, what, fn):
    """fn() must raise; the file layer and the limits on pages apply as everywhere."""
    try:
        fn()
    except build.PageCap:
        raise
    except Exception as e:
        ctx.see('refused')
        return
    ctx.bad('accepted:' + kind.split('/')[-1], '%s: malformed input was accepted: %s', kind, str(what)[:300])


def check(case, ctx):
    ctx.nontrivial = True
    {'doc': check_doc, 'pdf': check_pdf, 'end': check_end}[case['driver']](case, ctx)


def check_doc(case, ctx):
    from pdfme import build_pdf
    kind = case['kind']
    buf = io.BytesIO()
    attempt(ctx, kind, case.get('bad', case.get('doc')), lambda: build_pdf(doc(case, True, ctx.scratch), buf))
    if buf.getvalue() and not ctx.v:
        ctx.bad('written', '%s: %d bytes of a refused document were written', kind, len(buf.getvalue()))
    ctx.see('documents')
    ctx.see('nested', kind.count('/') > 1)
    if len(case['before']) > 30:
        ctx.see('later_pages')
    out = io.BytesIO()
    with build.guard():
        build_pdf(doc(case, False, ctx.scratch), out)
    got = [w.text for w in obs.all_words(build.read(out.getvalue()))]
    missing = set(' '.join(case['before'] + case['after']).split()) - set(got)
    if missing:
        ctx.bad('twin', '%s: words of the well-formed twin are missing: %s', kind, sorted(missing)[:5])
    ctx.see('accepted_twins')


def new_pdf(case):
    from pdfme import PDF
    pdf = PDF(page_size=(360, 400), margin=40, font_size=10)
    pdf.formats = copy.deepcopy(case['formats'])
    pdf.add_page()
    return pdf


def check_pdf(case, ctx):
    with build.guard():
        pdf, twin = new_pdf(case), new_pdf(case)
        for p in (pdf, twin):
            for t in case['before']:
                p.text(t)
    keep = list(case['before'])
    for s in case['steps']:
        attempt(ctx, s['kind'], s['bad'], lambda: perform(pdf, s['bad'], ctx.scratch))
        ctx.see('caught')
        ctx.see('nested', '/' in s['kind'])
        with build.guard():
            perform(twin, s['good'], ctx.scratch)
            for t in s['then']:
                pdf.text(t)
                twin.text(t)
        keep += s['then']
        ctx.see('accepted_twins')
    if len(case['before']) > 30:
        ctx.see('later_pages')
    exp = ' '.join(keep).split()
    for name, p in (('rest', pdf), ('twin', twin)):
        rd = build.read(build.output(p))
        words = obs.all_words(rd)
        mine = set(exp)
        got = [w for w in words if w.text in mine]
        compare_seq(ctx, exp, [w.text for w in got], name + ':')
        ctx.see('words_kept', len(got))
        for w in got:
            if w.x1 < 39.9 or w.y < 39 or w.y > 361 or (len(w.text) < 6 and w.x2 > 320.1):
                pg = rd.pages[w.page]
                if [round(v) for v in pg.mediabox[2:]] == [360, 400]:
                    ctx.bad(name + ':outside', '%s: %r is outside of the margins', case['kind'], w)
                    break


def check_end(case, ctx):
    """What is refused only when the document is written."""
    from pdfme import PDF
    from pdfme.base import PDFBase
    k = case['kind']
    ctx.see('at_output')
    with build.guard():
        bad, good = PDF(), new_pdf(case)
        if k == 'filter':
            bad = new_pdf(case)
            for p, f in zip((bad, good), case['filter']):
                p.base.add({'Filter': f.encode(), '__stream__': b'stream ' * case['n']})
        for t in case['before']:
            good.text(t)
    if k == 'trailer':
        attempt(ctx, k, 'a list', lambda: PDFBase(trailer=[1]))
    else:
        attempt(ctx, k, case['filter'][0], lambda: bad.output(io.BytesIO()))
    got = [w.text for w in obs.all_words(build.read(build.output(good)))]
    compare_seq(ctx, ' '.join(case['before']).split(), got, 'twin:')
