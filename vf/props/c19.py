"""C19: each footnote is printed once, on the page of its mark, with its number."""
import copy
import re

from .. import build, obs

CASES = {'quick': 1000, 'thorough': 30000}
NEED = {'marks': 5000, 'pages_with_notes': 1500, 'pages_without_notes': 100, 'long_notes': 500, 'many_notes': 100, 'in_tables': 300, 'in_columns': 300,
        'in_groups': 100, 'rich_notes': 500, 'split_paragraphs': 300}
RULE = ('random documents with footnotes of all sizes in paragraphs, tables, columns and groups, sparse and dense, on pages small and large; marks, numbers, '
        'notes and body of every page compared with the input. Non-trivial with 2 notes')
ASSUME = ['the notes of any single line or group fit a page beside it', 'notes are paragraphs']


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.m = 0
        self.dense = r.choice([.02, .05, .1, .2, .5])
        self.long = r.choice([0, .1, .4])

    def note(self):
        r = self.r
        n = r.choice([1, 2, 4, 8]) if r.random() >= self.long else r.choice([15, 30, 50])
        ws = ['n%d:%d' % (self.m, j) for j in range(n)]
        k = r.random()
        if k < .04:
            return 7000 + self.m
        if k < .4:
            return ' '.join(ws)
        if k < .5:
            return [w + ' ' for w in ws]
        if k < .6:
            return {'.': ' '.join(ws)}
        if k < .7:
            return {'.': ' '.join(ws), 'style': {'s': r.choice([7, 9, 10]), 'c': 'red'}}
        if k < .8:
            return {'.': ' '.join(ws), 'style': 'nt'}
        if k < .9:
            return {'.b': [ws[0] + ' ', {'.i;s:8': ' '.join(ws[1:])}]}
        return [{'.b': ' '.join(ws[:1])}, ' ', *[w + ' ' for w in ws[1:]]]

    def par(self, n=None):
        r = self.r
        n = n or r.choice([1, 3, 8, 25] + [80] * (self.dense < .3))
        out = []
        for _ in range(n):
            w = 'b%d*' % self.n
            out.append(w if r.random() < .8 else {'.' + r.choice(['b', 'i', 's:13']): w})
            if r.random() < self.dense:
                out.append({'footnote': self.note(), '_': self.n})
                self.m += 1
            out.append(' ')
            self.n += 1
        return out

    def style(self):
        r = self.r
        st = {}
        if r.random() < .3:
            st['text_align'] = r.choice('lrcj')
        if r.random() < .2:
            st['s'] = r.choice([8, 12, 16])
        return {'style': st} if st else {}

    def element(self, depth=0):
        r = self.r
        k = r.random()
        if k < .6 or depth > 1:
            return dict({'.': self.par()}, **self.style())
        if k < .75:
            cols = r.choice([1, 2, 3])
            return {'widths': [1] * cols, 'table': [[{'.': self.par(r.choice([1, 2, 8]))} for _ in range(cols)] for _ in range(r.choice([1, 3, 8]))]}
        if k < .9:
            return {'cols': {'count': 2}, 'content': [self.element(depth + 1) for _ in range(r.choice([1, 3]))]}
        if depth:
            return {'content': [self.element(depth + 1) for _ in range(2)]}
        old = self.dense, self.long
        self.dense, self.long = min(self.dense, .3), 0
        g = {'group': [dict({'.': self.par(r.choice([2, 5]))}, **self.style()) for _ in range(r.choice([1, 2, 3]))]}
        self.dense, self.long = old
        return g


def lighten(doc, room, width):
    """Shortens notes until those of any line (or group) fit a page beside it."""
    per = int(width / 15) + 1           # words a line may hold

    def height(p):
        return 5 + 13 * -(-len(flat(p['footnote']).split()) * 42 // width)

    def notes(ps, n):
        for k in range(len(ps)):
            while True:
                ws = [x for x in ps[k:k + 3 * n] if isinstance(x, dict) and 'footnote' in x]
                if sum(height(x) for x in ws) <= room:
                    break
                x = max(ws, key=height)
                if len(flat(x['footnote']).split()) > 2:
                    x['footnote'] = 'n%s:0 n%s:1' % ((flat(x['footnote']).split(':')[0][1:],) * 2)
                else:
                    ps.remove(x)

    def walk(e):
        if 'table' in e:
            for row in e['table']:
                for c in row:
                    notes(c['.'], per)
        elif 'group' in e:
            for c in e['group']:
                notes(c['.'], 99)
        elif 'content' in e:
            for c in e['content']:
                walk(c)
        else:
            notes(e['.'], per)
    room /= 3
    for s in doc['sections']:
        walk(s)


def gen(r, tier, i):
    g = Gen(r)
    st = {'page_size': r.choice([[300, 320], [340, 420], [420, 595], 'a4']), 'margin': r.choice([20, 40]), 's': r.choice([9, 11])}
    doc = {'style': st, 'sections': [], 'formats': {'nt': {'s': 8, 'b': True}}}
    if r.random() < .2:
        doc['formats']['$footnote'] = {'r': .4, 's': 7, 'c': 'blue'}
    if r.random() < .2:
        doc['formats']['$footnotes'] = {'s': 8, 'c': 'green'}
    for _ in range(r.choice([1, 1, 2])):
        s = {'content': [g.element() for _ in range(r.choice([1, 3, 6, 12]))]}
        if r.random() < .2:
            s['cols'] = {'count': 2}
        if r.random() < .2:
            s['style'] = {'margin': 30}
        doc['sections'].append(s)
    if r.random() < .2:
        doc['per_page'] = [{'pages': r.choice(['1', '1:', '::2']), 'style': {'margin': r.choice([20, 50])}}]
    w, h = (595, 842) if st['page_size'] == 'a4' else st['page_size']
    m = max([st['margin'], 30] + [e['style']['margin'] for e in doc.get('per_page', [])])
    lighten(doc, h - 2 * m - 70, w - 2 * m - 15)
    return doc


def flat(x):
    """Plain text of a note."""
    if isinstance(x, dict):
        return flat(next(v for k, v in x.items() if k.startswith('.')))
    if isinstance(x, (list, tuple)):
        return ''.join(flat(y) for y in x)
    return str(x)


def paragraphs(e, where=()):
    if isinstance(e, dict):
        if 'table' in e:
            return [p for row in e['table'] for c in row for p in paragraphs(c, where + ('tables',))]
        if 'group' in e:
            return [p for c in e['group'] for p in paragraphs(c, where + ('groups',))]
        if 'content' in e:
            return [p for c in e['content'] for p in paragraphs(c, where + (('columns',) if 'cols' in e else ()))]
        return [(e['.'], where)]


def check(doc, ctx):
    notes = {}              # number of the word -> words of its note
    order = []              # paragraphs, lists of word numbers
    for s in doc['sections']:
        for e in [s]:
            for p, where in paragraphs(e):
                ws = []
                for x in p:
                    if isinstance(x, dict) and 'footnote' in x:
                        notes[x['_']] = flat(x['footnote']).split()
                        for w in set(where):
                            ctx.see('in_' + w)
                        ctx.see('rich_notes', not isinstance(x['footnote'], str))
                        ctx.see('long_notes', len(notes[x['_']]) > 10)
                    elif x != ' ':
                        ws.append(int((flat(x))[1:-1]))
                order.append(ws)
    ctx.nontrivial = len(notes) > 1

    def strip(x):
        if isinstance(x, list):
            return [strip(y) for y in x]
        if isinstance(x, dict):
            return {k: strip(v) for k, v in x.items() if k != '_'}
        return x
    rd = build.read(build.document(strip(doc)))
    drawn = []
    pos = {}
    for n, page in enumerate(rd.pages):
        words = obs.page_words(page)
        body, foot = [], []
        for w in words:
            if w.text.startswith('b'):
                body.append(w)
            else:
                foot.append(w)
        marks = []
        for w in body:
            m = re.fullmatch(r'b(\d+)\*(\d*)', w.text)
            if not m:
                ctx.bad('word', 'page %d: unknown word %r', n, w.text)
                return
            k = int(m[1])
            drawn.append(k)
            pos[k] = n
            if (k in notes) != bool(m[2]):
                ctx.bad('mark', 'page %d: word %r, a mark was %s', n, w.text, 'expected' if k in notes else 'not expected')
                return
            if m[2]:
                marks.append((k, m[2], w))
        ctx.see('marks', len(marks))
        ctx.see('pages_with_notes' if marks else 'pages_without_notes')
        ctx.see('many_notes', len(marks) > 9)
        nums = [m[1] for m in marks]
        if nums != [str(j + 1) for j in range(len(nums))]:
            ctx.bad('numbers', 'page %d: the marks show %r', n, nums[:20])
            return
        want = []
        for k, num, _ in marks:
            want += [num] + notes[k]
        got = [w.text for w in foot]
        if got != want:
            lost = [x for x in want if x not in got]
            extra = [x for x in got if x not in want]
            ctx.bad('notes-lost' if lost else 'notes-extra' if extra else 'notes-order', 'page %d with marks %r: notes lost %r, unexpected %r (drawn %r)',
                    n, [m[0] for m in marks][:6], lost[:4], extra[:4], got[:6])
            return
        if foot:
            box = [float(v) for v in page.mediabox]
            st = page.items
            rules = [i for i in st if i.kind == 'line' and abs(i.y1 - i.y2) < .01 and abs(abs(i.x2 - i.x1) - 150) < .01]
            top = max(w.y + max(c[3].rise for c in w.chars) + .7 * w.size for w in foot)
            low = min(w.y for w in body)
            if len(rules) != 1:
                ctx.bad('rule', 'page %d: %d rules above the notes', n, len(rules))
            elif not low > rules[0].y1 > foot[0].y + foot[0].size * .3:
                ctx.bad('rule-place', 'page %d: rule at %.2f, last body baseline %.2f, first note baseline %.2f', n, rules[0].y1, low, foot[0].y)
            if top > low + .01:
                ctx.bad('overlap', 'page %d: notes reach %.2f, the body %.2f', n, top, low)
            mb = doc['style']['margin']
            if 'per_page' not in doc and not any('style' in s for s in doc['sections']):
                end = min(w.y for w in foot)
                if end < mb - .01:
                    ctx.bad('below', 'page %d: notes at %.2f, bottom margin %g', n, end, mb)
                if end > mb + 40 and len(foot) == len(want):
                    ctx.see('high_notes')
                if min(w.x1 for w in foot) < mb - .01 or max(w.x2 for w in foot) > box[2] - mb + .1:
                    ctx.bad('beside', 'page %d: notes outside the margins', n)
    allw = [k for p in order for k in p]
    if sorted(drawn) != sorted(allw):
        from ..common import compare_seq
        compare_seq(ctx, sorted(allw), sorted(drawn), 'body-')
        return
    at = {k: j for j, k in enumerate(drawn)}
    for p in order:
        q = [at[k] for k in p]
        if q != sorted(q):
            ctx.bad('body-order', 'paragraph starting with b%d* is out of order', p[0])
            return
        ctx.see('split_paragraphs', pos[p[0]] != pos[p[-1]])
