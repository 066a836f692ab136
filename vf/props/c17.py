"""C17: sections, page styles and running sections apply to the pages they name."""
import copy
import re

from .. import build, metrics, obs
from ..common import PAGE

CASES = {'quick': 3600, 'thorough': 108000}
NEED = {'pages': 4000, 'sections': 1500, 'running_drawn': 3000, 'per_page_hits': 1500, 'split_sections': 500, 'returns_to_base': 300,
        'full_pages': 800, 'changed_mid_section': 300, 'given_pages': 300}
RULE = ('random documents of several sections (and documents built page by page with PDF) with page styles, per-page entries in every notation and running sections placed by name, number or default; '
        'every page of the file compared with the page the rules give: size, margins, filling, running sections, their order, place, size and text, and '
        'the body compared with the same document without running sections. Non-trivial with 2 pages')
ASSUME = ['text of single words in the standard fonts; per-page entries are applied in their order, exclusions before inclusions']

SIDES = ('top', 'right', 'bottom', 'left')


def margin(r):
    v = [r.choice([10, 20, 30, 36, 45.5, 60]) for _ in range(r.choice([1, 1, 2, 3, 4]))]
    k = r.random()
    if len(v) == 1 and k < .5:
        return v[0]
    if k < .7:
        return v
    if k < .85:
        return r.choice([' ', ',']).join(map(str, v))
    return {s: r.choice([10, 20, 33.5, 50]) for s in SIDES}


def sides(m):
    if isinstance(m, dict):
        return m
    if isinstance(m, str):
        m = [float(x) for x in re.split('[ ,]', m)]
    if isinstance(m, (int, float)):
        m = [m]
    m = list(m)
    m = {1: m * 4, 2: m * 2, 3: m + m[1:2], 4: m}[len(m)]
    return dict(zip(SIDES, m))


def page_style(r, p=.5):
    st = {}
    if r.random() < p:
        st['page_size'] = r.choice(['a5', 'b5', 'letter', [300, 250], [260, 400], [350, 300], 300, 320.5, [400, 220]])
    if r.random() < p:
        st['rotate_page'] = r.random() < .6
    if r.random() < p:
        st['margin'] = margin(r)
    return st


def spec(r):
    def one():
        a = r.randrange(0, 7)
        return r.choice([str(a), '%d:%d' % (a, a + r.randint(1, 4)), '%d:' % a, ':%d' % a, '::2', '%d::%d' % (a, r.choice([2, 3])),
                         '%d:%d:2' % (a, a + 6)])
    return ','.join(one() for _ in range(r.choice([1, 1, 2, 3])))


def selects(s, n):
    for p in s.split(','):
        if ':' not in p:
            if int(p) == n:
                return True
            continue
        q = [int(x) if x.strip() else None for x in p.split(':')]
        if n in range(100)[slice(*q)]:
            return True
    return False


def gen(r, tier, i):
    if r.random() < .2:
        return gen_ops(r)
    doc = {'style': page_style(r, .4)}
    doc['style']['s'] = r.choice([8, 10, 11, 14])
    if r.random() < .7 and 'page_size' not in doc['style']:
        doc['style']['page_size'] = r.choice([[300, 250], [260, 330], 280])
    if r.random() < .15:
        del doc['style']
    names = ['header', 'footer', 'zz', 'Aside', 'b-2', 'note'][:r.choice([0, 2, 3, 5, 6])]
    r.shuffle(names)
    rs = {}
    for k, name in enumerate(names):
        d = {}
        for key, ch in (('x', ['left', 'right', 0, 12.5, 50, None]), ('y', ['top', 'bottom', 0, 7, 100.25, None]),
                        ('width', ['left', 'right', 'full', 90, 150, 150, 200, None]), ('height', ['top', 'bottom', 'full', 40, 100, None])):
            v = r.choice(ch + ['absent'])
            if v != 'absent':
                d[key] = v
        st = {'s': r.choice([5, 6, 7, 8])}
        if r.random() < .5:
            st['text_align'] = r.choice('lrc')
        if r.random() < .8:
            d['style'] = st
        n = r.choice([1, 2, 5, 10, 30])
        d['content'] = [' '.join('r%dw%d' % (k, j) for j in range(n))]
        if r.random() < .1:
            d['content'].append('r%dw%d' % (k, n))
        rs[name] = d
    if rs:
        doc['running_sections'] = rs
    doc['sections'] = []
    for k in range(r.choice([1, 2, 3, 4])):
        st = page_style(r, .35)
        if r.random() < .3:
            st['s'] = r.choice([8, 10, 12])
        s = {'content': []}
        if st or r.random() < .3:
            s['style'] = st
        if names and r.random() < .8:
            s['running_sections'] = [r.choice(names) if r.random() < .1 else x for x in r.sample(names, r.randint(0, len(names)))]
        n = 0
        for _ in range(r.choice([1, 2, 5, 12])):
            m = r.choice([1, 3, 20, 60, 150])
            s['content'].append(' '.join('s%dw%d' % (k, n + j) for j in range(m)))
            n += m
        doc['sections'].append(s)
    pp = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        e = {'pages': spec(r)}
        if r.random() < .7:
            e['style'] = page_style(r, .5)
        if names and r.random() < .7:
            e['running_sections'] = {}
            for a in ('exclude', 'include'):
                if r.random() < .7:
                    e['running_sections'][a] = r.sample(names, r.randint(0, len(names)))
        pp.append(e)
    if pp:
        doc['per_page'] = pp
    return doc


def expected(doc, section, n):
    """(width, height, margins, names of the running sections) of page n."""
    args = {'page_size': 'a4', 'rotate_page': False, 'margin': 56.693}
    names = []
    st = dict(doc.get('style', {}), **section.get('style', {}))
    args.update({k: st[k] for k in args if k in st})
    for x in section.get('running_sections', []):
        if x not in names:
            names.append(x)
    hit = False
    for e in doc.get('per_page', []):
        if selects(e['pages'], n):
            hit = True
            args.update({k: v for k, v in e.get('style', {}).items() if k in args})
            p = e.get('running_sections', {})
            names = [x for x in names if x not in p.get('exclude', [])]
            for x in p.get('include', []):
                if x not in names:
                    names.append(x)
    s = args['page_size']
    w, h = PAGE[s] if isinstance(s, str) else (s, s) if isinstance(s, (int, float)) else s
    if args['rotate_page']:
        w, h = h, w
    return w, h, sides(args['margin']), names, hit


def rect(d, w, h, m):
    g = {k: v for k, v in d.items() if v is not None}
    x = {'left': m['left'], 'right': w - m['right']}.get(g.get('x', 0), g.get('x', 0))
    y = {'top': m['top'], 'bottom': h - m['bottom']}.get(g.get('y', 0), g.get('y', 0))
    W = {'left': m['left'], 'right': m['right'], 'full': w, None: w - m['left'] - m['right']}.get(g.get('width'), g.get('width'))
    H = {'top': m['top'], 'bottom': m['bottom'], 'full': h, None: h - m['top'] - m['bottom']}.get(g.get('height'), g.get('height'))
    return x, y, W, H


def fill(words, width, size):
    """Lines a greedy breaking gives."""
    out = []
    for w in words:
        t = ' '.join(out[-1] + [w]) if out else w
        if not out or metrics.width('Helvetica', t, size) > width + 1e-7:
            out.append([w])
        else:
            out[-1].append(w)
    return out


def check(doc, ctx):
    if 'ops' in doc:
        return run_ops(doc, ctx)
    data = build.document(doc)
    rd = build.read(data)
    plain = copy.deepcopy(doc)
    plain.pop('running_sections', None)
    for s in plain['sections']:
        s.pop('running_sections', None)
    for e in plain.get('per_page', []):
        e.pop('running_sections', None)
    rd2 = build.read(build.document(plain))
    ctx.nontrivial = len(rd.pages) > 1
    ctx.see('pages', len(rd.pages))
    ctx.see('sections', len(doc['sections']))
    if len(rd2.pages) != len(rd.pages):
        ctx.bad('body-pages', '%d pages with running sections, %d without', len(rd.pages), len(rd2.pages))
        return
    names = list(doc.get('running_sections', {}))
    sec = -1
    last = None
    base = expected({'style': doc.get('style', {})}, {}, 0)[:3]
    todo = [[w for p in s['content'] for w in p.split()] for s in doc['sections']]
    starts = [{p.split()[0] for p in s['content']} for s in doc['sections']]
    prev = None
    for n, page in enumerate(rd.pages):
        words = unglued(obs.page_words(page))
        body = [w for w in words if w.text.startswith('s')]
        body2 = [w for w in unglued(obs.page_words(rd2.pages[n]))]
        # ---- which section
        if not body:
            ctx.bad('blank', 'page %d holds nothing of any section', n)
            return
        ks = {int(w.text[1:w.text.index('w')]) for w in body}
        if len(ks) > 1:
            ctx.bad('shared-page', 'page %d holds text of sections %r', n, sorted(ks))
            return
        k = ks.pop()
        if k != sec:
            if k != sec + 1 or (sec >= 0 and todo[sec]):
                ctx.bad('section-order', 'page %d belongs to section %d, after section %d with %d words to go', n, k, sec, len(todo[sec]) if sec >= 0 else 0)
                return
            sec = k
        else:
            ctx.see('split_sections')
        if sum(w.text[0] not in 'sr' for w in words):
            ctx.bad('stray', 'page %d holds unknown words %r', n, [w.text for w in words if w.text[0] not in 'sr'][:4])
        section = doc['sections'][k]
        w, h, m, exp, hit = expected(doc, section, n)
        ctx.see('per_page_hits', hit)
        if (w, h, m) == base and prev is not None and prev[1:] != (w, h, m):
            ctx.see('returns_to_base')
        if prev is not None and prev[0] == k and prev[1:] != (w, h, m):
            ctx.see('changed_mid_section')
        prev = (k, w, h, m)
        # ---- size and margins
        box = [float(v) for v in page.mediabox]
        if max(abs(a - b) for a, b in zip(box, (0, 0, w, h))) > .002:
            ctx.bad('page-size', 'page %d (section %d) is %r, expected %r', n, k, box, [w, h])
            return
        size = section.get('style', {}).get('s', doc.get('style', {}).get('s', 11))
        if [x.text for x in body] != todo[k][:len(body)]:
            ctx.bad('body', 'page %d draws %r, expected %r', n, [x.text for x in body][:6], todo[k][:6])
            return
        todo[k] = todo[k][len(body):]
        W = w - m['left'] - m['right']
        lines = obs.lines(body)
        # paragraphs of the page, filled greedily
        parts = []
        for x in body:
            if x.text in starts[k] or not parts:
                parts.append([])
            parts[-1].append(x.text)
        got = [[x.text for x in l] for l in lines]
        want = []
        for part in parts:
            # a line exactly as wide as the column may go either way
            a, b = fill(part, W, size), fill(part, W - 1e-6, size)
            want += b if a != b and got[len(want):len(want) + len(b)] == b else a
        if got != want:
            d = next((a, b) for a, b in zip(got + [None], want + [None]) if a != b)
            ctx.bad('width', 'page %d: line %r, expected %r in a width of %g', n, d[0], d[1], W)
            return
        for l in lines:
            if abs(l[0].x1 - m['left']) > .02:
                ctx.bad('left', 'page %d: line starts at %.2f, the left margin is %g', n, l[0].x1, m['left'])
                return
        top, low = lines[0][0].y, lines[-1][0].y
        if not size * .98 <= h - m['top'] - top <= size * 1.25:
            ctx.bad('top', 'page %d: first baseline %.2f below the top margin at size %g', n, h - m['top'] - top, size)
        if low < m['bottom'] - .01:
            ctx.bad('bottom', 'page %d: last baseline at %.2f, the bottom margin is %g', n, low, m['bottom'])
        if todo[k]:
            ctx.see('full_pages')
            need = 1.1 * size + (5 if todo[k][0] in starts[k] else 0)
            if low - need > m['bottom'] + .1 * size + .1:      # a line reaches a tenth of its size below its base line
                ctx.bad('unused', 'page %d ends at %.2f with room for another line of %g above the bottom margin at %g', n, low, need, m['bottom'])
        # ---- the body is not affected by running sections
        a = [(x.text, round(x.x1, 2), round(x.y, 2)) for x in body]
        b = [(x.text, round(x.x1, 2), round(x.y, 2)) for x in body2]
        if a != b:
            d = next((p, q) for p, q in zip(a + [None], b + [None]) if p != q)
            ctx.bad('body-moved', 'page %d: %r, without running sections %r', n, *d)
        # ---- running sections
        want = [(j, doc['running_sections'][j], rect(doc['running_sections'][j], w, h, m)) for j in exp]
        if running(ctx, n, words, want, h, doc.get('style', {}).get('s', 11), names):
            return
    for k, t in enumerate(todo):
        if t:
            ctx.bad('lost', 'section %d: %d words not drawn, from %r', k, len(t), t[0])
            return


def unglued(words):
    """Words of sections that touch exactly come out as one: take them apart at
    the letter that starts every word of a document."""
    out = []
    for x in words:
        cur = None
        for c in x.chars:
            if cur is None or c[0] in 'rs' and cur.chars[-1][0].isdigit():
                cur = obs.OWord(x.page, x.y)
                out.append(cur)
            cur.chars.append(c)
    return [x.done() for x in out]


def running(ctx, n, words, exp, h, size, names):
    """The running sections of page n; true when something is wrong."""
    shown = []
    for x in words:
        if x.text.startswith('r'):
            j = names[int(x.text[1:x.text.index('w')])]
            if not shown or shown[-1][0] != j:
                shown.append((j, []))
            shown[-1][1].append(x)
    want = []
    close = set()       # line ends so near the bottom that it may go either way
    for j, d, (x, y, RW, RH) in exp:
        st = d.get('style', {})
        s = st.get('s', size)
        al = st.get('text_align', 'l')
        rows = []
        yy = y
        for e, p in enumerate(d['content']):
            ls = fill(p.split(), RW, s)
            fit = 0
            for q in range(len(ls)):
                # every line takes size * line height
                end = yy + (5 if e else 0) + s * 1.1 * (q + 1)
                if end <= y + RH + .01:
                    fit = q + 1
                if abs(end - y - RH) < .3 * s:
                    close.add(j)
            rows.append((ls, fit))
            yy += (5 if e else 0) + s * 1.1 * len(ls)
            if fit < len(ls):
                break
        want.append((j, rows, (x, y, RW, RH), s, al))
    # a section whose height only just decides about the first line may go either way
    edge = {q[0] for q in want if abs(q[3] * 1.1 - q[2][3]) < .3 * q[3]}
    a = [j for j, _ in shown if j not in edge]
    b = [q[0] for q in want if q[1][0][1] > 0 and q[0] not in edge]
    if a != b:
        extra = [j for j in a if j not in [q[0] for q in want]]
        lost = [j for j in b if j not in a]
        ctx.bad('running-extra' if extra else 'running-lost' if lost else 'running-order',
                'page %d carries the running sections %r, expected %r', n, a, b)
        return True
    got = dict(shown)
    for j, rows, (x, y, RW, RH), s, al in want:
        if j not in got:
            continue
        ctx.see('running_drawn')
        gl = obs.lines(got[j])
        wl = [l for p, fit in rows for l in p]
        gw = [[q.text for q in l] for l in gl]
        nfit = sum(fit for _, fit in rows)
        if gw != wl[:len(gw)]:
            d = next((p, q) for p, q in zip(gw, wl + [None]) if p != q)
            ctx.bad('running-width', 'page %d, running section %s: line %r, expected %r in a width of %g', n, j, d[0], d[1], RW)
            return True
        if len(gw) != nfit and abs(len(gw) - nfit) > (j in close):
            ctx.bad('running-height', 'page %d, running section %s: %d of %d lines drawn, %d fit a height of %g at size %g', n, j, len(gw), len(wl), nfit, RH, s)
            return True
        for l in gl:
            lw = l[-1].x2 - l[0].x1
            lx = {'l': x, 'r': x + RW - lw, 'c': x + (RW - lw) / 2}[al]
            if lw <= RW and abs(l[0].x1 - lx) > .05:
                ctx.bad('running-x', 'page %d, running section %s: line at %.2f, expected %.2f', n, j, l[0].x1, lx)
                return True
            if any(abs(q.size - s) > .01 for q in l):
                ctx.bad('running-size', 'page %d, running section %s: text of size %g, expected %g', n, j, l[0].size, s)
        drop = h - y - gl[0][0].y
        if not s * .98 <= drop <= s * 1.25:
            ctx.bad('running-y', 'page %d, running section %s: first baseline %.2f below its top at %g, size %g', n, j, drop, y, s)
            return True


def gen_ops(r):
    """A document built page by page."""
    ops = [['new', page_style(r, .7)]]
    n = pages = words = 0
    while pages < 6:
        k = r.random()
        if k < .2:
            ops.append(['setup', page_style(r, .5)])
        elif k < .4 and n < 6:
            ops.append(['running', {'style': {'s': r.choice([5, 7, 8])}, 'content': [' '.join('r%dw%d' % (n, j) for j in range(r.choice([1, 4, 12])))]},
                        r.choice([50, 90, 150]), r.choice([30, 80]), r.choice([0, 12.5, 60]), r.choice([0, 33, 100])])
            n += 1
        elif k < .8 or not pages:
            ops.append(['page', page_style(r, .4) if r.random() < .6 else {}])
            pages += 1
        else:
            m = r.choice([1, 20, 200, 500])
            ops.append(['text', ' '.join('s0w%d' % (words + j) for j in range(m))])
            words += m
    ops.append(['text', ' '.join('s0w%d' % (words + j) for j in range(3))])
    return {'ops': ops}


def run_ops(case, ctx):
    from pdfme import PDF
    state = {'page_size': 'a4', 'rotate_page': False, 'margin': 56.693}
    pages = []
    rs = []
    used = []

    def geom(st):
        s = st['page_size']
        w, h = PAGE[s] if isinstance(s, str) else (s, s) if isinstance(s, (int, float)) else s
        return (h, w) if st['rotate_page'] else (w, h)
    with build.guard():
        for op in case['ops']:
            if op[0] == 'new':
                pdf = PDF(**op[1])
                state.update(op[1])
            elif op[0] == 'setup':
                pdf.setup_page(**op[1])
                state.update(op[1])
            elif op[0] == 'running':
                pdf.add_running_section(copy.deepcopy(op[1]), *op[2:])
                rs.append((str(len(rs)), op[1], (op[4], op[5], op[2], op[3])))
            elif op[0] == 'page':
                pdf.add_page(**op[1])
                st = dict(state, **op[1])
                pages.append((geom(st), sides(st['margin']), list(rs)))
                used.append('given' if op[1] else '')
            else:
                pdf.text(op[1])
                while len(pages) < len(pdf.pages):
                    pages.append((geom(state), sides(state['margin']), list(rs)))
                    used.append('auto')
    rd = build.read(build.output(pdf))
    ctx.nontrivial = len(pages) > 1
    if len(rd.pages) != len(pages):
        ctx.bad('count', '%d pages in the file, %d were added', len(rd.pages), len(pages))
        return
    for n, (page, ((w, h), m, want)) in enumerate(zip(rd.pages, pages)):
        ctx.see('pages')
        ctx.see('given_pages', used[n] == 'given')
        box = [float(v) for v in page.mediabox]
        if max(abs(a - b) for a, b in zip(box, (0, 0, w, h))) > .002:
            ctx.bad('page-size', 'page %d is %r, expected %r', n, box, [w, h])
            return
        words = unglued(obs.page_words(page))
        body = obs.lines([x for x in words if x.text.startswith('s')])
        if body:
            if not 11 * .98 <= h - m['top'] - body[0][0].y <= 11 * 1.25:
                ctx.bad('top', 'page %d: first baseline %.2f below the top margin', n, h - m['top'] - body[0][0].y)
            if body[-1][0].y < m['bottom'] - .01:
                ctx.bad('bottom', 'page %d: last baseline at %.2f, the bottom margin is %g', n, body[-1][0].y, m['bottom'])
            for l in body:
                if abs(l[0].x1 - m['left']) > .02:
                    ctx.bad('left', 'page %d: line starts at %.2f, the left margin is %g', n, l[0].x1, m['left'])
                    return
                if l[-1].x2 > w - m['right'] + .05 and len(l) > 1:
                    ctx.bad('right', 'page %d: line ends at %.2f, the right margin is at %g', n, l[-1].x2, w - m['right'])
                    return
            if n + 1 < len(pages) and used[n + 1] == 'auto' and body[-1][0].y - 12.1 > m['bottom'] + 1.2:
                ctx.bad('unused', 'page %d ends at %.2f with room for another line above the bottom margin at %g', n, body[-1][0].y, m['bottom'])
        if running(ctx, n, words, want, h, 11, [q[0] for q in rs]):
            return
