"""C06: link areas cover exactly the drawn text of their link, with the right target."""
import collections

from .. import build, marks, obs
from ..pdfread import PStr

CASES = {'quick': 14000, 'thorough': 420000}
NEED = {'linked_chars': 50000, 'areas': 5000, 'plain_chars': 50000, 'uri_areas': 1000, 'ref_areas': 1000, 'split_links': 300}
RULE = ('random rich text with web links and references (also nested in one another) over lines, columns, cells and pages, all alignments, indents '
        'and list marks; each drawn character is matched with the areas of its page. Non-trivial with a link drawn')
ASSUME = ['standard fonts, Latin-1 text']


def gen(r, tier, i):
    m = marks.Marks(r, r.choice(['u', 'r', 'ur', 'ur', 'url']), r.choice([.2, .5]))
    return marks.case(r, m)


def check(case, ctx):
    rd = build.read(marks.draw(case))
    if marks.overlong(case):
        ctx.see('overlong')
        ctx.nontrivial = False
        return
    chars, lost = marks.located(case, rd)
    areas = collections.defaultdict(list)
    for p in rd.pages:
        for a in p.annots():
            if a.get('Subtype') != 'Link':
                ctx.bad('kind', 'annotation %r', a)
                continue
            r = [float(v) for v in a['Rect']]
            if 'A' in a:
                t = ('uri', bytes(a['A'].get('URI', b'')))
                if a['A'].get('S') != 'URI':
                    ctx.bad('kind', 'action %r', a['A'])
                ctx.see('uri_areas')
            else:
                d = a.get('Dest')
                t = ('ref', bytes(d) if isinstance(d, PStr) else d)
                ctx.see('ref_areas')
            areas[t, p.index].append([r, 0, set()])
            ctx.see('areas')
    # ---- every linked character lies in an area with its target
    links = collections.defaultdict(set)
    for c in chars:
        mine = {(k, marks.encode(v)) for k, v in c.ids if k in ('uri', 'ref')}
        c.word = mine
        x, y = c.mid
        for t in mine:
            ctx.see('linked_chars')
            ctx.nontrivial = True
            links[t].add((c.page, round(c.y, 1)))
            hits = []
            for a in areas[t, c.page]:
                r = a[0]
                if r[0] - .1 <= x <= r[2] + .1 and r[1] - .1 <= y <= r[3] + .1:
                    a[1] += 1
                    a[2].add((round(abs(r[1] - (y - .5 * c.size)), 1), round(c.y, 1), round(c.rise, 2)))
                    hits.append(r)
            if not hits:
                ctx.bad('uncovered', '%r on page %d at %.2f,%.2f has no area for %r (areas %r)', c.ch, c.page, c.x1, c.y, t,
                        [a[0] for a in areas[t, c.page]][:4])
            elif not any(r[0] <= c.x1 + .1 and c.x2 <= r[2] + .1 for r in hits):
                ctx.bad('cut', '%r at %.2f..%.2f sticks out of its area %r', c.ch, c.x1, c.x2, hits)
            elif not any(r[1] <= y - .25 * c.size + .1 and r[3] >= y + .3 * c.size - .1 and r[1] >= y - .9 * c.size and r[3] <= y + c.size * 1.1 for r in hits):
                ctx.bad('height', '%r (size %g, baseline %.2f, rise %.2f) has the area %r', c.ch, c.size, c.y, c.rise, hits)
        if not mine:
            ctx.see('plain_chars')
    for t, ls in links.items():
        ctx.see('split_links', len(ls) > 1)
    # ---- list marks are not part of links
    mine = {(c.page, round(c.y, 1), round(c.x1, 1)) for c in chars}
    if lost == 0:
        left = collections.defaultdict(lambda: 1e9)
        for c in chars:
            k = (c.page, round(c.y, 1))
            left[k] = min(left[k], c.x1)
        for w in obs.all_words(rd):
            if w.x2 > left[w.page, round(w.y, 1)] + .1:
                continue     # the mark is wider than its indent
            for ch, x, wd, it in w.chars:
                if (w.page, round(w.y, 1), round(x, 1)) not in mine:
                    ctx.see('list_marks')
                    for (t, pg), lst in areas.items():
                        for r, n, ls in lst:
                            if pg == w.page and r[0] + .1 < x + wd / 2 < r[2] - .1 and r[1] < w.y + it.rise + .25 * it.size < r[3] and any(y == round(w.y, 1) for d, y, _ in ls if d < .2):
                                ctx.bad('mark', 'the area %r covers the list mark %r', r, w.text)
    # ---- every area covers linked text and nothing else on its line
    byline = collections.defaultdict(list)
    for c in chars:
        byline[c.page, round(c.y, 1), round(c.rise, 2)].append(c)
    for (t, pg), lst in areas.items():
        for r, n, ls in lst:
            # (the small text of a neighbouring line may lie in the area too)
            near = {l[1:] for l in ls if l[0] == min(ls)[0]}
            if n == 0:
                ctx.bad('stray', 'the area %r on page %d for %r covers no text of that link', r, pg, t)
            for y, rise in near:
                for c in byline[pg, y, rise]:
                    if t not in c.word and r[0] + .1 < (c.x1 + c.x2) / 2 < r[2] - .1:
                        ctx.bad('too-wide', 'the area %r on page %d for %r covers %r, which is not part of it', r, pg, t, c.ch)
                        break
