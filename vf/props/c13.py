"""C13: grouped elements are never separated by a column or page break."""
import collections

from .. import build
from . import c11, c12

CASES = {'quick': 5000, 'thorough': 150000}
NEED = {'groups': 6000, 'members': 15000, 'group_images': 4000, 'shrunk_images': 1000, 'moved_groups': 80, 'multi_column_boxes': 1000, 'shrunk_to_fit': 300}
RULE = ('content boxes full of groups (paragraphs, lists, images with and without a minimum height, one-row tables) after texts of every length, in one to three '
        'columns and nested boxes. Non-trivial with 2 or more groups')
ASSUME = ['groups fit in a column', 'standard font metrics']
EPS = .15


class Gen(c12.Gen):
    def image(self, w, group=False):
        if not group:
            return super().image(w)
        r = self.r
        k = len(self.images)
        wpx = 40 + k
        st = {}
        if r.random() < .6:
            st['min_height'] = r.choice([6, 10, 18])
            ratio = r.uniform(.05, 1.2)
        else:
            ratio = min(.9, self.room / 6 / w) * r.uniform(.1, 1)
        self.images.append({'w': wpx, 'h': max(2, int(wpx * ratio)), 'fmt': 'jpg', 'mode': 'L', 'seed': 1})
        e = {'image': 'IMG:%d' % k}
        st.update({k: v for k, v in self.margins(.1).items() if k in ('margin_left', 'margin_right')})
        if st:
            e['style'] = st
        return e

    def group(self, w):
        r = self.r
        out = []
        pictures = r.random() < .2
        for _ in range(r.choice([1, 2, 3, 4])):
            k = r.random()
            if pictures and k < .7:
                out.append(self.image(w, True))
                if out[-1].get('style', {}).get('min_height'):
                    self.images[-1]['h'] = int(self.images[-1]['w'] * r.uniform(.4, 1.2))
            elif k < .5:
                out.append(self.par(r.choice([1, 2, 4, 8] if w > 150 else [1, 2, 3])))
                out[-1].get('style', {}).pop('line_height', None)
            elif k < .85:
                out.append(self.image(w, True))
            else:
                out.append(self.table(True))
        out[0].get('style', {}).pop('margin_top', None)
        g = {'group': out, 'style': self.margins()}
        if r.random() < .2:
            g['style']['shrink'] = 1
        return g


def gen(r, tier, i):
    w, h = r.choice([(420, 300), (500, 400), (700, 300)])
    m = r.choice([10, 20])
    g = Gen(r, {'kinds': r.choice(['pgg', 'pgggi', 'ppgggb', 'pgtb', 'ggb']), 'depth': 2})
    g.room = h - 2 * m
    driver = r.choice(['content', 'content', 'doc', 'text+content'])
    case = {'driver': driver, 'size': [w, h], 'margin': m}
    case['box'] = g.box(w - 2 * m, 0, r.choice([2, 4, 8, 14]))
    case['images'] = g.images
    if driver == 'text+content':
        case['before'] = g.par(r.choice([3, 20, 60]))
        case['before'].get('style', {}).pop('list_text', None)
    return case


def check(case, ctx):
    data, X, W, tops = c12.draw(case, ctx.scratch)
    rd = build.read(data)
    got = c12.collect(case, ctx, rd, X, W, tops)
    if not got:
        return
    pieces, leaves = got
    by = collections.defaultdict(list)
    for p in pieces:
        by[id(p.leaf)].append(p)
    cols = collections.defaultdict(list)
    for p in pieces:
        cols[p.page, p.path[:1]].append(p)
    groups = collections.OrderedDict()
    for l in leaves:
        if l.group is not None:
            groups.setdefault(id(l.group), []).append(l)
    ctx.nontrivial = len(groups) > 1
    for members in groups.values():
        one(case, ctx, members, by, cols, tops)
        if ctx.v:
            return
    moved(case, ctx, leaves, by, tops)


def one(case, ctx, members, by, cols, tops):
    ps = []
    for l in members:
        ctx.see('members')
        got = by[id(l)]
        if not got:
            ctx.bad('lost', 'the group element %r is not drawn', str(l.e)[:40])
            return
        if len(got) > 1:
            ctx.bad('split', 'one element of a group is drawn in pieces: %r', got)
            return
        ps.append(got[0])
    if len({(p.page, p.path) for p in ps}) > 1:
        ctx.bad('separated', 'the elements of a group are on different pages or columns: %r', [(p, p.path) for p in ps])
        return
    for a, b in zip(ps, ps[1:]):
        if b.top > a.bottom + EPS:
            ctx.bad('order', 'the elements of a group are not one below the other: %r', ps)
            return
    low = tops[min(ps[0].page, len(tops) - 1)][1]
    if ps[-1].bottom < low - .1:
        ctx.bad('below', 'the group %r ends at %.2f, below the end of its column at %.2f', ps, ps[-1].bottom, low)
        return
    mine = set(map(id, members))
    for q in cols[ps[0].page, ps[0].path[:1]]:
        if id(q.leaf) not in mine and q.path[:len(ps[0].path)] == ps[0].path and ps[-1].bottom + EPS < q.top < ps[0].top - EPS:
            ctx.bad('intruder', '%r is drawn inside the group %r', q, ps)
            return
    images(case, ctx, ps, tops)


def images(case, ctx, ps, tops):
    some = False
    full = []
    for p in ps:
        l = p.leaf
        if 'image' not in l.e:
            continue
        ctx.see('group_images')
        spec = case['images'][int(l.e['image'][4:])]
        w, h = p.x2 - p.x1, p.top - p.bottom
        fw = p.cw - l.ml - l.mr
        fh = fw * spec['h'] / spec['w']
        if abs(h - w * spec['h'] / spec['w']) > .05:
            ctx.bad('proportions', '%r is %.2f x %.2f, its picture %r x %r', p, w, h, spec['w'], spec['h'])
        mh = l.e.get('style', {}).get('min_height')
        if w > fw + EPS:
            ctx.bad('image-size', '%r is %.2f wide, its column only %.2f', p, w, fw)
        if mh is None:
            if w < fw - EPS:
                ctx.bad('image-size', '%r is %.2f wide though it may not be shrunk from %.2f', p, w, fw)
        elif h < min(mh, fh) - .05:
            ctx.bad('image-size', '%r is %.2f high, less than its minimum %r', p, h, mh)
        elif h < fh - .1:
            ctx.see('shrunk_images')
            ctx.see('shrunk_to_fit', not l.group.get('style', {}).get('shrink'))
            if h > mh + .1 or not l.group.get('style', {}).get('shrink'):
                some = True
        else:
            full.append(p)
    # ---- shrunk no more than needed
    if some and all(b.n == 1 for b in ps[0].leaf.boxes) and not full and not ctx.v:
        bottom = tops[min(ps[0].page, len(tops) - 1)][1]
        if ps[0].leaf.boxes and abs(ps[-1].bottom - bottom) > .1:
            ctx.bad('shrunk', 'the images of the group %r are shrunk more or less than needed: it ends at %.2f, its column at %.2f', ps, ps[-1].bottom, bottom)


def moved(case, ctx, leaves, by, tops):
    """A group goes to the next page only if it did not fit."""
    if case['box'].get('cols', {}).get('count', 1) > 1:
        return
    prev = None
    for e in case['box']['content']:
        mine = [l for l in leaves if l.e is e or l.group is e]
        if 'group' in e:
            ps = [by[id(l)][0] for l in mine]
            if prev is not None and ps[0].page > prev.page:
                ctx.see('moved_groups')
                bottom = tops[min(prev.page, len(tops) - 1)][1]
                used = prev.leaf.mb + mine[0].mt + ps[0].top - ps[-1].bottom + 1.5
                if prev.bottom - used > bottom + EPS:
                    ctx.bad('needless-move', 'the group %r was moved to page %d though %.2f were left below %r and it needs %.2f', ps, ps[0].page, prev.bottom - bottom, prev, used)
                    return
        prev = None
        if len(mine) == 1 and 'group' not in e and 'image' not in e and 'content' not in e and by[id(mine[0])]:
            prev = by[id(mine[0])][-1]
