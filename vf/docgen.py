"""Random whole documents covering every feature; JSON-able (images are placeholders
'IMG:<k>' that `materialise` turns into files in a scratch directory)."""
import copy
import hashlib
import io
import json
import os
import pathlib

from . import gen as G

ALIGN = 'lrcj'


class Doc:
    """Generation state of one document."""
    def __init__(self, r, o=None):
        self.r = r
        self.o = o or {}
        self.toks = G.Toks(r, special=self.o.get('special', r.choice([0, .05, .3])), maxlen=r.choice([4, 8]))
        self.images = []
        self.labels = []
        self.refs = []
        self.level = 0
        self.nfoot = 0
        self.formats = G.formats(r, {'sizes': [7, 9, 11, 13]}, 3)
        self.po = {'sizes': [7, 9, 10, 11, 12, 14], 'formats': self.formats, 'depth': 2, 'nl': r.choice([0, .1]), 'extra': self.extra}
        self.features = self.o.get('features') or {f: r.random() < .6 for f in
                                                   ('links', 'labels', 'outlines', 'foot', 'vars', 'tables', 'images', 'groups', 'boxes', 'lists')}
        self.features.update(self.o.get('force', {}))

    def has(self, f):
        return self.features.get(f)

    def extra(self, r, d):
        if self.has('links') and r.random() < .2:
            if r.random() < .5:
                d['uri'] = r.choice(['https://x.org/%d?a=(b)&c=\\d' % r.randrange(3), 'http://example.com/%d' % r.randrange(5), 'mailto:a@b.c'])
            else:
                lab = 'lab%d' % r.randrange(12)
                d['ref'] = lab
                self.refs.append(lab)
        if self.has('labels') and r.random() < .2 and 'ref' not in d:
            lab = 'lab%d' % len(self.labels)
            if r.random() < .2:
                lab += r.choice(['(x)', ' y', '\\', 'é'])
            self.labels.append(lab)
            d['label'] = lab
        if self.has('outlines') and r.random() < .15:
            self.level = r.randint(1, min(4, self.level + 1))
            d['outline'] = {'level': self.level}
            if r.random() < .6:
                d['outline']['text'] = 'Title %d%s' % (r.randrange(1000), r.choice(['', ' (a)', '\\', ' é']))

    def par_style(self):
        r = self.r
        s = {}
        if r.random() < .5:
            s['text_align'] = r.choice(ALIGN)
        if r.random() < .2:
            s['line_height'] = r.choice([1, 1.2, 1.5])
        if r.random() < .2:
            s['indent'] = r.choice([5, 15])
        if self.has('lists') and r.random() < .2:
            s['list_text'] = r.choice(['1. ', '- ', '(a) ', '\\ '])
            if r.random() < .5:
                s['list_indent'] = r.choice([15, 25])
            if r.random() < .4:
                s['list_style'] = r.choice([{'c': 'red', 's': 8}, 'fmt0'])
        return s

    def margins(self, p=.3):
        r = self.r
        return {k: r.choice([0, 3, 8.5, 20]) for k in ('margin_top', 'margin_bottom', 'margin_left', 'margin_right') if r.random() < p}

    def par(self, n=None, foot=True):
        r = self.r
        n = n or r.choice([1, 3, 10, 25, 60])
        e = G.rich(r, self.toks, n, self.po)
        if self.has('foot') and foot and self.nfoot < 5 and r.random() < .35:
            self.nfoot += 1
            k = r.randint(0, len(e))
            f = self.toks.words(r.choice([1, 4, 8]))
            e[k:k] = [{'footnote': f if r.random() < .5 else {'.': [f, ' ', {'.b': self.toks.word()}]}}, ' ']
        if self.has('vars') and r.random() < .3:
            e += [' ', {'var': r.choice(['$page', 'name', 'other'])}, ' ']
        if len(e) == 1 and isinstance(e[0], str) and r.random() < .5:
            return e[0]
        if r.random() < .25:
            return e
        d = {'.' + G.style_key(r, self.po): e}
        st = dict(G.style_dict(r, self.po) if r.random() < .3 else {}, **self.par_style())
        st.update(self.margins())
        if st:
            d['style'] = st
        self.extra(r, d)
        return d

    def image(self, maxh=80):
        r = self.r
        w = r.choice([20, 37, 64])
        if not self.images or r.random() < .5:
            self.images.append({'w': w, 'h': r.randint(3, max(4, w // 4)), 'fmt': r.choice(['jpg', 'jpg', 'png']),
                                'mode': r.choice(['RGB', 'RGB', 'L', 'CMYK', 'RGBA', 'P']), 'seed': r.randrange(1 << 30)})
        k = r.randrange(len(self.images))
        return {'image': 'IMG:%d' % k}

    def image_element(self):
        r = self.r
        e = self.image()
        st = self.margins()
        if r.random() < .5:
            st['image_place'] = r.choice(['flow', 'normal'])
        if r.random() < .3:
            st['min_height'] = r.choice([10, 20])
        if st:
            e['style'] = st
        return e

    def table(self, depth=0):
        r = self.r
        R, C = r.randint(1, 6), r.randint(1, 4)
        rows = [[None] * C for _ in range(R)]
        taken = set()
        for i in range(R):
            for j in range(C):
                if (i, j) in taken:
                    continue
                cs = rs = 1
                if r.random() < .15:
                    cs = r.randint(1, C - j)
                    rs = r.randint(1, min(3, R - i))
                    cells = {(a, b) for a in range(i, i + rs) for b in range(j, j + cs)}
                    if cells & taken:
                        cs = rs = 1
                taken |= {(a, b) for a in range(i, i + rs) for b in range(j, j + cs)}
                e = self.cell(depth)
                if cs > 1 or rs > 1:
                    if not isinstance(e, dict):
                        e = {'.': e if isinstance(e, (list, str)) else str(e) if e is not None else 'z'}
                    if cs > 1:
                        e['colspan'] = cs
                    if rs > 1:
                        e['rowspan'] = rs
                rows[i][j] = e
        t = {'table': rows}
        if r.random() < .4:
            t['widths'] = [r.choice([1, 1, 1.5, 2]) for _ in range(C)]
        if r.random() < .4:
            t['borders'] = [dict({'pos': r.choice('hv') + r.choice(['0', '-1', ':', '::2', '0,-1'])},
                                 **r.choice([{'width': 2}, {'color': 'red'}, {'style': 'dashed'}, {'width': 0}, {'style': 'dotted', 'width': 1.5}]))
                            for _ in range(r.choice([1, 2, 3]))]
        if r.random() < .4:
            t['fills'] = [{'pos': r.choice(['0', '::2', ':;0', '-1']), 'color': G.rcolor(r)} for _ in range(r.choice([1, 2]))]
        st = self.margins(.15)
        if r.random() < .3:
            st['cell_margin'] = r.choice([2, 8])
        if r.random() < .2:
            st['cell_fill'] = G.rcolor(r)
        if r.random() < .2:
            st['border_width'] = r.choice([0, 1, 3])
            st['border_color'] = G.rcolor(r)
        if r.random() < .15:
            st['s'] = 9
        if st:
            t['style'] = st
        return t

    def cell(self, depth):
        r = self.r
        k = r.random()
        if k < .5:
            return self.par(r.choice([1, 2, 5, 15]))
        if k < .6:
            return r.choice([None, 7, 2.5, ''])
        if k < .7 and self.has('images'):
            e = self.image()
            if r.random() < .3:
                e['style'] = {'cell_fill': 'yellow'}
            return e
        if k < .8 and depth < 1:
            return self.table(depth + 1)
        if k < .9 and depth < 1:
            return {'content': [self.element(depth + 2) for _ in range(r.choice([1, 2]))]}
        e = self.par(3)
        if not isinstance(e, dict):
            e = {'.': e}
        if isinstance(e.get('style', {}), dict):
            e.setdefault('style', {})['cell_fill'] = G.rcolor(r)
        return e

    def group(self):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 2])):
            k = r.random()
            if k < .3 and self.has('images'):
                e = self.image()
                e['style'] = {'min_height': r.choice([10, 25])}
                out.append(e)
            elif k < .45 and self.has('tables'):
                out.append({'table': [[self.toks.word(), self.toks.word()]]})
            else:
                out.append(self.par(r.choice([1, 2, 4]), foot=False))
        return {'group': out}

    def element(self, depth=0):
        r = self.r
        k = r.random()
        if k < .15 and self.has('images'):
            return self.image_element()
        if k < .3 and self.has('tables') and depth < 3:
            return self.table(depth)
        if k < .4 and self.has('groups') and depth < 2:
            return self.group()
        if k < .55 and self.has('boxes') and depth < 2:
            return self.box(depth + 1)
        return self.par()

    def box(self, depth=0, n=None):
        r = self.r
        b = {'content': [self.element(depth) for _ in range(n or r.choice([1, 2, 3, 5]))]}
        if r.random() < .6 and depth < 3:
            b['cols'] = {'count': r.choice([1, 2, 2, 3])}
            if r.random() < .5:
                b['cols']['gap'] = r.choice([0, 10, 25])
        st = self.margins(.15)
        if r.random() < .3:
            st.update({k: v for k, v in {'c': G.rcolor(r), 's': 9, 'text_align': 'j', 'b': True}.items() if r.random() < .4})
        if st:
            b['style'] = st
        return b

    def running(self):
        r = self.r
        n = r.choice([0, 1, 2, 3])
        out = {}
        for k in range(n):
            s = {'content': [r.choice([{'.': ['run%d ' % k, {'var': '$page'}]}, 'run%d' % k, {'.b': 'run%d' % k, 'style': {'text_align': 'c'}}])]}
            for key, vals in (('width', ['left', 'right', 'full', 120, None]), ('height', ['top', 'bottom', 'full', 60, None]),
                              ('x', ['left', 'right', 10, None]), ('y', ['top', 'bottom', 15, None])):
                if r.random() < .6:
                    v = r.choice(vals)
                    if v is not None:
                        s[key] = v
            if r.random() < .3:
                s['style'] = {'c': G.rcolor(r), 's': 8}
            out['rs%d' % k] = s
        return out

    def document(self):
        r = self.r
        size = r.choice([[300, 400], [400, 300], 'a5', 'a4', 'letter', 500])
        style = {'page_size': size, 'margin': r.choice([30, [40, 30], '20 25 30 35', 25.5])}
        for k, vals in (('rotate_page', [True, False]), ('s', [9, 10, 12]), ('f', ['Times', 'Courier', 'Helvetica']), ('c', [0, '#123', 'navy']),
                        ('text_align', list(ALIGN)), ('line_height', [1, 1.3]), ('indent', [0, 10]), ('outlines_level', [1, 2, 3]),
                        ('page_numbering_offset', [0, 3, 20]), ('page_numbering_style', ['roman', 'arabic']), ('margin_bottom', [2, 10])):
            if r.random() < .25:
                style[k] = r.choice(vals)
        rs = self.running()
        doc = {'style': style, 'formats': self.formats, 'running_sections': rs, 'sections': []}
        if r.random() < .3:
            doc['per_page'] = [dict({'pages': r.choice(['0', '1', ':', '::2', '1:3', '0,2'])},
                                    **r.choice([{'style': {'margin': 40}}, {'style': {'rotate_page': True}},
                                                {'running_sections': {'include': sorted(rs)}}, {'running_sections': {'exclude': sorted(rs)[:1]}}]))
                               for _ in range(r.choice([1, 2]))]
        for _ in range(r.choice(self.o.get('sections', [1, 1, 2, 3]))):
            s = self.box(0, r.choice([1, 3, 6, 10]))
            s.pop('style', None)
            if r.random() < .3:
                s['style'] = {k: v for k, v in {'margin': 35, 'rotate_page': r.random() < .5, 's': 10, 'page_size': [320, 420], 'page_numbering_reset': True,
                                                'page_numbering_style': 'roman'}.items() if r.random() < .4}
            if rs and r.random() < .7:
                s['running_sections'] = r.sample(sorted(rs), r.randint(0, len(rs)))
            doc['sections'].append(s)
        self.fill_refs(doc)
        ctx = {'name': self.toks.word(), 'num': 5}
        return {'doc': doc, 'images': self.images, 'context': ctx}

    def fill_refs(self, doc):
        """Every reference must name a label of the document."""
        missing = [x for x in set(self.refs) if x not in self.labels]
        if missing:
            doc['sections'][-1]['content'].append({'.': [{'.': 'target%d ' % k, 'label': x} for k, x in enumerate(sorted(missing))]})
            self.labels += sorted(missing)


def document(r, o=None):
    return Doc(r, o).document()


# ---- images
def make_image(spec, path):
    import random
    from PIL import Image
    w, h = spec['w'], spec['h']
    rr = random.Random(spec['seed'])
    mode = spec['mode']
    if spec['fmt'] != 'png' and mode in ('RGBA', 'P', 'LA', '1'):
        mode = 'RGB'
    if spec['fmt'] == 'png' and mode == 'CMYK':
        mode = 'RGB'
    # smooth gradients survive lossy compression
    base = [[rr.randrange(256) for _ in range(4)] for _ in range(4)]
    im = Image.new('RGBA', (w, h))
    px = im.load()
    for y in range(h):
        for x in range(w):
            a, b = x / max(1, w - 1), y / max(1, h - 1)
            px[x, y] = tuple(int((base[0][c] * (1 - a) + base[1][c] * a) * (1 - b) + (base[2][c] * (1 - a) + base[3][c] * a) * b) for c in range(4))
    if mode != 'RGBA':
        im = im.convert('RGB').convert(mode) if mode != 'P' else im.convert('RGB').convert('P', palette=Image.ADAPTIVE)
    im.save(path, {'jpg': 'JPEG', 'jpeg': 'JPEG', 'png': 'PNG'}[spec['fmt']], **({'quality': 90, 'progressive': bool(spec['seed'] % 3 == 0)} if spec['fmt'] != 'png' else {}))


def image_path(spec, scratch):
    key = hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16]
    path = os.path.join(scratch, '%s.%s' % (key, spec['fmt']))
    if not os.path.exists(path):
        tmp = path + '.%d' % os.getpid()
        make_image(spec, tmp)
        os.rename(tmp, path)
    return path


def handed(spec, scratch, streams):
    """The keys that hand the picture over: by path or, for some pictures, as a file object."""
    path = image_path(spec, scratch)
    kind = (spec['w'] * 7 + spec['h']) % 6
    if kind == 0 and streams:
        with open(path, 'rb') as f:
            return {'image': io.BytesIO(f.read()), 'extension': spec['fmt'], 'image_name': os.path.basename(path)}
    return {'image': pathlib.Path(path) if kind == 1 else path}


def materialise(doc, images, scratch, streams=True):
    """Deep copy of doc with image placeholders replaced by pictures."""
    if isinstance(doc, dict):
        out = {}
        for k, v in doc.items():
            if k == 'image' and isinstance(v, str) and v.startswith('IMG:'):
                out.update(handed(images[int(v[4:])], scratch, streams))
            else:
                out[k] = materialise(v, images, scratch, streams)
        return out
    if isinstance(doc, (list, tuple)):
        return [materialise(v, images, scratch, streams) for v in doc]
    return copy.deepcopy(doc)


def build_case(case, scratch):
    from . import build
    return build.document(materialise(case['doc'], case['images'], scratch), case.get('context'))
