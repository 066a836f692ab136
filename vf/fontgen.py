"""Small TrueType fonts made from a description, and what is inside a font file."""
import io
import random

POOLS = ['ABCDEFGHIJKLMNOPQRSTUVWXYZ', 'abcdefghijklmnopqrstuvwxyz', '0123456789', '()\\[]<>/%#.,;:-!\'"&', '\xe9\xf1\xfc\xdf\xa9\xbf', 'αβγδωΩ', 'жщюЯЁ', '漢字語',
         '\U0001f600\U0001f680\U00010348', 'ﬁ–—“”€\u0301']


def spec(r, mode):
    pools = [POOLS[1]] + [p for p in POOLS if r.random() < .5]
    chars = sorted({c for p in pools for c in p if r.random() < .9} | {'a', 'e'})
    return {'seed': r.randrange(10 ** 6), 'mode': mode, 'chars': ''.join(chars), 'upem': r.choice([1000, 2048, 512, 1024]),
            'order': r.choice(['sorted', 'shuffled', 'shuffled', 'gaps']), 'names': r.choice(['full', 'ps', 'spaces', 'many']), 'share': r.random() < .3,
            'big': r.random() < .15, 'weight': r.choice([400, 400, 100, 600, 700, 900]), 'fixed': r.random() < .2, 'slant': r.choice([0, 0, -12, 7.5]) if r.random() < .3 else None,
            'ascents': [r.choice([.8, 1.1]), r.choice([.2, .35]), r.choice([.7, .9])], 'os2': r.choice([4, 4, 4, 1, 0]), 'fsType': r.choice([0, 0, 4, 8])}


def build(s, path):
    from fontTools.fontBuilder import FontBuilder
    from fontTools.pens.ttGlyphPen import TTGlyphPen
    r = random.Random(s['seed'])
    chars = [' '] + list(s['chars'])
    order = ['g%04d' % i for i in range(len(chars))]
    cmap = {ord(c): n for c, n in zip(chars, order)}
    if s['share']:
        cmap[0xa0] = cmap[32]
        have = [c for c in chars if c.isalpha()]
        cmap[0x2c00] = cmap[ord(have[-1])]
    extra = []
    if s['order'] == 'gaps':
        extra = ['x%d' % i for i in range(r.choice([3, 40]))]
    if s['big']:
        extra += ['y%d' % i for i in range(700)]
    names = order + extra
    if s['order'] != 'sorted' or s['big']:
        r.shuffle(names)
    names = ['.notdef'] + names
    fb = FontBuilder(s['upem'], isTTF=True)
    fb.setupGlyphOrder(names)
    fb.setupCharacterMap(cmap)
    gl = {}
    hm = {}
    u = s['upem']
    for n in names:
        pen = TTGlyphPen(None)
        w = r.choice([u // 2, u // 3, r.randint(u // 10, u * 3 // 2)])
        if n != order[0]:
            a, b = r.randint(10, u // 2), r.randint(20, u)
            pen.moveTo((0, 0))
            pen.lineTo((0, b))
            pen.lineTo((a, b))
            pen.lineTo((a, 0))
            pen.closePath()
        gl[n] = pen.glyph()
        hm[n] = (w, 0)
    fb.setupGlyf(gl)
    fb.setupHorizontalMetrics(hm)
    a, d, t = s.get('ascents', [.8, .2, .8])
    fb.setupHorizontalHeader(ascent=int(u * a), descent=-int(u * d))
    ps = 'Fnt%d-%s' % (s['seed'], s['mode'])
    nm = {'familyName': 'Fnt %d' % s['seed'], 'styleName': 'Regular', 'psName': ps}
    if s['names'] == 'ps':
        nm = {'psName': ps}
    elif s['names'] == 'many':
        nm = dict(nm, copyright='(c) x', uniqueFontIdentifier='u/%d' % s['seed'], fullName='Full name %d' % s['seed'], version='Version 1.0', trademark='t (m)', manufacturer='M / N',
                  designer='D d', description='Some description')
    elif s['names'] == 'spaces':
        nm = dict(nm, psName='Fnt %d (%s)' % (s['seed'], s['mode']))
    fb.setupNameTable(nm)
    if s.get('os2', 4):
        fb.setupOS2(sTypoAscender=int(u * t), sTypoDescender=-int(u * .15), sCapHeight=int(u * .7), fsType=s.get('fsType', 0), version=s.get('os2', 4), usWeightClass=s.get('weight', 400))
    slant = s.get('slant')
    fb.setupPost(italicAngle=slant if slant is not None else -12 if 'i' in s['mode'] else 0, isFixedPitch=int(s.get('fixed', False)))
    fb.save(path)


_cache = {}


class Font:
    """A font file: what a viewer needs of it."""
    def __init__(self, data):
        from fontTools import ttLib
        f = ttLib.TTFont(io.BytesIO(data))
        self.upem = f['head'].unitsPerEm
        self.order = f.getGlyphOrder()
        self.gid = {c: f.getGlyphID(n) for c, n in f.getBestCmap().items()}
        self.first = {}
        for c in sorted(self.gid):
            self.first.setdefault(self.gid[c], c)
        self.widths = [f['hmtx'][n][0] / self.upem for n in self.order]
        self.shapes = []
        for n in self.order:
            g = f['glyf'][n]
            self.shapes.append((n, tuple(map(tuple, g.coordinates)) if g.numberOfContours > 0 else ()))
        self.name = f['name'].getDebugName(6)
        h, os2, k = f['head'], f.get('OS/2'), 1000 / self.upem
        self.bbox = [h.xMin * k, h.yMin * k, h.xMax * k, h.yMax * k]
        self.ascent, self.descent = f['hhea'].ascent * k, f['hhea'].descent * k
        self.cap = os2.sCapHeight * k if os2 is not None and os2.version > 1 else None
        self.angle = f['post'].italicAngle
        self.fixed = bool(f['post'].isFixedPitch)
        self.weight = os2.usWeightClass if os2 is not None else None

    def width(self, ch):
        return self.widths[self.gid.get(ord(ch), 0)]


def load(data):
    k = hash(data)
    if k not in _cache:
        if len(_cache) > 60:
            _cache.clear()
        _cache[k] = Font(data)
    return _cache[k]
