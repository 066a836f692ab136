"""Random generators of valid inputs.  Every word carries a unique token so that
an observed word identifies the generated one."""
import string

LET = string.ascii_lowercase
SPECIAL = ['(', ')', '\\', '\\n', '(a', ')b', '()', '\\(', "'", '"', '<<', '>>', '%', '/', '[', ']', '{',
           '\xe9', '\xf1', '\xdf', '\xfc', '\xa9', '\xbf', '#', '$', '&', ';', '\\101', '-']


class Toks:
    """Unique words: letters + running number."""
    def __init__(self, rng, special=0.1, maxlen=12):
        self.rng = rng
        self.n = 0
        self.special = special
        self.maxlen = maxlen

    def word(self, lo=1, hi=None):
        r = self.rng
        hi = hi or self.maxlen
        self.n += 1
        s = ''.join(r.choice(LET) for _ in range(r.randint(lo, hi)))
        if r.random() < self.special:
            k = r.randint(0, len(s))
            s = s[:k] + r.choice(SPECIAL) + s[k:]
        return '%s%d.' % (s, self.n)

    def words(self, n, **k):
        return ' '.join(self.word(**k) for _ in range(n))


def rcolor(r):
    k = r.random()
    if k < 0.3:
        return round(r.random(), 2)
    if k < 0.6:
        return '#%06x' % r.randrange(1 << 24)
    if k < 0.8:
        return [round(r.random(), 3) for _ in range(3)]
    return '#%03x' % r.randrange(1 << 12)


def style_key(r, o):
    """A '.…' style key."""
    parts = []
    if r.random() < .3:
        parts.append(r.choice(['b', 'b:1', 'b:0']))
    if r.random() < .3:
        parts.append(r.choice(['i', 'i:1', 'i:0']))
    if r.random() < .2:
        parts.append(r.choice(['u', 'u:1', 'u:0']))
    if r.random() < .25 and o.get('sizes'):
        parts.append('s:%g' % r.choice(o['sizes']))
    if r.random() < .25:
        c = rcolor(r)
        parts.append('c:' + (' '.join(map(str, c)) if isinstance(c, list) else str(c)))
    if r.random() < .15 and o.get('bg', True):
        parts.append('bg:#%06x' % r.randrange(1 << 24))
    if r.random() < .2:
        parts.append('f:' + r.choice(o.get('families', ['Helvetica', 'Times', 'Courier'])))
    if r.random() < .15 and o.get('rise', True):
        parts.append('r:%g' % r.choice([0.5, -0.4, 0.25, 0, 1]))
    r.shuffle(parts)
    return ';'.join(parts)


def style_dict(r, o):
    d = {}
    for k in 'biu':
        if r.random() < .2:
            d[k] = r.random() < .6
    if r.random() < .25 and o.get('sizes'):
        d['s'] = r.choice(o['sizes'])
    if r.random() < .25:
        d['c'] = rcolor(r)
    if r.random() < .12 and o.get('bg', True):
        d['bg'] = rcolor(r)
    if r.random() < .2:
        d['f'] = r.choice(o.get('families', ['Helvetica', 'Times', 'Courier']))
    if r.random() < .12 and o.get('rise', True):
        d['r'] = r.choice([0.5, -0.4, 0.3, 0])
    return d


SIZES = [5, 7, 8.5, 9, 10, 11, 12, 14, 18, 24]


def rich(r, toks, nwords, o=None, depth=0):
    """Rich text element list with about nwords words."""
    o = o or {}
    elems = []
    left = nwords
    while left > 0:
        k = min(left, r.choice([1, 1, 2, 3, 5, 8, 13, 30]))
        left -= k
        kind = r.random()
        if kind < (.45 if depth < o.get('depth', 3) else 1) or not o.get('rich', True):
            s = toks.words(k)
            # words may be glued to the neighbour, separated by one or more spaces, or by newlines
            lead = r.choice(['', ' ', ' ', '  ']) if elems else r.choice(['', '', ' '])
            trail = r.choice(['', ' ', ' ', ' ', '   '])
            if r.random() < o.get('nl', .12):
                s = s.replace(' ', '\n', r.choice([1, 1, 2])) if r.random() < .6 else s + '\n'
            if r.random() < .05:
                s = s.replace(' ', '   ')
            elems.append(lead + s + trail)
        elif kind < .5:
            toks.n += 1
            elems.append(90000 + toks.n if r.random() < .5 else 90000.5 + toks.n)
            elems.append(' ')
        else:
            inner = rich(r, toks, k, o, depth + 1)
            d = {'.' + style_key(r, o): inner if len(inner) > 1 or not isinstance(inner[0], str) or r.random() < .5 else inner[0]}
            if r.random() < .35:
                if o.get('formats') and r.random() < .5:
                    d['style'] = r.choice(sorted(o['formats']))
                else:
                    d['style'] = style_dict(r, o)
            extra = o.get('extra')
            if extra:
                extra(r, d)
            elems.append(d)
            if r.random() < .75:
                elems.append(' ')
    return elems


def par(r, toks, nwords, o=None):
    """A paragraph content: str, list or dict."""
    o = o or {}
    e = rich(r, toks, nwords, o)
    if len(e) == 1 and isinstance(e[0], str) and r.random() < .6:
        return e[0]
    if r.random() < .4:
        return e
    d = {'.' + style_key(r, o): e}
    if r.random() < .3:
        if o.get('formats') and r.random() < .5:
            d['style'] = r.choice(sorted(o['formats']))
        else:
            d['style'] = style_dict(r, o)
    return d


def formats(r, o=None, n=3):
    return {'fmt%d' % i: style_dict(r, o or {'sizes': SIZES}) for i in range(n)}
