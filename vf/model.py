"""Independent model of the documented input language: what a piece of rich text
must show, word by word, with the style every character must have."""
import re

from . import metrics

TEXT_DEFAULTS = {'f': 'Helvetica', 'c': 0.1, 's': 11, 'r': 0, 'bg': None}
STD_FAMILIES = ('Helvetica', 'Times', 'Courier', 'Symbol', 'ZapfDingbats')


def color(c):
    """Expected colour operands for the notations the generators use."""
    if c is None or c == '':
        return None
    if isinstance(c, (int, float)):
        return (float(c),)
    if isinstance(c, (list, tuple)):
        return tuple(float(v) for v in c)
    if c.startswith('#'):
        h = c[1:]
        if len(h) in (3, 4):
            h = ''.join(x * 2 for x in h)
        return tuple(int(h[i:i + 2], 16) / 255 for i in (0, 2, 4))
    if re.match(r'[a-z]+$', c):
        from PIL import ImageColor
        return tuple(v / 255 for v in ImageColor.getrgb(c)[:3])
    return tuple(float(v) for v in re.split('[, ]', c))


def same_color(a, b, tol=0.006):
    a = color(a) if not isinstance(a, tuple) else a
    b = color(b) if not isinstance(b, tuple) else b
    if a is None or b is None:
        return a is b
    if len(a) != len(b):
        a = a * 3 if len(a) == 1 else a
        b = b * 3 if len(b) == 1 else b
        if len(a) != len(b):
            return False
    return all(abs(x - y) <= tol for x, y in zip(a, b))


def parse_key(s):
    out = {}
    for part in s.split(';'):
        if not part.strip():
            continue
        k, _, v = part.partition(':')
        k, v = k.strip(), v.strip()
        if k in ('b', 'i', 'u'):
            out[k] = v != '0'
        elif k in ('s', 'r'):
            out[k] = float(v)
        else:
            out[k] = v
    return out


def resolve(style, formats):
    if style is None:
        return {}
    if isinstance(style, str):
        return dict(formats[style])
    return dict(style)


class Word:
    """A maximal run of non-space characters; chars = [(ch, style, ids)]."""
    __slots__ = ('chars', 'br', 'text', 'sp')

    def __init__(self, br):
        self.chars = []
        self.br = br            # newlines between the previous word and this one
        self.sp = None          # style of the first space after the previous word

    def done(self):
        self.text = ''.join(c[0] for c in self.chars)
        return self

    def __repr__(self):
        return 'W(%r%s)' % (self.text, ' br' * self.br)

    def width(self):
        return sum(char_width(st, ch) for ch, st, _ in self.chars)

    def maxsize(self):
        return max(st['s'] for _, st, _ in self.chars)


TTF = {}    # (family, mode) -> callable char -> width in em


def char_width(style, ch):
    if style['f'] in STD_FAMILIES:
        return metrics.STD[metrics.base_font(style['f'], style.get('b'), style.get('i'))][ord(ch)] * style['s'] / 1000
    m = ('b' if style.get('b') else '') + ('i' if style.get('i') else '')
    return TTF[style['f'], m or 'n'](ch) * style['s']


def runs(content, style, formats=None, context=None, ids=(), out=None):
    """Flatten rich text to [(text, style, ids)], text may hold newlines."""
    formats = formats or {}
    context = context or {}
    if out is None:
        out = []
    style = dict(style)
    ids = list(ids)
    if isinstance(content, str):
        content = {'.': [content]}
    elif isinstance(content, (list, tuple)):
        content = {'.': content}
    elems = []
    for k, v in content.items():
        if k.startswith('.'):
            style.update(parse_key(k[1:]))
            elems = v if isinstance(v, (list, tuple)) else [v]
            break
    style.update(resolve(content.get('style'), formats))
    for k in ('label', 'ref', 'uri'):
        if content.get(k) is not None:
            ids.append((k, content[k]))
    if isinstance(content.get('outline'), dict):
        ids.append(('outline', repr(sorted(content['outline'].items(), key=repr))))
    if content.get('var') is not None:
        out.append((str(context.get(content['var'], '')), style, tuple(ids)))
        return out
    for e in elems:
        if isinstance(e, dict):
            runs(e, style, formats, context, ids, out)
        else:
            out.append((str(e), style, tuple(ids)))
    return out


def words(rs):
    """Word sequence of flattened runs (spaces collapse, newlines counted)."""
    out = []
    cur = None
    br = 0
    sp = None
    for text, style, ids in rs:
        for ch in text:
            if ch == ' ':
                if cur or sp is None:
                    sp = style
                if cur:
                    out.append(cur.done())
                    cur = None
            elif ch == '\n':
                if cur:
                    out.append(cur.done())
                    cur = None
                br += 1
            else:
                if cur is None:
                    cur = Word(br)
                    cur.sp = None if br else sp
                    br = 0
                    sp = None
                cur.chars.append((ch, style, ids))
    if cur:
        out.append(cur.done())
    return out


def par_words(content, base=None, formats=None, context=None):
    st = dict(TEXT_DEFAULTS)
    st.update(base or {})
    return words(runs(content, st, formats, context))
