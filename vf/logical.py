"""The logical content of a written file: what must be equal when two files hold the same document.
Object numbers, resource names and generated identifiers do not take part."""
import hashlib
import re

from .pdfread import PStr, Stream

UUID = re.compile(rb'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}\Z')


def r(v):
    return tuple(round(float(x), 3) for x in v)


def item(i, n=None):
    if i.kind == 'text':
        return ('text', i.text, r((i.x, i.y, i.size, i.rise, i.tw, i.adv)), i.base, r(i.color))
    if i.kind == 'image':
        o = i.obj
        return ('image', hashlib.sha1(o.raw).hexdigest(), o.get('Width'), o.get('Height'), str(o.get('ColorSpace')), r(i.m))
    if i.kind == 'fill':
        return ('fill', r((i.x1, i.y1, i.x2, i.y2)), r(i.color))
    return ('line', r((i.x1, i.y1, i.x2, i.y2)), r(i.color), r((i.width,)), (r(i.dash[0]), i.dash[1]), i.cap)


def page(p):
    return [item(i) for i in p.items]


def dest(v, pageno):
    return (pageno.get(v[0]), str(v[1])) + tuple(None if x is None else round(float(x), 3) for x in v[2:])


def summary(rd, ident=False):
    """dict of comparable pieces of a document."""
    pageno = {p.ref: p.index for p in rd.pages}
    pages = []
    dests = {}
    for k, v in rd.dests():
        dests[k] = dest(v, pageno)

    def target(d):
        if isinstance(d, PStr):
            v = rd.lookup(bytes(d))
            d2 = None if v is None else dest(v, pageno)
            return (b'*' if UUID.match(bytes(d)) else bytes(d), d2)
        return d

    for p in rd.pages:
        an = []
        for a in p.annots():
            if 'A' in a:
                an.append(('uri', bytes(a['A'].get('URI', b'')), r(a['Rect'])))
            else:
                an.append(('ref', target(a.get('Dest')), r(a['Rect'])))
        fonts = sorted({i.base for i in p.items if i.kind == 'text'})
        pages.append({'box': r(p.mediabox), 'items': page(p), 'annots': an, 'fonts': fonts})
    out = None
    o = rd.outlines()
    if o:
        def walk(es):
            return [(t, target(d), walk(k), c) for t, d, k, c in es]
        out = (walk(o[0]), o[1])
    names = sorted((b'*' if UUID.match(k) else k, v) for k, v in dests.items())
    s = {'pages': pages, 'dests': names, 'outlines': out, 'mode': rd.root.get('PageMode')}
    if ident:
        s['id'] = [bytes(x) for x in rd.trailer.get('ID', [])]
    return s


def diff(a, b):
    """First difference of two summaries as (key, text), or None."""
    if a == b:
        return None
    for k in a:
        if a[k] == b[k]:
            continue
        if k == 'pages':
            if len(a[k]) != len(b[k]):
                return 'page-count', '%d pages, expected %d' % (len(b[k]), len(a[k]))
            for n, (p, q) in enumerate(zip(a[k], b[k])):
                for f in p:
                    if p[f] != q[f]:
                        if isinstance(p[f], list):
                            for m in range(max(len(p[f]), len(q[f]))):
                                x = p[f][m] if m < len(p[f]) else None
                                y = q[f][m] if m < len(q[f]) else None
                                if x != y:
                                    return 'page-' + f, 'page %d, %s %d: %r, expected %r' % (n, f, m, y, x)
                        return 'page-' + f, 'page %d %s: %r, expected %r' % (n, f, q[f], p[f])
        x, y = a[k], b[k]
        if isinstance(x, list) and isinstance(y, list):
            lost = [e for e in x if e not in y][:2]
            extra = [e for e in y if e not in x][:2]
            return k, '%s: missing %r, unexpected %r' % (k, lost, extra)
        return k, '%s: %r, expected %r' % (k, y, x)
