"""C01: every written file is a structurally sound PDF."""
from .. import build, docgen
from ..pdfread import PStr, Ref, Stream

CASES = {'quick': 1500, 'thorough': 45000}
NEED = {'objects': 10000, 'pages': 1000, 'streams': 1000, 'operators': 20000, 'annotations': 300, 'images': 100, 'outlines': 50, 'destinations': 300}
RULE = ('random whole documents with every feature; each file is parsed strictly from startxref and every page content stream interpreted; '
        'non-trivial when a page shows something')
ASSUME = ['Latin-1 text and standard fonts (TrueType text is C20)', 'references name labels of the document']


def gen(r, tier, i):
    return docgen.document(r, {'special': r.choice([.1, .5])})


def check(case, ctx):
    data = docgen.build_case(case, ctx.scratch)
    structure(data, ctx)


def structure(data, ctx):
    rd = build.read(data)
    ctx.see('objects', len(rd.objs))
    if sorted(rd.objs) != list(range(1, len(rd.objs) + 1)):
        ctx.bad('numbers', 'object numbers are not 1..n: %r', sorted(rd.objs)[:20])
    i = rd.trailer.get('ID')
    if not isinstance(i, list) or len(i) != 2 or not all(isinstance(x, PStr) and len(x) == 16 for x in i):
        ctx.bad('trailer', 'trailer ID is %r', i)
    root = rd.root
    for n, o in rd.objs.items():
        if isinstance(o, Stream):
            ctx.see('streams')
            o.data()
    pages = rd.pages
    refs = {p.ref for p in pages}
    for n, o in rd.objs.items():
        if isinstance(o, dict) and o.get('Type') == 'Page' and Ref(n, 0) not in refs:
            ctx.bad('orphan-page', 'page object %d is not in the page tree', n)
    for p in pages:
        ctx.see('pages')
        mb = p.mediabox
        if not (isinstance(mb, list) and len(mb) == 4 and all(type(v) in (int, float) for v in mb) and mb[2] > mb[0] and mb[3] > mb[1]):
            ctx.bad('mediabox', 'page %d has MediaBox %r', p.index, mb)
        items = p.items
        ctx.see('operators', p.nops)
        if any(i.kind != 'text' or i.text.strip() for i in items):
            ctx.nontrivial = True
        for it in items:
            if it.kind == 'text':
                if not it.font.type0 and it.font.widths is None:
                    ctx.bad('font', 'page %d uses unknown font %r', p.index, it.base)
            elif it.kind == 'image':
                ctx.see('images')
                d = it.obj.d
                if not all(type(d.get(k)) is int and d[k] > 0 for k in ('Width', 'Height')):
                    ctx.bad('image', 'image dictionary %r', d)
        for a in p.annots():
            ctx.see('annotations')
            r = a.get('Rect')
            if not (isinstance(r, list) and len(r) == 4 and all(type(v) in (int, float) for v in r) and r[0] <= r[2] and r[1] <= r[3]):
                ctx.bad('annotation', 'page %d: annotation Rect %r', p.index, r)
            if a.get('Subtype') != 'Link':
                ctx.bad('annotation', 'page %d: annotation %r', p.index, a)
            if 'A' in a:
                act = a['A']
                if not isinstance(act, dict) or act.get('S') != 'URI' or not isinstance(act.get('URI'), PStr):
                    ctx.bad('annotation', 'page %d: action %r', p.index, act)
            elif isinstance(a.get('Dest'), PStr):
                if rd.lookup(bytes(a['Dest'])) is None:
                    ctx.bad('dead-link', 'page %d links to %r, which has no destination', p.index, a['Dest'])
            else:
                ctx.bad('annotation', 'page %d: link without target %r', p.index, a)
    for k, v in rd.dests():
        ctx.see('destinations')
        if not (isinstance(v, list) and len(v) == 5 and v[0] in refs and v[1] == 'XYZ' and all(type(x) in (int, float) for x in v[2:])):
            ctx.bad('destination', 'destination %r is %r', k, v)
    o = rd.outlines()
    if o:
        def walk(es):
            for title, dest, kids, count in es:
                ctx.see('outlines')
                if not isinstance(dest, PStr) or rd.lookup(bytes(dest)) is None:
                    ctx.bad('dead-link', 'outline entry %r leads to %r, which has no destination', title, dest)
                walk(kids)
        walk(o[0])
    return rd
