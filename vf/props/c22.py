"""C22: the same input gives the same document in every process, whatever its hash seed, clock and random state."""
import hashlib
import json
import os
import re

from .. import build, docgen, fontgen, fork, logical, serve

CASES = {'quick': 180, 'thorough': 4000}
NEED = {'documents': 150, 'builds': 600, 'pages': 300, 'items': 5000, 'running_sections': 50, 'many_running': 15, 'per_page': 20, 'labels': 50, 'outlines': 50,
        'several_fonts': 100, 'truetype': 15}
RULE = ('generated documents (all features, and many running sections, labels, fonts, columns and footnotes), each built in four processes that differ in hash seed, clock, '
        'random state, time zone and in the documents built before; what is painted, the annotations, destinations and outlines are compared. '
        'Non-trivial with 2 pages or 3 fonts')
ASSUME = ['hash seeds sampled: 4 per process, different in every worker']

CONFIG = [(1, 0, {}), (2, 86400 * 400.5, {'TZ': 'Asia/Tokyo'}), (3, 12345.6, {'LC_ALL': 'C', 'PYTHONUTF8': '0'}), (77, -86400 * 3000, {'TZ': 'America/Lima'})]
_servers = {}


def servers(scratch):
    k = os.getpid()
    if k not in _servers:
        _servers.clear()
        _servers[k] = [serve.Server(str(scratch), seed + 1000 * (k % 997), clock, env) for seed, clock, env in CONFIG]
    return _servers[k]


def gen(r, tier, i):
    o = {}
    if r.random() < .3:
        o['force'] = {f: True for f in ('links', 'labels', 'outlines', 'foot')}
    case = docgen.document(r, o)
    doc = case['doc']
    if r.random() < .4:
        n = r.choice([4, 8, 15])
        names = ['%s%d' % (r.choice(['head', 'foot', 'x', 'Sec tion']), k) for k in range(n)]
        r.shuffle(names)
        rs = doc['running_sections'] = {m: {'x': 'left', 'y': 10 + 3 * k, 'width': 'full', 'height': 30, 'content': [{'.c:%s' % r.choice(['red', 'blue']): 'run%d' % k}]}
                                        for k, m in enumerate(names)}
        for s in doc['sections']:
            s['running_sections'] = r.sample(names, r.randint(n // 2, n))
        doc['per_page'] = [{'pages': r.choice([':', '0', '1:', '::2']), 'running_sections': {r.choice(['include', 'exclude']): r.sample(names, r.randint(1, n))}}
                           for _ in range(r.choice([1, 2]))]
    if r.random() < .5:
        fams = ['Helvetica', 'Times', 'Courier']
        for s in doc['sections']:
            s['content'].append({'.': [{'.': 'w%d ' % k, 'style': {'f': r.choice(fams), 'b': r.random() < .5, 'i': r.random() < .5}} for k in range(r.choice([4, 12]))]})
    case['fonts'] = []
    if r.random() < .15:
        sp = fontgen.spec(r, 'n')
        case['fonts'] = [['FamA', m, dict(sp, seed=sp['seed'] + k, mode=m)] for k, m in enumerate(('n', 'b', 'i')) if k == 0 or r.random() < .6]
        ch = sp['chars']
        doc['sections'][0]['content'].append({'.': [{'.': ''.join(r.choice(ch) for _ in range(5)) + ' ', 'style': {'f': 'FamA', 'b': r.random() < .4, 'i': r.random() < .3}}
                                                    for _ in range(10)]})
    return case


UUID = re.compile(rb'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}')


def fonts_of(rd):
    out = set()
    for p in rd.pages:
        for it in p.items:
            if it.kind == 'text' and it.font.type0:
                out.add((it.base, hashlib.sha1(rd.res(rd.res(it.font.cid['FontDescriptor'])['FontFile2']).data()).hexdigest()))
    return sorted(out)


def check(case, ctx):
    req = {'doc': case['doc'], 'images': case['images'], 'context': case.get('context'), 'fonts': []}
    for fam, mode, spec in case['fonts']:
        path = os.path.join(str(ctx.scratch), 's%s.ttf' % hashlib.sha1(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:16])
        if not os.path.exists(path):
            tmp = path + '.%d' % os.getpid()
            fontgen.build(spec, tmp)
            os.rename(tmp, path)
        req['fonts'].append((fam, mode, path))
    docgen.materialise(case['doc'], case['images'], str(ctx.scratch))
    ss = servers(ctx.scratch)
    for s in ss:
        s.ask(req)
    outs = [s.answer() for s in ss]
    if any(o is None for o in outs):
        _servers.clear()
        raise RuntimeError('server gave no answer')
    if len({o[:2] if o[0] != 'ok' else 'ok' for o in outs}) > 1:
        ctx.bad('outcome', 'the document can be built with some hash seeds only: %r', [o[:2] if o[0] != 'ok' else 'ok' for o in outs])
        return
    try:
        datas = [fork.result(o) for o in outs]
    except fork.Failed as e:
        return fork.report(ctx, e)
    first = None
    ctx.see('documents')
    for n, d in enumerate(datas):
        ctx.see('builds')
        rd = build.read(d)
        s = logical.summary(rd)
        s['fonts'] = fonts_of(rd)
        if first is None:
            first = s
            ctx.see('pages', len(s['pages']))
            ctx.see('items', sum(len(p['items']) for p in s['pages']))
            ctx.see('running_sections', len(case['doc'].get('running_sections', ())))
            ctx.see('many_running', len(case['doc'].get('running_sections', ())) > 3)
            ctx.see('per_page', len(case['doc'].get('per_page', ())))
            ctx.see('labels', len(s['dests']))
            ctx.see('outlines', s['outlines'] is not None)
            nf = len({f for p in s['pages'] for f in p['fonts']})
            ctx.see('several_fonts', nf > 2)
            ctx.see('truetype', bool(s['fonts']))
            ctx.nontrivial = len(s['pages']) > 1 or nf > 2
        else:
            df = logical.diff(first, s)
            if df:
                ctx.bad(df[0], 'built with hash seed %d: %s', CONFIG[n][0], df[1])
                return
