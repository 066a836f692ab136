"""C02: object graphs survive being written."""
import copy
import io
import random

from .. import build, pdfread
from ..pdfread import Name, PStr, Ref, Stream

CASES = {'quick': 14000, 'thorough': 420000}
NEED = {'objects': 5000, 'strings': 5000, 'streams': 500, 'flate_streams': 300, 'exponent_numbers': 100, 'references': 1000,
        'second_writes': 1000, 'special_strings': 1000, 'edits': 500}
RULE = ('random object graphs (all value types, nested up to 5 deep, strings over all of Latin-1, extreme numbers, streams of random bytes '
        'in one piece or in chunks, replaced and deleted entries) written once or twice and compared value by value; non-trivial with 2 or more objects')
ASSUME = ['dictionary keys and names are made of regular PDF characters', 'finite numbers', 'Latin-1 strings']

KEYS = ['A', 'Type', 'Kids', 'x1', 'Key.With-dash', 'K_0', 'Length1', 'Names', 'B', 'C', 'D', 'E0', 'F+', 'Sub', 'Parent']
SPECIAL = ['(', ')', '\\', '\r', '\n', '\t', '\\n', '\\(', '()', ')(', '\r\n', '\\\\', '\x00', '\xff', '\\101', '\b', '\f', '<<', '>>', 'endobj', 'endstream',
           '%', '\\\r', '\\\n', ' ', '/', '[', ']']


def rstr(r):
    k = r.random()
    if k < .15:
        return ''
    if k < .35:
        return ''.join(chr(r.randrange(256)) for _ in range(r.choice([1, 3, 20, 200])))
    if k < .7:
        return ''.join(r.choice(SPECIAL + list('abc é')) for _ in range(r.choice([1, 2, 3, 6, 12])))
    return ''.join(r.choice('abcdefg hijk') for _ in range(r.randint(1, 15)))


def rnum(r):
    k = r.random()
    if k < .3:
        return ['i', r.choice([0, 1, -1, 7, 255, -40, 65535, 2**31 - 1, 2**31, -2**31, 10**18, r.randrange(-10**6, 10**6)])]
    if k < .6:
        return ['f', repr(round(r.uniform(-1000, 1000), r.choice([0, 1, 3, 6, 15])))]
    return ['f', repr(r.choice([0.0, -0.0, 1e-7, -1e-5, 1.5e-9, 1e16, 1e22, -3.25e20, 0.1 + 0.2, 1e-300, 123456789.125, 5e-324, 1.7e308, r.random() * 10 ** r.randint(-20, 20)]))]


def rval(r, depth, n):
    k = r.random()
    if depth > 0 and k < .2:
        return ['d', {key: rval(r, depth - 1, n) for key in r.sample(KEYS, r.choice([0, 1, 2, 4]))}]
    if depth > 0 and k < .4:
        return [r.choice(['l', 'l', 't']), [rval(r, depth - 1, n) for _ in range(r.choice([0, 1, 2, 3, 7]))]]
    if k < .55:
        return ['s', rstr(r)]
    if k < .65:
        return ['n', r.choice(KEYS)]
    if k < .8:
        return rnum(r)
    if k < .88:
        return ['b', r.random() < .5]
    if k < .95:
        return ['r', r.randrange(n)]
    if k < .975:
        return ['h', bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5]))).hex()]
    return ['e', sorted(r.sample(range(1000), r.choice([0, 1, 3])))]


def rdata(r):
    k = r.random()
    n = r.choice([0, 1, 2, 10, 100, 1000, 5000])
    if r.random() < .03:
        n = r.choice([33000, 65535, 66000, 140000, 400000])
        return ''.join(chr(48 + k % 71) for k in range(n)) if r.random() < .5 else (r.randbytes(997).decode('latin-1') * (n // 997 + 1))[:n]
    if k < .3:
        return bytes(r.randrange(256) for _ in range(n)).decode('latin-1')
    if k < .6:
        return ''.join(r.choice(['endstream', 'endobj', '\n', '\r', 'stream\n', 'x', ' 0 1 0 rg', '\x00']) for _ in range(n // 3 + 1))
    return 'ab ' * (n // 3)


def robj(r, n):
    k = r.random()
    if k < .5:
        return ['d', {key: rval(r, r.randint(0, 4), n) for key in r.sample(KEYS, r.randint(0, 6))}]
    if k < .75:
        d = {key: rval(r, 2, n) for key in r.sample(KEYS, r.randint(0, 3))}
        form = r.choice(['flate', 'flate', 'raw', 'skip'])
        data = rdata(r)
        cuts = sorted(r.randrange(len(data) + 1) for _ in range(r.choice([0, 0, 1, 3, 12, 130])))
        chunks = None if r.random() < .5 else [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        return ['st', d, form, chunks if chunks is not None else data]
    return rval(r, 3, n)


def gen(r, tier, i):
    n = r.choice([1, 2, 3, 5, 9, 10, 11, 30, 99, 101])
    case = {'objs': [robj(r, n) for _ in range(n)], 'version': r.choice(['1.5', '1.4', '1.7']),
            'trailer': {} if r.random() < .6 else {'Info': rval(r, 2, n)}, 'writes': r.choice([1, 2, 2, 3])}
    ed = []
    for _ in range(r.choice([0, 0, 1, 3])):
        ed.append([r.randrange(n), r.choice(KEYS), rval(r, 2, n)] if r.random() < .7 else [r.randrange(n), r.choice(KEYS), None])
    case['edits'] = ed
    case['more'] = [robj(r, n) for _ in range(r.choice([0, 0, 1, 4]))]
    return case


def py(v, objs):
    """Decode the tagged value into what a caller hands to PDFBase."""
    t = v[0]
    if t == 'd':
        return {k: py(x, objs) for k, x in v[1].items()}
    if t == 'l':
        return [py(x, objs) for x in v[1]]
    if t == 't':
        return tuple(py(x, objs) for x in v[1])
    if t == 's':
        return v[1]
    if t == 'n':
        return b'/' + v[1].encode()
    if t == 'i':
        return v[1]
    if t == 'f':
        return float(v[1])
    if t == 'b':
        return v[1]
    if t == 'h':
        return b'<' + v[1].encode() + b'>'
    if t == 'e':
        return set(v[1])
    if t == 'r':
        return ('REF', v[1])
    if t == 'st':
        d = {k: py(x, objs) for k, x in v[1].items()}
        if v[2] == 'flate':
            d['Filter'] = b'/FlateDecode'
        if v[2] == 'skip':
            d['Filter'] = b'/DCTDecode'
            d['__skip_filter__'] = True
        d['__stream__'] = v[3].encode('latin-1') if isinstance(v[3], str) else {i: c.encode('latin-1') for i, c in enumerate(v[3])}
        return d


def refs(v, ids):
    """Replace ('REF', i) by the object id given by the code."""
    if isinstance(v, tuple) and len(v) == 2 and v[0] == 'REF':
        return ids[v[1]]
    if isinstance(v, dict):
        return {k: refs(x, ids) for k, x in v.items()}
    if isinstance(v, list):
        return [refs(x, ids) for x in v]
    if isinstance(v, tuple):
        return tuple(refs(x, ids) for x in v)
    return v


def differs(v, got, nums, path):
    """First difference between tagged value v and parsed object, or None."""
    t = v[0]
    bad = '%s: expected %s, file has %.80r' % (path, repr(v)[:120], got if not isinstance(got, Stream) else 'a stream')
    if t == 'd':
        if type(got) is not dict or set(got) != set(v[1]):
            return bad
        for k, x in v[1].items():
            d = differs(x, got[k], nums, path + '/' + k)
            if d:
                return d
        return None
    if t in 'lt':
        if type(got) is not list or len(got) != len(v[1]):
            return bad
        for k, x in enumerate(v[1]):
            d = differs(x, got[k], nums, path + '[%d]' % k)
            if d:
                return d
        return None
    if t == 'e':
        return None if type(got) is list and sorted(got) == v[1] else bad
    if t == 's':
        return None if isinstance(got, PStr) and got.text == v[1] else bad
    if t == 'h':
        return None if isinstance(got, PStr) and bytes(got) == bytes.fromhex(v[1]) else bad
    if t == 'n':
        return None if isinstance(got, Name) and str(got) == v[1] else bad
    if t == 'b':
        return None if got is v[1] else bad
    if t == 'i':
        return None if type(got) in (int, float) and got == v[1] else bad
    if t == 'f':
        return None if type(got) in (int, float) and float(got) == float(v[1]) else bad
    if t == 'r':
        return None if isinstance(got, Ref) and got[0] == nums[v[1]] else bad
    if t == 'st':
        if not isinstance(got, Stream):
            return bad
        data = (v[3] if isinstance(v[3], str) else ''.join(v[3])).encode('latin-1')
        d = {k: x for k, x in got.d.items() if k not in ('Length', 'Filter')}
        if 'Length' in v[1] or 'Filter' in v[1]:
            return None
        x = differs(['d', v[1]], d, nums, path)
        if x:
            return x
        f = got.d.get('Filter')
        if f != {'flate': 'FlateDecode', 'raw': None, 'skip': 'DCTDecode'}[v[2]]:
            return '%s: stream filter %r' % (path, f)
        if got.data() != data:
            return '%s: stream data %.60r, supplied %.60r' % (path, got.data(), data)
        return None


def count(v, ctx):
    t = v[0]
    if t == 's':
        ctx.see('strings')
        ctx.see('special_strings', any(c in v[1] for c in '()\\\r'))
    elif t == 'f' and 'e' in v[1]:
        ctx.see('exponent_numbers')
    elif t == 'r':
        ctx.see('references')
    elif t == 'd':
        for x in v[1].values():
            count(x, ctx)
    elif t in 'lt':
        for x in v[1]:
            count(x, ctx)
    elif t == 'st':
        ctx.see('streams')
        ctx.see('flate_streams', v[2] == 'flate')
        for x in v[1].values():
            count(x, ctx)


def check(case, ctx):
    from pdfme.base import PDFBase
    from pdfme.parser import PDFObject
    model = copy.deepcopy(case['objs'])
    n = len(model)
    with build.guard():
        tr = {}
        base = PDFBase(case['version'], tr) if case['trailer'] else PDFBase(case['version'])
        objs = [base.add(py(['d', {}], None)) for _ in range(n)]
        ids = [o.id for o in objs]
        nums = [int(i) for i in ids]
        base.trailer['Root'] = ids[0]
        for k, v in case['trailer'].items():
            base.trailer[k] = refs(py(v, None), ids)
        for o, v in zip(objs, model):
            o.value = refs(py(v, None), ids)
        if len(base) != n:
            ctx.bad('container', 'len() is %d after %d additions', len(base), n)
        for k in range(n):
            if base[nums[k]] is not objs[k]:
                ctx.bad('container', 'base[%d] is not the object added under that number', nums[k])
        for w in range(case['writes']):
            if w == 1:
                for k, key, v in case['edits']:
                    if model[k][0] not in ('d',):
                        continue
                    ctx.see('edits')
                    if k % 3 == 0:
                        # the object is exchanged for another one with the same number
                        objs[k] = PDFObject(ids[k], dict(objs[k].value))
                        base[nums[k]] = objs[k]
                        ctx.see('exchanged')
                    if v is None:
                        if (key in objs[k]) != (key in model[k][1]):
                            ctx.bad('container', '%r in object is %r', key, key in objs[k])
                        if key in model[k][1]:
                            del objs[k][key]
                            del model[k][1][key]
                    else:
                        objs[k][key] = refs(py(v, None), ids)
                        model[k][1][key] = v
                        objs[k][key]
                for v in case['more']:
                    o = base.add(refs(py(v, None), ids))
                    objs.append(o)
                    nums.append(int(o.id))
                    model.append(copy.deepcopy(v))
            buf = io.BytesIO()
            base.output(buf)
            data = buf.getvalue()
            rd = pdfread.Reader(data)
            if w:
                ctx.see('second_writes')
            verify(ctx, case, rd, model, nums, w)
            if ctx.v:
                return


def verify(ctx, case, rd, model, nums, w):
    if rd.version != case['version']:
        ctx.bad('version', 'header says %s, not %s', rd.version, case['version'])
    if len(set(nums)) != len(nums):
        ctx.bad('container', 'object numbers are not unique: %r', nums)
    if sorted(rd.objs) != sorted(nums):
        ctx.bad('objects', 'file has objects %r, added %r', sorted(rd.objs)[:20], sorted(nums)[:20])
        return
    ctx.see('objects', len(nums))
    ctx.nontrivial = len(nums) > 1
    for v, k in zip(model, nums):
        if v[0] == 'd' and ('Length' in v[1]):
            continue
        count(v, ctx)
        d = differs(v, rd.objs[k], nums, 'object %d' % k)
        if d:
            ctx.bad('value', 'write %d: %s', w + 1, d)
            return
    tr = dict(rd.trailer)
    root = tr.pop('Root', None)
    if not isinstance(root, Ref) or root[0] != nums[0]:
        ctx.bad('trailer', 'trailer Root is %r', root)
    i = tr.pop('ID', None)
    if not isinstance(i, list) or len(i) != 2 or not all(isinstance(x, PStr) and len(x) >= 8 for x in i):
        ctx.bad('trailer', 'trailer ID is %r', i)
    tr.pop('Size')
    d = differs(['d', case['trailer']], tr, nums, 'trailer')
    if d:
        ctx.bad('value', d)
