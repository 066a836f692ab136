"""Pieces shared by several monitors."""
import collections


def compare_seq(ctx, exp, got, tag=''):
    """exp, got: lists of words (strings). Reports the first difference, by mechanism."""
    if exp == got:
        return True
    ce, cg = collections.Counter(exp), collections.Counter(got)
    lost = list((ce - cg).elements())
    extra = list((cg - ce).elements())
    if not lost and not extra:
        k = next(i for i, (a, b) in enumerate(zip(exp, got)) if a != b)
        ctx.bad(tag + 'order', 'words out of order: after %r expected %r, drawn %r', exp[max(0, k - 3):k], exp[k:k + 4], got[k:k + 4])
    elif lost and not extra:
        ctx.bad(tag + 'lost', '%d words not drawn: %r (of %d)', len(lost), lost[:5], len(exp))
    elif extra and not lost:
        dup = [w for w in extra if w in ce]
        ctx.bad(tag + ('duplicated' if dup else 'extra'), '%d words drawn too often: %r', len(extra), extra[:5])
    else:
        ctx.bad(tag + 'changed', 'expected words %r, drawn words %r', lost[:5], extra[:5])
    return False


def num(x, d=3):
    return round(float(x), d)


PAGE = {'a5': (419.528, 595.276), 'a4': (595.276, 841.89), 'a3': (841.89, 1190.551),
        'b5': (498.898, 708.661), 'b4': (708.661, 1000.63), 'jis-b5': (515.906, 728.504),
        'jis-b4': (728.504, 1031.812), 'letter': (612, 792), 'legal': (612, 1008), 'ledger': (792, 1224)}
