"""Equality of gated (piecewise) expressions, independent of how the piecewise structure was written.

Two expressions are equal when, on every cell of the partition of the operand space that their comparisons
induce (x < y / x = y / x > y per compared pair, open intervals and points per term compared with constants),
both reduce to the same leaf.  The partition is enumerated; nothing is executed and no solver is asked."""
import gval
from gval import isnum, isflt, fl

INF = float('inf')


def const(e):
    if isnum(e):
        return float(e) if abs(e) < 2**52 else e
    if isflt(e):
        return fl(e)
    return None


class Split(Exception):
    def __init__(s, key, kids):
        s.key, s.kids = key, kids


BASEREL = {'eq': 'e', 'ne': 'n', 'oeq': 'e', 'one': 'n', 'une': 'n', 'ueq': 'e'}


def rel(p, c):
    """predicate p given comparison c in -1,0,1"""
    k = BASEREL.get(p)
    if k:
        return (c == 0) == (k == 'e')
    p = p[1:]
    return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[p]


def cond(c, st):
    """truth of condition c in cell st; raises Split when the cell does not decide it"""
    if isnum(c):
        return bool(c)
    if c is True:
        return True
    if isflt(c):
        return fl(c) != 0
    if isinstance(c, tuple):
        if c[0] == 'not':
            return not cond(c[1], st)
        if c[0] == 'or' and len(c) == 3 and isc(c[1]) and isc(c[2]):
            return cond(c[1], st) or cond(c[2], st)
        if c[0] == 'and' and len(c) == 3 and isc(c[1]) and isc(c[2]):
            return cond(c[1], st) and cond(c[2], st)
        if c[0] == 'g':
            return cond(c[2], st) if cond(c[1], st) else cond(c[3], st)
        if c[0] == 'cmp':
            p, a, b = c[1], simp(c[2], st), simp(c[3], st)
            ca, cb = const(a), const(b)
            if ca is not None and cb is not None:
                return rel(p, (ca > cb) - (ca < cb))
            if a == b:
                return rel(p, 0)
            if cb is not None or ca is not None:
                t, k, sg = (a, cb, 1) if cb is not None else (b, ca, -1)
                integer = not p.startswith('o')
                iv = st.get(('t', t), (-INF, INF))
                if iv[0] == iv[1]:
                    v = iv[0]
                    return rel(p, sg * ((v > k) - (v < k)))
                if k <= iv[0]:
                    return rel(p, sg)
                if k >= iv[1]:
                    return rel(p, -sg)
                if integer and isinstance(k, float) and k == int(k):
                    # open intervals of integers: (k-1, k) is empty
                    if iv[0] == k - 1 and iv[0] != -INF:
                        kids = [(k, k), (k, iv[1])]
                    elif iv[1] == k + 1:
                        kids = [(iv[0], k), (k, k)]
                    else:
                        kids = [(iv[0], k), (k, k), (k, iv[1])]
                    raise Split(('t', t), kids)
                raise Split(('t', t), [(iv[0], k), (k, k), (k, iv[1])])
            x, y = (a, b) if repr(a) < repr(b) else (b, a)
            o = st.get(('o', x, y))
            if o is None:
                raise Split(('o', x, y), [-1, 0, 1])
            return rel(p, o if x == a else -o)
    b = st.get(('b', c))
    if b is None:
        raise Split(('b', c), [0, 1])
    return bool(b)


def isc(c):
    return isnum(c) or (isinstance(c, tuple) and c and c[0] in ('cmp', 'not', 'g', 'and', 'or'))


def simp(e, st):
    """e in cell st"""
    if isinstance(e, tuple) and e:
        h = e[0]
        if h == 'd':
            return ('d', fl(e) + 0.0 if fl(e) else 0.0)
        if h == 'g':
            return simp(e[2], st) if cond(e[1], st) else simp(e[3], st)
        if h in ('min', 'max') and len(e) == 3:
            lt = cond(('cmp', 'olt', e[1], e[2]), st)
            return simp(e[1] if lt == (h == 'min') else e[2], st)
        if h in ('cmp', 'not'):
            return int(cond(e, st))
        if h == 'fp':
            x = simp(e[1], st)
            return ('d', float(x)) if isnum(x) else ('fp', x)
        if h == 'fneg':
            x = simp(e[1], st)
            if isinstance(x, tuple) and x and x[0] == 'fneg':
                return x[1]
            if isflt(x):
                return ('d', -fl(x) if fl(x) else 0.0)
            return ('fneg', x)
        if h == 'call' and len(e) == 3 and e[1] == 'fabs':
            x = simp(e[2][0], st)
            iv = st.get(('t', x))
            return ('call', 'fabs', (x,))
        if h in ('V', 'W', 'STR', 'SIGN', 'ld', 's', 'addr', 'phi', 'arg', 'bank'):
            return sub(e, st)
        r = (h,) + tuple(simp(x, st) if isinstance(x, tuple) and x and isinstance(x[0], str) else
                         (tuple(simp(y, st) for y in x) if isinstance(x, tuple) and h == 'call' else x) for x in e[1:])
        if h in ('fadd', 'fmul', 'or', 'and', 'xor', 'mul') and len(r) == 3:
            a, b = sorted(r[1:], key=repr)
            if isnum(a) and isnum(b):
                return gval.binop(h, 'i32', a, b)
            r = (h, a, b)
        if h == 'lin':
            return sub(e, st)
        return sub(r, st)
    return e


def sub(e, st):
    iv = st.get(('t', e))
    if iv is not None and not isnum(iv) and iv[0] == iv[1]:
        return iv[0] and ('d', iv[0]) or ('d', 0.0)
    for k, v in st.items():
        if k[0] == 'o' and v == 0 and k[2] == e:
            return k[1]
    return e


def cells(f, st=None, limit=200000):
    """f(st) for every cell; yields (st, f(st))"""
    work = [dict(st or {})]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > limit:
            raise gval.ir.AnalysisBroken('partition too large')
        try:
            r = f(s)
        except Split as x:
            for kid in x.kids:
                t = dict(s)
                t[x.key] = kid
                work.append(t)
            continue
        yield s, r


def numeq(a, b):
    ca, cb = const(a), const(b)
    if ca is not None and cb is not None:
        return ca == cb
    return a == b


def differ(a, b, st=None):
    """first cell where a and b reduce to different leaves, or None"""
    for s, (x, y) in cells(lambda s: (simp(a, s), simp(b, s)), st):
        if not numeq(x, y):
            return s, x, y
    return None


def describe(st):
    out = []
    for k, v in st.items():
        if k[0] == 't':
            t = gval.show(k[1])
            out.append('%s == %g' % (t, v[0]) if v[0] == v[1] else '%s in (%g, %g)' % (t, v[0], v[1]))
        elif k[0] == 'o':
            out.append('%s %s %s' % (gval.show(k[1]), {-1: '<', 0: '==', 1: '>'}[v], gval.show(k[2])))
        else:
            out.append(('' if v else 'not ') + gval.show(k[1]))
    return ', '.join(out)
