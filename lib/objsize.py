"""Capacity of the object a pointer points into, in bytes from the pointer on; None when it is not known."""
import ir

ALLOC = {'malloc': (0,), 'calloc': (0, 1), 'realloc': (1,)}


class Sizes:
    def __init__(s, m):
        s.m = m
        s.F = {f.name: f for f in m.functions()}
        s.memo = {}
        s.gst = {}
        s.callers = {}
        s.taken = set()         # functions whose address is used other than in a call
        for f in s.F.values():
            for i in f.instrs():
                if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g':
                    s.gst.setdefault(i.ops[1][1], []).append((f, i.ops[0]))
                elif i.op == 'call' and i.callee in s.F:
                    s.callers.setdefault(i.callee, []).append((f, i))

    def num(s, f, v):
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if isinstance(v, list) and v and v[0] == 'i':
            d = f.defs[v[1]]
            if d.op in ('zext', 'sext', 'trunc'):
                return s.num(f, d.ops[0])
            if d.op in ('add', 'mul'):
                a, b = s.num(f, d.ops[0]), s.num(f, d.ops[1])
                if a is not None and b is not None:
                    return a + b if d.op == 'add' else a * b
        return None

    def steps(s, f, base, steps, seen):
        """(capacity, scalar type or None)"""
        size = None
        off = 0
        known = True
        ty = None
        for n, st in enumerate(steps):
            if st[0] == 'f':
                # a member: its own size is the capacity
                fld = s.field(st)
                if fld is None:
                    return None, None
                ty, size = fld
                off = 0
                known = True
            else:
                k = s.num(f, st[1])
                if n == 0 and size is None:
                    b, t = s.cap(f, base, seen)
                    if b is None:
                        return None, None
                    size = b
                    ty = t if k == 0 else None
                    if isinstance(st[2], str) and not st[2].startswith('['):
                        ty = st[2] if st[2].startswith('i') or st[2] in ('double', 'ptr') else ty
                if k is None:
                    known = False
                else:
                    off += k * st[3]
                ty = elem(ty) if ty and ty.startswith('[') else ty
        if not known:
            return None, ty
        return (None if size is None else max(0, size - off)), ty

    def field(s, st):
        name = st[1] if isinstance(st[1], str) else None
        for k in (st[1], st[2], st[3] if len(st) > 3 else None):
            if isinstance(k, str) and k in s.m.structs:
                name = k
                break
        if name is None or name not in s.m.structs:
            return None
        fs = s.m.structs[name]['fields']
        for n, (fn, ty, off) in enumerate(fs):
            if fn in st[1:]:
                return ty, tysize(ty, s.m)
        return None

    def cap(s, f, v, seen=()):
        """(bytes, type of the object)"""
        if not isinstance(v, list) or not v:
            return None, None
        if v[0] == 's':
            return len(v[1]) + 1, None
        if v[0] == 'g':
            g = s.m.globals.get(v[1])
            return (g['size'], g['type']) if g else (None, None)
        if v[0] == 'gep':
            return s.steps(f, v[1], v[2], seen)
        if v[0] == 'a':
            if (f.name, v[1]) in seen:
                return None, None
            cs = s.callers.get(f.name, [])
            r = [s.cap(g, i.args[v[1]], seen + ((f.name, v[1]),)) for g, i in cs]
            if not r or any(x[0] is None for x in r):
                return None, None
            return min(x[0] for x in r), r[0][1] if len({x[1] for x in r}) == 1 else None
        if v[0] != 'i' or (f.name, 'i', v[1]) in seen:
            return None, None
        d = f.defs[v[1]]
        seen = seen + ((f.name, 'i', v[1]),)
        if d.op == 'alloca':
            return (d.ops[2] if isinstance(d.ops[2], int) else None), d.ops[0]
        if d.op == 'getelementptr':
            return s.steps(f, d.ops[0], d.ops[1], seen)
        if d.op in ('bitcast', 'freeze'):
            return s.cap(f, d.ops[0], seen)
        if d.op == 'phi' or d.op == 'select':
            xs = [x for x, _ in d.ops] if d.op == 'phi' else d.ops[1:]
            r = [s.cap(f, x, seen) for x in xs if not (isinstance(x, list) and x and x[0] == 'null')]
            if not r or any(x[0] is None for x in r):
                return None, None
            return min(x[0] for x in r), None
        if d.op == 'call' and d.callee in ALLOC:
            n = 1
            for k in ALLOC[d.callee]:
                x = s.num(f, d.args[k])
                if x is None:
                    return None, None
                n *= x
            return n, None
        if d.op == 'load' and isinstance(d.ops[0], list) and d.ops[0][0] == 'g':
            g = d.ops[0][1]
            if ('g', g) in seen:
                return None, None
            r = [s.cap(h, x, seen + (('g', g),)) for h, x in s.gst.get(g, []) if not (isinstance(x, list) and x and x[0] == 'null')]
            if not r or any(x[0] is None for x in r):
                return None, None
            return min(x[0] for x in r), None
        return None, None


def elem(ty):
    """[31 x i8] -> i8"""
    if ty.startswith('['):
        return ty[1:-1].split(' x ', 1)[1]
    return ty


def tysize(ty, m):
    if ty.startswith('['):
        n, e = ty[1:-1].split(' x ', 1)
        x = tysize(e, m)
        return None if x is None else int(n) * x
    if ty.startswith('i') and ty[1:].isdigit():
        return max(1, int(ty[1:]) // 8)
    if ty in ('double', 'ptr'):
        return 8
    if ty == 'float':
        return 4
    n = ty.lstrip('%')
    if n in m.structs:
        return m.structs[n]['size']
    return None
