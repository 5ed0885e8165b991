"""Path summaries: the abstract interpreter of absint with symbolic addresses.

Pointers are values (symbols, linear forms over them); a field of a struct is the cell ('f', pointer, struct, field), an array element ('x', base,
index, type).  Anything unknown gets a name of its own, so that values which flow to an output can be traced back.  Facts are intervals of
linear forms (any number of symbols)."""
import absint
from absint import TOP, add, sym, lin, parts, mul, ex, Interp, State


def at(k):
    return sym(('at', k))


def field(base, struct, name):
    return ('f', base, 'struct.' + struct, name)


def key_of(v):
    """pointer value -> memory key"""
    if isinstance(v, tuple) and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1:
        (x, k), = v[2]
        if k == 1 and isinstance(x, tuple) and x[0] == 'at':
            return x[1]
    return ('p', v)


class PathInterp(Interp):
    def __init__(s, fn, handlers=None, mods=None, fixed=None, stores8=False):
        super().__init__(fn, PathInterp.dispatch, mods)
        s.handlers = handlers or {}
        s.fixed = fixed or {}       # (struct, field) -> value of every load of it
        s.stores8 = stores8         # stores of bytes through pointers are events
        s.stored = set()
        s.seq = 0
        s.short = True

    # ---- addresses
    def pointer(s, v, st):
        if isinstance(v, list):
            k = v[0]
            if k == 'g':
                return at(('g', v[1]))
            if k == 'gep':
                return s.walk(s.pointer(v[1], st), v[2], st)
            if k == 's':
                return at(('s', v[1]))
            if k == 'i':
                d = s.fn.defs[v[1]]
                if d.op == 'alloca':
                    return at(('l', d.id))
        return s.val(v, st)

    def walk(s, b, steps, st):
        for x in steps:
            if b is TOP:
                return TOP
            if x[0] == 'f':
                b = at(('f', b, x[1], x[3]))
            else:
                idx = s.val(x[1], st) if not isinstance(x[1], int) else x[1]
                if idx is TOP:
                    return TOP
                if x[2] == 'i8':
                    b = add(b, idx)
                elif isinstance(idx, int) and idx == 0:
                    pass
                else:
                    b = at(('x', b, idx, x[2]))
        return b

    def val(s, v, st):
        if isinstance(v, list) and v[0] in ('g', 'gep', 's'):
            return s.pointer(v, st)
        if isinstance(v, list) and v[0] == 'i' and s.fn.defs[v[1]].op == 'alloca':
            return at(('l', v[1]))
        if isinstance(v, list) and v[0] in ('d', 'f') and len(v) == 2:
            return ('e', 'fconst', v[1])
        return super().val(v, st)

    def cell(s, v):
        if isinstance(v, list):
            if v[0] == 'g':
                return ('g', v[1])
            if v[0] == 'i' and s.fn.defs[v[1]].op == 'alloca':
                return ('l', v[1])
        return None

    def fresh(s, i):
        return sym(('u', i.id))

    def load(s, addr, st):
        p = s.pointer(addr, st)
        if p is TOP:
            return TOP
        k = key_of(p)
        if k[0] == 'f' and (k[2][7:], k[3]) in s.fixed:
            return s.fixed[(k[2][7:], k[3])]
        if k in st.mem:
            return st.mem[k]
        return sym(('m', k))

    def step(s, i, st):
        if i.op == 'getelementptr':
            v = s.walk(s.pointer(i.ops[0], st), i.ops[1], st)
        elif i.op in ('fptosi', 'fptoui'):
            a = s.val(i.ops[0], st)
            v = a[2] if isinstance(a, tuple) and a[:2] == ('e', 'sitofp') else ex('fptosi', a)
        elif i.op in ('sitofp', 'uitofp'):
            v = ex('sitofp', s.val(i.ops[0], st))
        elif i.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'fcmp', 'fpext', 'fptrunc'):
            v = ex(i.op, *[s.val(a, st) if not isinstance(a, str) else a for a in i.ops])
        elif i.op == 'trunc' and not isinstance(s.val(i.ops[0], st), int):
            v = ex('trunc', i.ty, s.val(i.ops[0], st))
        elif i.op == 'sdiv':
            a, b = s.val(i.ops[0], st), s.val(i.ops[1], st)
            v = absint.fold('sdiv', a, b) if isinstance(a, int) and isinstance(b, int) else ex('sdiv', a, b)
        else:
            v = super().step(i, st)
        if v is TOP:
            v = s.fresh(i)
        return v

    def on_store(s, i, st):
        p = s.pointer(i.ops[1], st)
        v = s.val(i.ops[0], st)
        if v is TOP:
            v = s.fresh(i)
        if p is TOP:
            if s.stores8 and i.x.get('vt') == 'i8':
                st.ev = st.ev + (('st8', TOP, v, i.id),)
            return
        k = key_of(p)
        s.stored.add(k)
        st.mem[k] = v
        if s.stores8 and i.x.get('vt') == 'i8' and k[0] in ('p', 'x'):
            st.ev = st.ev + (('st8', p, v, i.id),)

    def _set(s, st, k, v):
        super()._set(st, k, sym(('t',) + k) if v is TOP else v)

    # ---- facts over linear forms
    def single(s, v):
        if isinstance(v, tuple) and v[0] == 'e':
            return v, 0
        p = parts(v)
        if not p or not p[1]:
            return None
        if len(p[1]) == 1:
            (x, k), = p[1]
            if k == 1:
                return x, p[0]
            return None
        return ('lf', p[1]), p[0]

    def cmp(s, p, a, b, st):
        if a is not TOP and b is not TOP and not isinstance(a, int) and not isinstance(b, int):
            d = add(a, b, -1)
            if not isinstance(d, int) and d is not TOP and p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
                return super().cmp(p, d, 0, st)
        return super().cmp(p, a, b, st)

    # ---- calls
    @staticmethod
    def dispatch(s, i, st):
        h = s.handlers.get(i.callee, s.handlers.get('*'))
        if h is not None:
            r = h(s, i, st)
            if r is not None:
                return r
        return s.default_call(i, st)

    def default_call(s, i, st):
        for n, a in enumerate(i.args):
            c = s.cell(a)
            if c is not None and c[0] == 'l':
                st.mem[c] = sym(('o', i.id, n))
            elif isinstance(a, list) and a[0] == 'i' and s.fn.defs[a[1]].op != 'alloca':
                pass
        if s.modset is not None:
            for g in s.modset(i.callee or '*'):
                st.mem[('g', g)] = sym(('o', i.id, g))
        if i.ty == 'void':
            return [(TOP, st)]
        return [(s.call_value(i, st), st)]

    pure = frozenset()

    def call_value(s, i, st):
        if i.callee in s.pure:
            a = tuple(s.val(x, st) for x in i.args)
            if TOP not in a:
                return ('e', 'call', i.callee) + a
        return sym(('call', i.callee, i.id))

    def dyncells(s, h, st, body):
        """cells the body of an inner loop stores to"""
        old, s.stored = s.stored, set()
        lp = s.loops.pop(h)
        try:
            g = st.copy()
            g.ev = ()
            for i in s.fn.blocks[h]:
                if i.op == 'phi':
                    g.regs[i.id] = sym(('loop', h, 'r', i.id))
            n = s.nstates
            s.run(h, g, 0, until={h}, region=lp)
            s.nstates = n
        finally:
            s.loops[h] = lp
        out, s.stored = s.stored, old | s.stored
        return {c for c in out if not absint.mentions(c, h)}


def iv(facts, v, single):
    """interval known for value v"""
    if isinstance(v, int):
        return v, v
    sg = single(v)
    if sg is None:
        return None, None
    lo, hi = facts.get(('iv', sg[0]), (None, None))
    if isinstance(sg[0], tuple) and sg[0][0] == 'lf':
        neg = ('lf', frozenset((x, -k) for x, k in sg[0][1]))
        l2, h2 = facts.get(('iv', neg), (None, None))
        if h2 is not None:
            lo = -h2 if lo is None else max(lo, -h2)
        if l2 is not None:
            hi = -l2 if hi is None else min(hi, -l2)
    return None if lo is None else lo + sg[1], None if hi is None else hi + sg[1]
