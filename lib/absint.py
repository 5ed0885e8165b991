"""Abstract interpretation of a region of one function with a disjunctive domain.

A state is (values of registers, values of scalar memory cells, event sequence, facts about unknowns); states that agree are merged, the
transfer functions are applied until no new state appears.  Values are integer constants, linear forms over symbols (tokens read from a
stream, initial contents of cells), byte extracts of those, or unknown.  Inner loops are summarised: cells that change by a constant per
iteration become linear in the trip count, events of an iteration are repeated trip-count times.  Nothing is executed, no solver is asked."""
import ir

TOP = None
MAXSTATES = 60000


class TooBig(Exception):
    pass


def lin(c, terms):
    t = {}
    for s, k in terms:
        t[s] = t.get(s, 0) + k
    t = frozenset((s, k) for s, k in t.items() if k)
    if c == 0 and len(t) == 1:
        (x, k), = t
        if k == 1 and isinstance(x, tuple) and x[:1] == ('e',):
            return x
    return ('L', c, t) if t else c


def sym(s):
    return ('L', 0, frozenset([(s, 1)]))


def parts(v):
    if isinstance(v, int):
        return v, frozenset()
    if isinstance(v, tuple) and v[0] == 'L':
        return v[1], v[2]
    return None


def add(a, b, k=1):
    if a is TOP or b is TOP:
        return TOP
    pa, pb = parts(a), parts(b)
    if pa is None:
        pa = (0, frozenset([(a, 1)]))
    if pb is None:
        pb = (0, frozenset([(b, 1)]))
    return lin(pa[0] + k * pb[0], list(pa[1]) + [(s, k * q) for s, q in pb[1]])


def mul(a, b):
    if isinstance(b, int):
        a, b = b, a
    if not isinstance(a, int) or b is TOP:
        return ex('mul', a, b)
    if isinstance(b, int):
        return a * b
    p = parts(b)
    if p is None:
        return lin(0, [(b, a)])
    return lin(a * p[0], [(s, a * k) for s, k in p[1]])


def depth(v):
    if isinstance(v, tuple):
        return 1 + max([depth(x) for x in v if isinstance(x, tuple)] + [0])
    if isinstance(v, frozenset):
        return max([depth(s) for s, _ in v] + [0])
    return 0


def ex(op, *a):
    if any(x is TOP for x in a):
        return TOP
    r = ('e', op) + a
    return r if depth(r) < 14 else TOP


def single(v):
    """v is symbol + const -> (symbol, const)"""
    p = parts(v)
    if p and len(p[1]) == 1:
        (s, k), = p[1]
        if k == 1:
            return s, p[0]
    return None


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b}
U = (1 << 64) - 1
CMP.update({'ult': lambda a, b: (a & U) < (b & U), 'ugt': lambda a, b: (a & U) > (b & U), 'ule': lambda a, b: (a & U) <= (b & U), 'uge': lambda a, b: (a & U) >= (b & U)})


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}


def negate(c):
    return ('icmp', NEG[c[1]]) + c[2:]


class State:
    __slots__ = ('regs', 'mem', 'ev', 'facts')

    def __init__(s, regs, mem, ev, facts):
        s.regs, s.mem, s.ev, s.facts = regs, mem, ev, facts

    def copy(s):
        return State(dict(s.regs), dict(s.mem), s.ev, dict(s.facts))

    def key(s):
        return (frozenset(s.regs.items()), frozenset(s.mem.items()), s.ev, frozenset(s.facts.items()))


class Interp:
    """on_call(interp, instr, state) -> None (default: kill what the callee may write), or a list of (value, state) continuations;
    an empty list ends the path."""

    def __init__(s, fn, on_call, modset=None, stop=(), track=None):
        s.fn, s.on_call, s.stop, s.track = fn, on_call, set(stop), track
        s.modset = modset
        s.sym = ir.Sym(fn)
        s.live = liveness(fn)
        s.loops = fn.loops()
        s.nstates = 0
        s.unroll = False       # explore loops turn by turn (finite values only) instead of summarising them
        s.pred_edge = None
        s.short = False        # loops with a small constant number of turns are always explored one by one

    # ---- values
    def cell(s, v):
        """address operand -> key of a scalar cell, or None"""
        if isinstance(v, list):
            if v[0] == 'g':
                return ('g', v[1])
            if v[0] == 'gep':
                p = s.sym.path(v)
                return ir.noid(p) if static_path(p) else None
            if v[0] == 'i':
                d = s.fn.defs[v[1]]
                if d.op == 'alloca':
                    return ('l', d.id)
                if d.op == 'getelementptr':
                    p = s.sym.path(v)
                    return ir.noid(p) if static_path(p) else None
        return None

    def val(s, v, st):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, list):
            if v[0] == 'i':
                return st.regs.get(v[1], TOP)
            if v[0] == 'null':
                return 0
            if v[0] == 'a':
                return sym(('arg', v[1]))
        return TOP

    def load(s, addr, st):
        c = s.cell(addr)
        if c is None:
            return s.load_unknown(addr, st)
        if c in st.mem:
            return st.mem[c]
        return sym(('m', c))

    def load_unknown(s, addr, st):
        return TOP

    def store(s, addr, v, st):
        c = s.cell(addr)
        if c is not None:
            st.mem[c] = v

    def step(s, i, st):
        """-> value of i (state updated)"""
        o = i.op
        if o == 'load':
            v = s.load(i.ops[0], st)
            return v
        if o == 'icmp':
            return s.cmp(i.ops[0], s.val(i.ops[1], st), s.val(i.ops[2], st), st)
        if o in ('sext', 'zext', 'freeze', 'bitcast'):
            v = s.val(i.ops[0], st)
            if o == 'zext' and isinstance(v, int) and v < 0:
                return TOP
            return v
        if o == 'trunc':
            v = s.val(i.ops[0], st)
            if isinstance(v, int):
                return wrap(v, i.ty)
            return ex('trunc', i.ty, v)
        if o == 'add':
            return add(s.val(i.ops[0], st), s.val(i.ops[1], st))
        if o == 'sub':
            return add(s.val(i.ops[0], st), s.val(i.ops[1], st), -1)
        if o == 'mul':
            return mul(s.val(i.ops[0], st), s.val(i.ops[1], st))
        if o in ('and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'srem'):
            a, b = s.val(i.ops[0], st), s.val(i.ops[1], st)
            if isinstance(a, int) and isinstance(b, int):
                return fold(o, a, b)
            if o == 'xor' and b in (1, -1) and isinstance(a, tuple) and a[0] == 'icmp':
                return negate(a)
            if o == 'shl' and isinstance(b, int) and a is not TOP:
                return mul(a, 1 << b)
            return ex(o, a, b)
        if o == 'select':
            c = s.val(i.ops[0], st)
            if isinstance(c, int):
                return s.val(i.ops[1] if c else i.ops[2], st)
            a, b = s.val(i.ops[1], st), s.val(i.ops[2], st)
            return a if a == b else TOP
        return TOP

    def single(s, v):
        return single(v)

    def cmp(s, p, a, b, st):
        if isinstance(a, int) and isinstance(b, int):
            return int(CMP[p](a, b))
        if a is TOP or b is TOP:
            return TOP
        if p in ('eq', 'ne') and isinstance(b, int) and isinstance(a, tuple) and a[0] == 'icmp':
            # the truth value of a comparison, compared again
            if b not in (0, 1):
                return int(p == 'ne')
            return a if (p == 'eq') == (b == 1) else negate(a)
        if a == b:
            return int(p in ('eq', 'sle', 'sge', 'ule', 'uge'))
        d = add(a, b, -1)
        if isinstance(d, int) and p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
            return int(CMP[p](d, 0))
        if isinstance(a, int):
            a, b, p = b, a, {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
        k = ('icmp', p, a, b)
        if isinstance(b, int):
            sg = s.single(a)
            if sg:
                iv = st.facts.get(('iv', sg[0]))
                ne = st.facts.get(('ne', sg[0]), frozenset())
                x = b - sg[1]
                if iv:
                    lo, hi = iv
                    if lo is not None and lo == hi:
                        return int(CMP[p](lo, x))
                    if p in ('sgt', 'sge', 'slt', 'sle'):
                        t = {'sgt': x + 1, 'sge': x, 'slt': x, 'sle': x + 1}[p]     # >= t  /  < t
                        up = p in ('sgt', 'sge')
                        if lo is not None and lo >= t:
                            return int(up)
                        if hi is not None and hi < t:
                            return int(not up)
                    if p in ('eq', 'ne') and ((lo is not None and x < lo) or (hi is not None and x > hi)):
                        return int(p == 'ne')
                if x in ne and p in ('eq', 'ne'):
                    return int(p == 'ne')
        return k

    def assume(s, c, truth, st):
        """refine st with condition value c"""
        if isinstance(c, tuple) and c[0] == 'icmp':
            p, a, b = (c if truth else negate(c))[1:]
            if isinstance(b, int):
                sg = s.single(a)
                if sg and s.keepfact(sg[0]):
                    y, x = sg[0], b - sg[1]
                    lo, hi = st.facts.get(('iv', y), (None, None))
                    if p == 'eq':
                        lo = hi = x
                    elif p == 'ne':
                        st.facts[('ne', y)] = st.facts.get(('ne', y), frozenset()) | {x}
                        if lo == x:
                            lo += 1
                        if hi == x:
                            hi -= 1
                    elif p in ('sgt', 'sge'):
                        n = x + (p == 'sgt')
                        lo = n if lo is None else max(lo, n)
                    elif p in ('slt', 'sle'):
                        n = x - (p == 'slt')
                        hi = n if hi is None else min(hi, n)
                    if (lo, hi) != (None, None):
                        st.facts[('iv', y)] = (lo, hi)

    def keepfact(s, y):
        return s.track is None or s.track(y)

    # ---- control
    def edge(s, st, a, b):
        """state after taking edge a->b: phis of b, dead registers dropped"""
        n = st.copy()
        upd = {}
        for i in s.fn.blocks[b]:
            if i.op != 'phi':
                break
            for x, p in i.ops:
                if p == a:
                    upd[i.id] = s.val(x, st)
        lv = s.live[b]
        n.regs = {k: v for k, v in n.regs.items() if k in lv and v is not TOP}
        for k, v in upd.items():
            if v is not TOP:
                n.regs[k] = v
            else:
                n.regs.pop(k, None)
        return n

    def block(s, b, st, idx=0):
        """run block b from instruction idx: [(succ, state)] ; ret/unreachable -> ('ret', value, state)"""
        out = []
        work = [(idx, st)]
        while work:
            k, st = work.pop()
            blk = s.fn.blocks[b]
            dead = False
            while k < len(blk):
                i = blk[k]
                k += 1
                if i.op == 'phi':
                    continue
                if i.op == 'store':
                    s.on_store(i, st)
                elif i.op == 'call':
                    r = s.on_call(s, i, st)
                    if r is None:
                        s.kill(i, st)
                        st.regs.pop(i.id, None)
                    else:
                        if not r:
                            dead = True
                            break
                        for v, s2 in r[1:]:
                            s2 = s2.copy() if s2 is st else s2
                            if v is not TOP:
                                s2.regs[i.id] = v
                            work.append((k, s2))
                        v, s2 = r[0]
                        st = s2
                        if v is not TOP:
                            st.regs[i.id] = v
                        else:
                            st.regs.pop(i.id, None)
                elif i.op == 'br':
                    if len(i.ops) == 1:
                        out.append((i.ops[0], s.edge(st, b, i.ops[0])))
                    else:
                        c = s.val(i.ops[0], st)
                        for t, truth in ((i.ops[1], True), (i.ops[2], False)):
                            if isinstance(c, int):
                                if bool(c) != truth:
                                    continue
                                out.append((t, s.edge(st, b, t)))
                            else:
                                n = st.copy()
                                s.assume(c, truth, n)
                                out.append((t, s.edge(n, b, t)))
                elif i.op == 'switch':
                    c = s.val(i.ops[0], st)
                    if isinstance(c, int):
                        t = next((d for v, d in i.ops[2:] if v == c), i.ops[1])
                        out.append((t, s.edge(st, b, t)))
                    else:
                        sg = s.single(c) if c is not TOP else None
                        for t in s.fn.succ[b]:
                            vs = [v for v, d in i.ops[2:] if d == t]
                            if t != i.ops[1] and sg and s.keepfact(sg[0]):
                                for v in vs:
                                    n = st.copy()
                                    r = s.cmp('eq', c, v, n)
                                    if r == 0:
                                        continue
                                    n.facts[('iv', sg[0])] = (v - sg[1], v - sg[1])
                                    out.append((t, s.edge(n, b, t)))
                            else:
                                n = st.copy()
                                if sg and s.keepfact(sg[0]):
                                    n.facts[('ne', sg[0])] = n.facts.get(('ne', sg[0]), frozenset()) | {v - sg[1] for v, d in i.ops[2:] if d != t}
                                out.append((t, s.edge(n, b, t)))
                elif i.op == 'ret':
                    out.append((('ret', s.val(i.ops[0], st) if i.ops else TOP), st))
                elif i.op == 'unreachable':
                    pass
                else:
                    v = s.step(i, st)
                    if v is not TOP:
                        st.regs[i.id] = v
                    else:
                        st.regs.pop(i.id, None)
        return out

    def on_store(s, i, st):
        c = s.cell(i.ops[1])
        if c is not None:
            st.mem[c] = s.val(i.ops[0], st)
        else:
            # a store through a pointer: cells whose address escapes could change; scalars of this program do not alias byte buffers
            pass

    def kill(s, i, st):
        """effects of an unmodelled call"""
        for a in i.args:
            c = s.cell(a) if isinstance(a, list) and a[0] in ('i', 'g', 'gep') else None
            if c is not None:
                st.mem[c] = TOP
        if s.modset is not None:
            if i.callee is None:
                gs = s.modset('*')
            else:
                gs = s.modset(i.callee)
            for g in gs:
                st.mem[('g', g)] = TOP

    def run(s, b, st, idx=0, until=(), region=None):
        """explore from block b; final states: [(target, state)] for edges into `until`, out of region, and returns"""
        until = set(until)
        done = []
        seen = set()
        work = [(b, idx, st)]
        while work:
            b, idx, st = work.pop()
            k = (b, idx, st.key())
            if k in seen:
                continue
            seen.add(k)
            s.nstates += 1
            if s.nstates > MAXSTATES:
                raise TooBig('%s: %d states' % (s.fn.name, s.nstates))
            for t, n in s.block(b, st, idx):
                if isinstance(t, tuple) or t in until or (region is not None and t not in region):
                    done.append((t, n))
                elif t in s.loops and b not in s.loops[t] and not (s.unroll and s.decided(t, n)):
                    r = s.loop(t, n, b)
                    if r is None:
                        work.append((t, 0, n))
                        continue
                    for t2, n2 in r:
                        if isinstance(t2, tuple) or t2 in until or (region is not None and t2 not in region):
                            done.append((t2, n2))
                        else:
                            work.append((t2, 0, n2))
                else:
                    work.append((t, 0, n))
        return done

    def decided(s, h, st):
        """the header h leaves in one direction only from this state"""
        try:
            return len({t if not isinstance(t, tuple) else 'ret' for t, _ in s.block(h, st.copy())}) == 1
        except RecursionError:
            return False

    # ---- inner loops
    def loop(s, h, st, frm):
        body = s.loops[h]
        phis = [i for i in s.fn.blocks[h] if i.op == 'phi']
        cells = set()
        for b in body:
            for i in s.fn.blocks[b]:
                if i.op == 'store':
                    c = s.cell(i.ops[1])
                    if c is not None:
                        cells.add(c)
                elif i.op == 'call':
                    cells |= s.callcells(i)
        cells |= s.dyncells(h, st, body)
        entry = {('r', p.id): st.regs.get(p.id, TOP) for p in phis}
        entry.update({('c', c): st.mem.get(c, sym(('m', c))) for c in cells})
        mode = {k: 'lin' for k in entry}
        for _ in range(6):
            g = st.copy()
            g.ev = ()
            for k in entry:
                v = TOP if mode[k] == 'top' else (entry[k] if mode[k] == 'same' else sym(('loop', h) + k))
                s._set(g, k, v)
            res = s.run_body(h, g, body)
            back = [n for t, n in res if t == h]
            change = False
            delta = {}
            for k in entry:
                if mode[k] == 'top':
                    continue
                ds = set()
                for n in back:
                    v = n.regs.get(k[1], TOP) if k[0] == 'r' else n.mem.get(k[1], sym(('m', k[1])))
                    ref = entry[k] if mode[k] == 'same' else sym(('loop', h) + k)
                    d = add(v, ref, -1) if v is not TOP else TOP
                    ds.add(d if isinstance(d, int) else TOP)
                if len(ds) == 1 and TOP not in ds:
                    delta[k] = ds.pop()
                elif not ds:
                    delta[k] = 0
                else:
                    mode[k] = 'top'
                    change = True
            if not change:
                break
        evs = {n.ev for n in back}
        if not back:
            per = ()
        elif len(evs) == 1:
            per = evs.pop()
        else:
            # the turns differ: the alternatives, each with what is known on its path
            per = (('alt', h, tuple(sorted(((tuple(sorted(((k, v) for k, v in n.facts.items() if not (isinstance(k[1], tuple) and k[1][:2] == ('loop', h))), key=repr)), n.ev) for n in back), key=repr))),)
        out = []
        trip = s.trip(h, body, entry, delta, mode, st)
        bound = s.trip(h, body, entry, delta, mode, st, False) if s.short else trip     # at most so many turns
        if isinstance(bound, int) and 0 <= bound <= 16 and (s.short or 'top' in mode.values()):
            return None     # a fixed small number of turns: explored one by one
        for t, n in res:
            if t == h:
                continue
            T = trip
            n = n.copy()
            # entry values in place of the loop symbols
            sub = {('loop', h) + k: (add(entry[k], mul(delta.get(k, 0), T) if not (isinstance(delta.get(k, 0), int) and delta.get(k, 0) == 0) else 0) if entry[k] is not TOP else TOP)
                   for k in entry if mode[k] == 'lin'}
            n.regs = {k: v2 for k, v2 in ((k, subst(v, sub)) for k, v in n.regs.items()) if v2 is not TOP}
            n.mem = {k: subst(v, sub) for k, v in n.mem.items()}
            tail = tuple(subst_ev(e, sub) for e in n.ev)
            head = ()
            if per:
                head = (('rep', T, tuple(subst_ev(e, {k: sym(('iter',) + k) for k in sub}) for e in per)),)
            n.ev = st.ev + head + tail
            n.facts = {k: v for k, v in n.facts.items() if not (isinstance(k[1], tuple) and k[1][:2] == ('loop', h))}
            out.append((t, n))
        return out

    def run_body(s, h, g, body):
        """paths through the loop body: back edges to h and exits"""
        return s.run(h, g, 0, until={h}, region=body)

    def dyncells(s, h, st, body):
        return set()

    def callcells(s, i):
        out = set()
        for a in i.args:
            c = s.cell(a) if isinstance(a, list) and a[0] in ('i', 'g', 'gep') else None
            if c is not None:
                out.add(c)
        if s.modset is not None:
            out |= {('g', g) for g in s.modset(i.callee or '*')}
        return out

    def _set(s, st, k, v):
        if k[0] == 'r':
            if v is TOP:
                st.regs.pop(k[1], None)
            else:
                st.regs[k[1]] = v
        else:
            st.mem[k[1]] = v

    def trip(s, h, body, entry, delta, mode, st, allexits=True):
        """number of iterations as a linear form, or a fresh symbol"""
        fresh = sym(('trip', h))
        exits = [(b, t) for b in body for t in s.fn.succ[b] if t not in body and not s.only_fails(t)]
        if allexits and {b for b, _ in exits} != {h}:
            return fresh
        t = s.fn.blocks[h][-1]
        if t.op != 'br' or len(t.ops) != 3:
            return fresh
        g = st.copy()
        for k in entry:
            s._set(g, k, TOP if mode[k] == 'top' else sym(('loop', h) + k))
        for i in s.fn.blocks[h]:
            if i.op == 'phi':
                continue
            if i.op in ('store', 'call', 'br'):
                break
            v = s.step(i, g)
            if v is not TOP:
                g.regs[i.id] = v
        c = s.val(t.ops[0], g)
        if not (isinstance(c, tuple) and c[0] == 'icmp'):
            return fresh
        p, a, b = c[1:]
        stay = t.ops[1] in body
        if not stay:
            p = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'ugt': 'ule', 'ule': 'ugt', 'uge': 'ult'}[p]
        d = add(a, b, -1)
        if d is TOP:
            return fresh
        pd = parts(d)
        ls = [(x, k) for x, k in pd[1] if isinstance(x, tuple) and x[:2] == ('loop', h)]
        if any(isinstance(x, tuple) and x[0] == 'e' for x, _ in pd[1]):
            inner = [x for x, _ in pd[1] if isinstance(x, tuple) and x[0] == 'e' and mentions(x, h)]
            if inner:
                return fresh
        rate = sum(k * delta.get(x[2:], 0) for x, k in ls)
        init = d
        for x, k in ls:
            if entry[x[2:]] is TOP:
                return fresh
            init = add(add(init, mul(k, entry[x[2:]])), sym(x), -k) if False else add(add(init, mul(k, entry[x[2:]])), mul(k, sym(x)), -1)
        # stays while init + rate*n  p  0
        if p in ('sgt', 'ugt') and rate == -1:
            return init
        if p in ('slt', 'ult') and rate == 1:
            return mul(-1, init)
        if p in ('sge', 'uge') and rate == -1:
            return add(init, 1)
        if p in ('sle', 'ule') and rate == 1:
            return add(mul(-1, init), 1)
        if p == 'ne' and rate == -1:
            return init
        if p == 'ne' and rate == 1:
            return mul(-1, init)
        return fresh

    def only_fails(s, b):
        """leaving the loop to b always ends in a return of the failing value (the error exits do not bound the trip count)"""
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > 12:
                return False
            t = s.fn.blocks[x][-1]
            if t.op == 'ret':
                v = t.ops[0] if t.ops else 1
                if isinstance(v, int):
                    if v != 0:
                        return False
                elif isinstance(v, list) and v[0] == 'i':
                    d = s.fn.defs[v[1]]
                    if d.op == 'phi':
                        for iv, p in d.ops:
                            if p in seen and iv != 0:
                                return False
                    else:
                        return False
                else:
                    return False
            st.extend(s.fn.succ[x])
        return True


def mentions(v, h):
    if isinstance(v, tuple):
        return v[:2] == ('loop', h) or any(mentions(x, h) for x in v)
    if isinstance(v, frozenset):
        return any(mentions(x, h) for x in v)
    return False


def static_path(p):
    k = p[0]
    if k == 'g':
        return True
    if k == 'l':
        return True
    if k == 'f':
        return static_path(p[1])
    if k == 'x':
        return isinstance(p[2], int) and static_path(p[1])
    return False


def subst(v, sub):
    if not sub or v is TOP or isinstance(v, int):
        return v
    if isinstance(v, tuple) and v[0] == 'L':
        out = v[1]
        for s_, k in v[2]:
            if s_ in sub:
                x = sub[s_]
            elif isinstance(s_, tuple) and s_[0] == 'e':
                x = subst(s_, sub)
                if isinstance(x, tuple) and x[0] == 'e':
                    x = lin(0, [(x, 1)])
            else:
                x = sym(s_)
            if x is TOP:
                return TOP
            out = add(out, mul(k, x))
            if out is TOP:
                return TOP
        return out
    if isinstance(v, tuple) and v[0] == 'e':
        a = [subst(x, sub) if not isinstance(x, str) else x for x in v[2:]]
        if any(x is TOP for x in a):
            return TOP
        if v[1] in ('and', 'or', 'xor', 'ashr', 'lshr', 'shl', 'sdiv', 'srem') and all(isinstance(x, int) for x in a):
            return fold(v[1], *a)
        return ('e', v[1]) + tuple(a)
    if isinstance(v, tuple) and v[0] == 'icmp':
        a, b = subst(v[2], sub), subst(v[3], sub)
        return TOP if a is TOP or b is TOP else ('icmp', v[1], a, b)
    return v


def subst_ev(e, sub):
    if e[0] == 'alt':
        return ('alt', e[1], tuple((f, tuple(subst_ev(x, sub) for x in ev)) for f, ev in e[2]))
    if e[0] == 'rep':
        return ('rep', subst(e[1], sub), tuple(subst_ev(x, sub) for x in e[2]))
    return tuple(subst(x, sub) if isinstance(x, tuple) else x for x in e)


def wrap(v, ty):
    n = int(ty[1:]) if ty[1:].isdigit() else 64
    if n == 1:
        return v & 1
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def fold(o, a, b):
    try:
        if o == 'and': return a & b
        if o == 'or': return a | b
        if o == 'xor': return a ^ b
        if o == 'shl': return a << b if 0 <= b < 64 else TOP
        if o == 'ashr': return a >> b if 0 <= b < 64 else TOP
        if o == 'lshr': return a >> b if a >= 0 and 0 <= b < 64 else TOP
        if o == 'sdiv':
            q = abs(a) // abs(b)
            return q if (a < 0) == (b < 0) else -q
        if o == 'srem':
            r = abs(a) % abs(b)
            return -r if a < 0 else r
    except ZeroDivisionError:
        return TOP
    return TOP


def liveness(fn):
    if hasattr(fn, '_live'):
        return fn._live
    use, dfn = {}, {}
    phiuse = {}
    for b, blk in enumerate(fn.blocks):
        u, d = set(), set()
        for i in blk:
            if i.op == 'phi':
                for x, p in i.ops:
                    if isinstance(x, list) and x[0] == 'i':
                        phiuse.setdefault(p, set()).add(x[1])
                d.add(i.id)
                continue
            ids = set()

            def walk(v):
                if isinstance(v, list):
                    if len(v) == 2 and v[0] == 'i':
                        ids.add(v[1])
                    else:
                        for e in v:
                            walk(e)
            walk(i.ops)
            u |= ids - d
            d.add(i.id)
        use[b], dfn[b] = u, d
    live = {b: set() for b in use}
    ch = True
    order = fn.rpo()[::-1]
    while ch:
        ch = False
        for b in order:
            o = set(phiuse.get(b, ()))
            for t in fn.succ[b]:
                o |= live[t]
            n = use[b] | (o - dfn[b])
            if n != live[b]:
                live[b] = n
                ch = True
    fn._live = live
    return live


def modsets(m):
    """function -> globals it (transitively) stores to"""
    direct, calls = {}, {}
    for f in m.functions():
        ds, cs = set(), set()
        for i in f.instrs():
            if i.op == 'store':
                a = i.ops[1]
                g = root_global(f, a)
                if g:
                    ds.add(g)
            elif i.op == 'call':
                if i.callee:
                    cs.add(i.callee)
                    for a in i.args:
                        if isinstance(a, list) and a[0] in ('g', 'gep'):
                            g = root_global(f, a)
                            if g:
                                ds.add(g)
                else:
                    cs.add('*')
        direct[f.name], calls[f.name] = ds, cs
    memo = {}

    def get(n):
        if n in memo:
            return memo[n]
        seen, st, out = set(), [n], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x in direct:
                out |= direct[x]
                st.extend(calls[x])
        memo[n] = out
        return out
    return get


def root_global(f, a):
    while isinstance(a, list):
        if a[0] == 'g':
            return a[1]
        if a[0] == 'gep':
            a = a[1]
            continue
        if a[0] == 'i':
            d = f.defs[a[1]]
            if d.op == 'getelementptr':
                a = d.ops[0]
                continue
        return None
    return None
