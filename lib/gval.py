"""Gated value numbering over one loop-free region of a function.

For a region (entry block, stop blocks) the engine computes, by forward dataflow with merges at join
points, the value of every SSA name and memory cell as an expression over the region's inputs.  A merge
yields a gate ('g', cond, then, else) built from the branch structure between the join and its dominator.
No path is enumerated and no solver is involved; conditions are only folded syntactically."""
import ir

FAIL = ('FAIL',)
NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
       'oeq': 'one', 'one': 'oeq', 'olt': 'oge', 'oge': 'olt', 'ogt': 'ole', 'ole': 'ogt', 'une': 'oeq', 'ueq': 'one'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole'}
BITS = {'i1': 1, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


def isnum(e):
    return isinstance(e, int) and not isinstance(e, bool)


def isflt(e):
    return isinstance(e, tuple) and len(e) == 2 and e[0] == 'd'


def fl(e):
    return float(e[1])


def wrap(v, ty):
    n = BITS.get(ty)
    if n is None:
        return v
    v &= (1 << n) - 1
    if n > 1 and v >> (n - 1):
        v -= 1 << n
    return v


def key(e):
    return repr(e)


# linear integer forms: ('lin', const, ((term, coef), ...))
def lin(e):
    if isnum(e):
        return e, {}
    if isinstance(e, tuple) and e and e[0] == 'lin':
        return e[1], dict(e[2])
    return 0, {e: 1}


def mklin(c, t):
    t = {k: v for k, v in t.items() if v}
    if not t:
        return c
    if c == 0 and len(t) == 1:
        (k, v), = t.items()
        if v == 1:
            return k
    return ('lin', c, tuple(sorted(t.items(), key=lambda kv: key(kv[0]))))


def add(a, b, s=1):
    if isnum(a) and isnum(b):
        return a + s * b
    # push through gates with constant arms only (keeps terms comparable)
    ca, ta = lin(a)
    cb, tb = lin(b)
    t = dict(ta)
    for k, v in tb.items():
        t[k] = t.get(k, 0) + s * v
    return mklin(ca + s * cb, t)


def gate(c, a, b):
    if a == b:
        return a
    if a == FAIL:
        return b
    if b == FAIL:
        return a
    if isnum(c):
        return a if c else b
    c, pol = norm(c)
    if not pol:
        a, b = b, a
    # g(c, g(c, x, y), z) = g(c, x, z)
    if isinstance(a, tuple) and a and a[0] == 'g' and a[1] == c:
        a = a[2]
    if isinstance(b, tuple) and b and b[0] == 'g' and b[1] == c:
        b = b[3]
    if a == b:
        return a
    # bool materialisation
    if a == 1 and b == 0:
        return c
    if a == 0 and b == 1:
        return ('not', c)
    mm = minmax(c, a, b)
    if mm is not None:
        return mm
    return ('g', c, a, b)


def minmax(c, a, b):
    if isinstance(c, tuple) and c[0] == 'cmp' and c[1] in ('olt', 'slt', 'ole', 'sle'):
        if (c[2], c[3]) == (a, b):
            return ('min',) + tuple(sorted((a, b), key=key))
        if (c[2], c[3]) == (b, a):
            return ('max',) + tuple(sorted((a, b), key=key))
    return None


def norm(c):
    """condition -> (canonical condition, polarity)"""
    if isinstance(c, tuple) and c:
        if c[0] == 'not':
            x, p = norm(c[1])
            return x, not p
        if c[0] == 'cmp':
            p, a, b = c[1], c[2], c[3]
            if p in ('ne', 'one', 'une'):
                x, q = norm(cmp_('eq' if p == 'ne' else 'oeq', a, b))
                return x, not q
            if isflt(b) or isnum(b):
                if p in ('sge', 'uge', 'oge', 'ole', 'ule'):
                    return ('cmp', NEG[p], a, b), False
                return c, True
            if p in ('sge', 'uge', 'oge', 'sle', 'ule', 'ole'):
                x, q = norm(cmp_(NEG[p], a, b))
                return x, not q
            if p in ('sgt', 'ugt', 'ogt'):
                return norm(cmp_(SWAP[p], b, a))
            if p in ('eq', 'oeq') and key(a) > key(b) and not isnum(b) and not isflt(b):
                return cmp_(p, b, a), True
    return c, True


def neg(c):
    if isnum(c):
        return int(not c)
    if isinstance(c, tuple) and c and c[0] == 'not':
        return c[1]
    if isinstance(c, tuple) and c and c[0] == 'cmp':
        return ('cmp', NEG[c[1]], c[2], c[3])
    return ('not', c)


def cmp_(p, a, b):
    if isnum(a) and isnum(b):
        ua, ub = a & (2**64 - 1), b & (2**64 - 1)
        return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sgt': a > b, 'sle': a <= b, 'sge': a >= b,
                    'ult': ua < ub, 'ugt': ua > ub, 'ule': ua <= ub, 'uge': ua >= ub}[p])
    if isnum(a) or isflt(a):
        if p in SWAP:
            p, a, b = SWAP[p], b, a
        elif p in ('eq', 'ne', 'oeq', 'one', 'une'):
            a, b = b, a
    # comparisons of a boolean with 0 / 1
    if isnum(b) and isinstance(a, tuple) and a and (a[0] in ('cmp', 'not') or (a[0] == 'g' and a[2] in (0, 1) and a[3] in (0, 1))):
        if p in ('eq', 'ne') and b in (0, 1):
            t = (p == 'eq') == (b == 1)
            return a if t else neg(a)
    # linear: move the constant right
    if isnum(b) and isinstance(a, tuple) and a and a[0] == 'lin' and p in ('eq', 'ne', 'slt', 'sgt', 'sle', 'sge'):
        c, t = lin(a)
        a, b = mklin(0, t), b - c
    if isnum(b):    # x <= c -> x < c+1 ; x > c -> x >= c+1
        if p == 'sle':
            p, b = 'slt', b + 1
        elif p == 'sgt':
            p, b = 'sge', b + 1
    if p in ('eq', 'ne') and a == b:
        return int(p == 'eq')
    # g(k, const, const) == const
    if isinstance(a, tuple) and a and a[0] == 'g' and isnum(b) and p in NEG and not p.startswith('o'):
        x, y = cmp_(p, a[2], b), cmp_(p, a[3], b)
        if isnum(x) and isnum(y):
            return gate(a[1], x, y)
    return ('cmp', p, a, b)


def binop(op, ty, a, b):
    if op == 'add':
        return add(a, b)
    if op == 'sub':
        return add(a, b, -1)
    if isnum(a) and isnum(b):
        try:
            if op == 'mul':
                return wrap(a * b, ty)
            if op == 'and':
                return wrap(a & b, ty)
            if op == 'or':
                return wrap(a | b, ty)
            if op == 'xor':
                return wrap(a ^ b, ty)
            if op == 'shl':
                return wrap(a << b, ty)
            if op == 'ashr':
                return a >> b
            if op == 'sdiv' and b:
                return int(abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
        except Exception:
            pass
    if op == 'mul':
        if isnum(a):
            a, b = b, a
        if isnum(b):
            c, t = lin(a)
            return mklin(c * b, {k: v * b for k, v in t.items()})
    if op == 'shl' and isnum(b):
        return binop('mul', ty, a, 1 << b)
    if op == 'and' and isnum(b) and isinstance(a, tuple) and a and a[0] in ('cmp', 'not') and b & 1:
        return a
    if op in ('and', 'or', 'xor', 'mul', 'fadd', 'fmul') and key(a) > key(b) and not isnum(b):
        a, b = b, a
    if op in ('and', 'or') and isnum(a):
        a, b = b, a
    if op == 'or' and b == 0:
        return a
    if op == 'and' and b == 0:
        return 0
    # (x & m1) & m2
    if op == 'and' and isnum(b) and isinstance(a, tuple) and a[0] == 'and' and isnum(a[2]):
        return binop('and', ty, a[1], a[2] & b)
    return (op, a, b)


class Eval:
    """assume(expr) -> replacement expr or None for loads; skipcalls: callees without effect"""

    def __init__(self, fn, entry, stops, assume=None, pure=(), name=None, maxblocks=4000, init=None, isfail=None, phis=None):
        self.fn, self.entry, self.stops = fn, entry, set(stops)
        self.assume = assume or (lambda e: None)
        self.name = name or (lambda e: e)
        self.pure = set(pure)
        self.init = init or {}
        self.phis = phis or {}
        self.vals = {}
        self.out = {}        # block -> mem at end
        self.edgec = {}      # block -> folded successor list [(cond, succ)]
        self.alle = {}
        self.events = {}     # block -> list of calls executed
        self.isfail = isfail or (lambda b: False)
        self._run()

    # ---- region
    def _run(self):
        fn = self.fn
        # order: process blocks in RPO of the function restricted to what is reachable under folded branches
        order = fn.rpo()
        pos = {b: i for i, b in enumerate(order)}
        self.live = {self.entry}
        self.inedges = {}
        self.done = []
        loops = fn.loops()
        import heapq
        hq = [(pos[self.entry], self.entry)]
        queued = {self.entry}
        self.loopheads = set()
        while hq:
            _, b = heapq.heappop(hq)
            mem = self._enter(b)
            self._block(b, mem)
            self.done.append(b)
            for c, s in self.edgec[b]:
                self.inedges.setdefault(s, [])
                if b not in [p for p, _ in self.inedges[s]]:
                    self.inedges[s].append((b, c))
                if s in self.stops:
                    continue
                if s in queued:
                    continue
                if pos.get(s, 0) <= pos[b] and s in [x for x in self.done]:
                    continue
                queued.add(s)
                heapq.heappush(hq, (pos[s], s))

    def _idom_local(self, b):
        """walk up function dominators until a processed block"""
        d = self.fn.dom()
        x = d[b]
        while x not in self.out and x != d[x]:
            x = d[x]
        return x

    def merge(self, b, getter):
        """value of getter(pred) at join b as gates over the branches since the nearest common dominator"""
        preds = [p for p, _ in self.inedges.get(b, []) if p in self.out]
        if not preds:
            return FAIL
        if len(preds) == 1:
            return getter(preds[0])
        vals = [getter(p) for p in preds]
        if all(v == vals[0] for v in vals):
            return vals[0]
        D = self._common_dom(preds)
        pv = dict(zip(preds, vals))
        memo = {}
        need = self._between(D, preds)

        def g(x):
            if x in memo:
                return memo[x]
            memo[x] = FAIL
            r = None
            for c, s in reversed(self.edgec[x]):
                v = pv[x] if s == b else (g(s) if s in need else FAIL)
                r = v if r is None else (gate(c, v, r) if c is not True else v)
            memo[x] = r
            return r
        return g(D)

    def _between(self, D, preds):
        need, st = set(), list(preds)
        while st:
            x = st.pop()
            if x in need:
                continue
            need.add(x)
            if x == D:
                continue
            st.extend(p for p, _ in self.inedges.get(x, []) if p in self.out)
        return need

    def _common_dom(self, preds):
        """nearest common dominator in the folded region graph"""
        def doms(p):
            # chain of region dominators via iterative walk
            return self._rdom(p)
        chains = [doms(p) for p in preds]
        for x in chains[0]:
            if all(x in c for c in chains[1:]):
                return x
        return self.entry

    def _rdom(self, p):
        if p in self._rd_cache():
            return self._rd[p]
        if p == self.entry:
            r = [p]
        else:
            ps = [q for q, _ in self.inedges.get(p, []) if q in self.out and self.done_index(q) < self.done_index(p)]
            if not ps:
                r = [p]
            else:
                ch = [self._rdom(q) for q in ps]
                common = [x for x in ch[0] if all(x in c for c in ch[1:])]
                r = [p] + common
        self._rd[p] = r
        return r

    def _rd_cache(self):
        if not hasattr(self, '_rd'):
            self._rd = {}
            self._di = {}
        return self._rd

    def done_index(self, b):
        self._rd_cache()
        if b not in self._di:
            self._di[b] = self.done.index(b) if b in self.done else 10**9
        return self._di[b]

    def _enter(self, b):
        if b == self.entry:
            return dict(self.init)
        preds = [p for p, _ in self.inedges.get(b, []) if p in self.out]
        keys = set()
        for p in preds:
            keys |= set(self.out[p])
        mem = {}
        for k in keys:
            v = self.merge(b, lambda p: self.out[p][k] if k in self.out[p] else self.inval(k))
            mem[k] = v
        if b in self.fn.loops():
            # inner loop: everything stored in it becomes unknown at its head
            for x in self.fn.loops()[b]:
                for i in self.fn.blocks[x]:
                    if i.op == 'store':
                        pth = self.path(i.ops[1])
                        for k in list(mem):
                            if self._base(k) == self._base(pth):
                                mem[k] = ('loop', b, k)
                        mem[pth] = ('loop', b, pth)
        return mem

    def inval(self, k):
        a = self.assume(('ld', k))
        return a if a is not None else self.name(('ld', k))

    def _base(self, k):
        while isinstance(k, tuple) and k and k[0] in ('x', 'f'):
            if k[0] == 'f':
                return k
            k = k[1]
        return k

    # ---- values
    def val(self, v):
        if not isinstance(v, list):
            return v
        k = v[0]
        if k == 'i':
            if v[1] in self.vals:
                return self.vals[v[1]]
            e = self._outside(v[1])
            self.vals[v[1]] = e
            return e
        if k == 'a':
            return self.name(('arg', v[1]))
        if k == 'd':
            return ('d', v[1])
        if k == 'null':
            return 0
        if k in ('g', 'gep'):
            return ('addr', self.path(v))
        if k == 's':
            return ('s', v[1])
        return tuple(map(str, v))

    def _outside(self, i):
        """value defined before the region"""
        d = self.fn.defs[i]
        if d.op == 'phi':
            if i in self.phis:
                return self.phis[i]
            return self.name(('phi', i, d.x.get('n', '')))
        if d.op in ('getelementptr', 'alloca'):
            return ('addr', self.path(['i', i]))
        return self._compute(d, {})

    def path(self, v):
        if isinstance(v, list):
            if v[0] == 'g':
                return ('g', v[1])
            if v[0] == 'gep':
                return self._gep(self.path(v[1]), v[2])
            if v[0] == 's':
                return ('str', v[1])
            if v[0] == 'i':
                d = self.fn.defs[v[1]]
                if d.op == 'getelementptr':
                    return self._gep(self.path(d.ops[0]), d.ops[1])
                if d.op == 'alloca':
                    return ('l', d.x.get('n') or '%%%d' % d.id)
                e = self.val(v)
                return e[1] if isinstance(e, tuple) and e and e[0] == 'addr' else ('p', e)
        e = self.val(v)
        return e[1] if isinstance(e, tuple) and e and e[0] == 'addr' else ('p', e)

    def _gep(self, base, steps):
        for st in steps:
            if st[0] == 'f':
                base = ('f', base, st[3])
            else:
                e = self.val(st[1])
                if base[0] == 'x' and st is steps[0] and base[3] == st[3]:
                    base = ('x', base[1], add(base[2], e), st[3])     # &a[i] + j
                else:
                    if st is steps[0] and e == 0:
                        continue
                    base = ('x', base, e, st[3])
        return base

    def _compute(self, d, mem):
        o = d.op
        if o == 'load':
            p = self.path(d.ops[0])
            if p in mem:
                return mem[p]
            a = self.assume(('ld', p))
            if a is not None:
                return a
            return self.name(('ld', p))
        if o in ('getelementptr', 'alloca'):
            return ('addr', self.path(['i', d.id]))
        if o in ('sext', 'zext'):
            e = self.val(d.ops[0])
            if isnum(e):
                if o == 'zext' and e < 0:
                    return e + (1 << BITS.get(d.x.get('st'), 32))
                return e
            if d.x.get('st') == 'i1':
                return e
            if o == 'zext' and d.x.get('st') in ('i8', 'i16'):
                return self._zext(e, d.x['st'])
            if o == 'sext' and d.x.get('st') in ('i8', 'i16') and not (isinstance(e, tuple) and e and e[0] == 'ld'):
                return ('sext', d.x['st'], e)
            return e
        if o == 'trunc':
            e = self.val(d.ops[0])
            if isnum(e):
                return wrap(e, d.ty)
            if d.ty == 'i32':
                return e
            if d.ty in ('i8', 'i16') and isinstance(e, tuple) and e and e[0] == 'ld':
                return ('trunc', d.ty, e)
            return ('trunc', d.ty, e) if d.ty != 'i1' else e
        if o in ('bitcast', 'freeze', 'ptrtoint', 'inttoptr'):
            return self.val(d.ops[0])
        if o == 'sitofp':
            e = self.val(d.ops[0])
            if isnum(e):
                return ('d', repr(float(e)) if e else '0')
            return ('fp', e)
        if o == 'fptosi':
            e = self.val(d.ops[0])
            if isflt(e):
                return int(fl(e))
            if isinstance(e, tuple) and e and e[0] == 'fp':
                return e[1]
            a = self.assume(('int', e))
            if a is not None:
                return a
            return ('int', e)
        if o in ('fpext', 'fptrunc', 'uitofp', 'fptoui'):
            return (o, self.val(d.ops[0]))
        if o == 'fneg':
            return self.fneg(self.val(d.ops[0]))
        if o == 'fsub' and isinstance(d.ops[0], list) and d.ops[0][0] == 'd' and fl(('d', d.ops[0][1])) == 0.0:
            return self.fneg(self.val(d.ops[1]))
        if o in ('icmp', 'fcmp'):
            a, b = self.val(d.ops[1]), self.val(d.ops[2])
            if isinstance(a, tuple) and a and a[0] == 'trunc':
                pass
            return cmp_(d.ops[0], a, b)
        if o == 'select':
            return gate(self.val(d.ops[0]), self.val(d.ops[1]), self.val(d.ops[2]))
        if o == 'call':
            return ('call', d.callee or '*', tuple(self.val(a) for a in d.args)) + (() if d.callee in self.pure else (d.id,))
        if o == 'phi':
            return self.name(('phi', d.id, d.x.get('n', '')))
        if len(d.ops) == 2:
            return binop(o, d.ty, self.val(d.ops[0]), self.val(d.ops[1]))
        return (o,) + tuple(self.val(a) for a in d.ops)

    def _zext(self, e, st):
        m = (1 << BITS[st]) - 1
        if isinstance(e, tuple) and e and e[0] == 'trunc':
            return binop('and', 'i32', e[2], m)
        if isinstance(e, tuple) and e and e[0] == 'ld':
            return e
        return binop('and', 'i32', e, m)

    def fneg(self, e):
        if isinstance(e, tuple) and e and e[0] == 'fneg':
            return e[1]
        if isflt(e):
            return ('d', '%.17g' % -fl(e))
        return ('fneg', e)

    def _block(self, b, mem):
        fn = self.fn
        ev = []
        inner = b in fn.loops() and b != self.entry
        for i in fn.blocks[b]:
            if i.op == 'phi':
                if b == self.entry:
                    self.vals[i.id] = self.phis.get(i.id, self.name(('phi', i.id, i.x.get('n', ''))))
                elif inner:
                    self.vals[i.id] = self.name(('phi', i.id, i.x.get('n', '')))
                else:
                    inc = {p: v for v, p in i.ops}
                    self.vals[i.id] = self.merge(b, lambda p: self.val(inc[p]))
            elif i.op == 'store':
                p = self.path(i.ops[1])
                v = self.val(i.ops[0])
                # may-alias: same array, index not at a known distance
                if p[0] == 'x':
                    for k in list(mem):
                        if k[0] == 'x' and k[1] == p[1] and k != p:
                            dlt = add(k[2], p[2], -1)
                            if not isnum(dlt) or dlt == 0:
                                mem[k] = ('clobbered', k)
                mem[p] = v
            elif i.op == 'call':
                self.vals[i.id] = self._compute(i, mem)
                ev.append(i)
                if i.callee not in self.pure:
                    for n, a in enumerate(i.args):
                        if isinstance(a, list) and a[0] in ('i', 'g', 'gep'):
                            e = self.val(a)
                            if isinstance(e, tuple) and e and e[0] == 'addr' and e[1][0] == 'l':
                                for k in list(mem):
                                    if self._base(k) == e[1]:
                                        mem[k] = ('outp', i.callee, n, k)
                                mem[e[1]] = ('outp', i.callee, n)
            elif i.op in ('br', 'switch', 'ret', 'unreachable'):
                pass
            else:
                self.vals[i.id] = self._compute(i, mem)
        t = fn.blocks[b][-1]
        e = []
        if t.op == 'br':
            if len(t.ops) == 1:
                e = [(True, t.ops[0])]
            else:
                c = self.val(t.ops[0])
                if isnum(c):
                    e = [(True, t.ops[1] if c else t.ops[2])]
                elif t.ops[1] == t.ops[2]:
                    e = [(True, t.ops[1])]
                else:
                    e = [(c, t.ops[1]), (True, t.ops[2])]
        elif t.op == 'switch':
            c = self.val(t.ops[0])
            if isnum(c):
                dst = t.ops[1]
                for v, s in t.ops[2:]:
                    if v == c:
                        dst = s
                e = [(True, dst)]
            else:
                by = {}
                for v, s in t.ops[2:]:
                    by.setdefault(s, []).append(v)
                for s, vs in by.items():
                    cc = cmp_('eq', c, vs[0])
                    for v in vs[1:]:
                        cc = ('or', cc, cmp_('eq', c, v))
                    e.append((cc, s))
                e.append((True, t.ops[1]))
        self.alle[b] = e
        e = [(c, s) for c, s in e if not self.isfail(s)]
        self.edgec[b] = e
        self.out[b] = mem
        self.events[b] = ev

    # ---- results
    def at(self, stop, getter):
        return self.merge(stop, getter)

    def failcond(self):
        """gate expression that is 1 where control leaves to a failing block, 0 where it reaches a stop"""
        memo = {}

        def g(x):
            if self.isfail(x):
                return 1
            if x in self.stops or x not in self.alle:
                return 0
            if x in memo:
                return memo[x]
            memo[x] = 0
            r = None
            for c, s in reversed(self.alle[x]):
                v = 0 if s in self.stops and s == self.entry else g(s)
                r = v if r is None else (gate(c, v, r) if c is not True else v)
            memo[x] = 0 if r is None else r
            return memo[x]
        memo0 = g(self.entry) if self.entry not in self.stops else None
        if memo0 is None:
            r = None
            for c, s in reversed(self.alle[self.entry]):
                v = g(s)
                r = v if r is None else (gate(c, v, r) if c is not True else v)
            return 0 if r is None else r
        return memo0


def show(e):
    if isinstance(e, tuple) and e:
        k = e[0]
        if k == 'g':
            return '(%s ? %s : %s)' % tuple(show(x) for x in e[1:4])
        if k == 'cmp':
            return '%s %s %s' % (show(e[2]), {'eq': '==', 'ne': '!=', 'slt': '<', 'sge': '>=', 'olt': '<', 'ogt': '>', 'oeq': '=='}.get(e[1], e[1]), show(e[3]))
        if k == 'lin':
            s = ' + '.join(('%s' % show(t) if c == 1 else '%d*%s' % (c, show(t))) for t, c in e[2])
            return '(%s%s)' % (s, ' %+d' % e[1] if e[1] else '')
        if k == 'd':
            return e[1]
        if k in ('fneg',):
            return '-' + show(e[1])
        if k == 'not':
            return '!(%s)' % show(e[1])
        if k == 'fp':
            return show(e[1])
        if k == 'int':
            return '(int)' + show(e[1])
        if k in ('and', 'or', 'xor', 'ashr', 'shl', 'lshr', 'fadd', 'fsub', 'fmul', 'fdiv', 'srem', 'sdiv', 'mul', 'urem', 'udiv') and len(e) == 3:
            o = {'and': '&', 'or': '|', 'xor': '^', 'ashr': '>>', 'shl': '<<', 'lshr': '>>>', 'fadd': '+', 'fsub': '-', 'fmul': '*', 'fdiv': '/', 'srem': '%', 'sdiv': '/', 'mul': '*'}.get(k, k)
            return '(%s %s %s)' % (show(e[1]), o, show(e[2]))
        if k == 'call':
            return '%s(%s)' % (e[1], ', '.join(show(x) for x in e[2]))
        if k == 'S':
            return e[1]
        if k == 'ld':
            return ir.show(('ld', e[1])) if True else ''
        if k in ('min', 'max'):
            return '%s(%s, %s)' % (k, show(e[1]), show(e[2]))
    return str(e)
