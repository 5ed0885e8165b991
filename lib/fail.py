"""Failure flow: which values a function returns after it has reported an error, and what its callers do with them.

`outcomes(fn, call, v)` is a conditional constant propagation that starts right behind `call` with its result known
to be v: the set of values the function can then return.  No path is enumerated; branches the constant decides are pruned."""
import ir
from gval import wrap

OVER = ('?',)


def _const(v, env):
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, list):
        if v[0] == 'null':
            return 0
        if v[0] == 'i':
            return env.get(v[1], OVER)
    return OVER


CMP = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b, 'slt': lambda a, b: a < b, 'sgt': lambda a, b: a > b, 'sle': lambda a, b: a <= b, 'sge': lambda a, b: a >= b}
U = (1 << 64) - 1
CMP.update({'ult': lambda a, b: (a & U) < (b & U), 'ugt': lambda a, b: (a & U) > (b & U), 'ule': lambda a, b: (a & U) <= (b & U), 'uge': lambda a, b: (a & U) >= (b & U)})
BIN = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b, 'mul': lambda a, b: a * b}


ASSUME = {}     # global -> value: the configuration the obligation is stated for


def _eval(i, env):
    o = i.op
    if o == 'load' and isinstance(i.ops[0], list) and i.ops[0][0] == 'g' and i.ops[0][1] in ASSUME:
        return ASSUME[i.ops[0][1]]
    if o == 'icmp':
        a, b = _const(i.ops[1], env), _const(i.ops[2], env)
        if a is OVER or b is OVER:
            return OVER
        return int(CMP[i.ops[0]](a, b))
    if o in ('zext', 'sext', 'trunc', 'freeze', 'bitcast', 'inttoptr', 'ptrtoint'):
        a = _const(i.ops[0], env)
        if a is OVER:
            return OVER
        if o == 'zext' and a < 0:
            return OVER
        return wrap(a, i.ty) if o == 'trunc' else a
    if o in BIN:
        a, b = _const(i.ops[0], env), _const(i.ops[1], env)
        if a is OVER or b is OVER:
            if o == 'and' and (a == 0 or b == 0):
                return 0
            return OVER
        return wrap(BIN[o](a, b), i.ty)
    if o == 'select':
        c = _const(i.ops[0], env)
        if c is OVER:
            a, b = _const(i.ops[1], env), _const(i.ops[2], env)
            return a if a == b else OVER
        return _const(i.ops[1] if c else i.ops[2], env)
    return OVER


def outcomes(fn, at, val=None, noreturn=(), consume=None):
    """values returned on continuations behind instruction `at` (whose result is val, or unknown).
    elements: int, ('ret', id) for an unknown SSA value, ('void',), ('exit', code), ('again',) when `at` is reached again.
    consume(instr, env): an effect that ends the continuation (e.g. records the failure elsewhere) -> outcome or None"""
    env = {}
    for t, truth, c in ir.guards(fn, at.bb):
        # facts every path to `at` has established: x == const
        if t.op == 'br' and isinstance(c, list) and c[0] == 'i':
            d = fn.defs[c[1]]
            if d.op == 'icmp' and isinstance(d.ops[1], list) and d.ops[1][0] == 'i' and d.ops[1][1] != at.id:
                k = _const(d.ops[2], {})
                if k is not OVER and ((d.ops[0] == 'eq') if truth else (d.ops[0] == 'ne')):
                    env[d.ops[1][1]] = k
        elif t.op == 'switch' and truth[0] == 'in' and len(truth[1]) == 1 and isinstance(c, list) and c[0] == 'i' and c[1] != at.id:
            env[c[1]] = truth[1][0]
    R0 = set()
    st = list(fn.succ[at.bb])
    while st:
        b = st.pop()
        if b not in R0:
            R0.add(b)
            st.extend(fn.succ[b])
    if env:
        # a fact about a value computed again on the continuation does not survive
        for k in [k for k in env if fn.defs[k].bb in R0]:
            del env[k]
    if val is not None:
        env[at.id] = val
    out = set()
    start = at.bb
    edges = set()
    seen_blocks = set()
    tick = [0]
    sym = fn_sym(fn)
    facts = {}
    for t, truth, c in ir.guards(fn, at.bb):
        if t.op == 'br' and isinstance(c, list) and c[0] == 'i':
            d = fn.defs[c[1]]
            if d.op == 'icmp':
                facts[(d.ops[0], str(d.ops[1:]))] = int(truth)
    cut = set()      # blocks whose end is not reached

    def setv(i, v):
        """monotone lattice update; True when changed"""
        if i.id in env:
            if env[i.id] == v or env[i.id] is OVER:
                return False
            env[i.id] = OVER
            tick[0] += 1
            return True
        env[i.id] = v
        tick[0] += 1
        return True

    def run(b, idx):
        ch = False
        mem = {}
        for i in fn.blocks[b][idx:]:
            if i.op == 'phi':
                v = None
                for x, p in i.ops:
                    if (p, b) in edges:
                        if isinstance(x, list) and x[0] == 'i' and x[1] not in env and fn.defs[x[1]].bb in seen_blocks and not_before(x[1]):
                            continue
                        c = _const(x, env)
                        v = c if v is None else (v if v == c else OVER)
                if v is None:
                    v = OVER
                ch |= setv(i, v)
            elif i.op == 'store':
                k = ir.noid(sym.path(i.ops[1]))
                for o in [o for o in mem if o != k and not _distinct(o, k)]:
                    del mem[o]
                mem[k] = _const(i.ops[0], env)
            elif i.op == 'load' and ir.noid(sym.path(i.ops[0])) in mem:
                ch |= setv(i, mem[ir.noid(sym.path(i.ops[0]))])
            elif i.op == 'icmp' and _eval(i, env) is OVER and (i.ops[0], str(i.ops[1:])) in facts and _stable(fn, i, R0):
                ch |= setv(i, facts[(i.ops[0], str(i.ops[1:]))])
            elif i.op in ('br', 'switch', 'ret', 'unreachable'):
                pass
            elif i is at:
                pass
            elif i.op == 'call':
                mem.clear()
                if consume is not None:
                    r = consume(i, env)
                    if r is not None:
                        out.add(r)
                        cut.add(b)
                        return None
                if i.callee == 'exit':
                    a = _const(i.args[0], env)
                    out.add(('exit', a if a is not OVER else '?'))
                    cut.add(b)
                    return None
                if i.callee in noreturn or i.callee in ('abort', '_exit'):
                    out.add(('exit', 1))
                    cut.add(b)
                    return None
                ch |= setv(i, OVER)
            else:
                ch |= setv(i, _eval(i, env))
        t = fn.blocks[b][-1]
        if t.op == 'br':
            if len(t.ops) == 1:
                return [t.ops[0]]
            c = _const(t.ops[0], env)
            return [t.ops[1], t.ops[2]] if c is OVER else [t.ops[1] if c else t.ops[2]]
        if t.op == 'switch':
            c = _const(t.ops[0], env)
            if c is OVER:
                return fn.succ[b]
            for v, d in t.ops[2:]:
                if v == c:
                    return [d]
            return [t.ops[1]]
        if t.op == 'ret':
            if not t.ops:
                out.add(('void',))
            return []
        if t.op == 'unreachable':
            out.add(('exit', 1))
        return []

    def not_before(i):
        return fn.defs[i].bb != start
    idx0 = fn.blocks[start].index(at) + 1
    succ = run(start, idx0)
    again = False
    pend = []
    for x in succ or []:
        edges.add((start, x))
        pend.append(x)
    pos = fn_pos(fn)
    while True:
        n0 = (len(edges), tick[0], len(seen_blocks))
        todo = sorted({b for _, b in edges}, key=lambda b: pos.get(b, 0))
        for b in todo:
            if b == start:
                again = True
                continue
            seen_blocks.add(b)
            for x in run(b, 0) or []:
                edges.add((b, x))
        if (len(edges), tick[0], len(seen_blocks)) == n0:
            break
    rets = {b for b in seen_blocks | {start} if fn.blocks[b][-1].op == 'ret' and fn.blocks[b][-1].ops and (b != start or succ == [])}
    rets = {b for b in rets if b not in cut}
    # final pass over the fixpoint for the return values
    for b in rets:
        t = fn.blocks[b][-1]
        c = _const(t.ops[0], env)
        if c is not OVER:
            out.add(c)
        else:
            out |= _phivals(fn, t.ops[0], env, edges, seen_blocks)
    if again:
        out.add(('again',))
    return out


def _phivals(fn, v, env, edges, seen, depth=0, vis=None):
    """constants an unknown return value can be: phi inputs over executable edges"""
    vis = set() if vis is None else vis
    c = _const(v, env)
    if c is not OVER:
        return {c}
    if isinstance(v, list) and v[0] == 'i':
        if v[1] in vis:
            return set()
        vis.add(v[1])
        d = fn.defs[v[1]]
        if d.op == 'phi' and d.bb in seen:
            out = set()
            for x, p in d.ops:
                if (p, d.bb) in edges:
                    out |= _phivals(fn, x, env, edges, seen, depth + 1, vis)
            return out
        if d.op in ('zext', 'sext', 'trunc'):
            return _phivals(fn, d.ops[0], env, edges, seen, depth + 1, vis)
        return {('ret', v[1])}
    return {('?',)}


def fn_sym(fn):
    if not hasattr(fn, '_sym'):
        fn._sym = ir.Sym(fn)
    return fn._sym


def _distinct(a, b):
    """two access paths that cannot overlap"""
    if a[0] == 'g' and b[0] == 'g':
        return a != b
    if a[0] == 'f' and b[0] == 'f':
        return a[2] != b[2]
    return {a[0], b[0]} == {'g', 'f'} and False


def _stable(fn, i, R):
    """the operands of comparison i are not recomputed behind the continuation's start"""
    for v in i.ops[1:]:
        if isinstance(v, list) and v[0] == 'i' and fn.defs[v[1]].bb in R:
            return False
        if isinstance(v, list) and v[0] not in ('i', 'a', 'null'):
            return False
    return True


def fn_pos(fn):
    if not hasattr(fn, '_pos'):
        fn._pos = {b: i for i, b in enumerate(fn.rpo())}
    return fn._pos
