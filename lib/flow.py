"""Small dataflow helpers on the IR model."""
from ir import *


def reach_from(fn, bb, stop=()):
    """blocks reachable from the *end* of bb (bb itself only if on a cycle)"""
    seen, st = set(), list(fn.succ[bb])
    while st:
        b = st.pop()
        if b in seen or b in stop:
            continue
        seen.add(b)
        st.extend(fn.succ[b])
    return seen


def return_values(fn, start, seen_blocks=None):
    """values the function can return on paths that run through block `start`:
    ints, ('call', name), ('void',), ('noreturn',), ('?', expr)"""
    R = reach_from(fn, start) | {start}
    out = set()

    vis = set()

    def val(v, b, depth=0):
        if not isinstance(v, list):
            out.add(v)
            return
        if v[0] == 'null':
            out.add(0)
            return
        if v[0] == 'i':
            d = fn.defs[v[1]]
            if d.op == 'phi':
                if d.id in vis:
                    return
                vis.add(d.id)
                # where is the phi relative to start?  if its block is executed only before start, all inputs count
                for iv, p in d.ops:
                    if d.bb in R and d.bb != start:
                        if p in R:
                            val(iv, p, depth + 1)
                    else:
                        val(iv, p, depth + 1)
                return
            if d.op == 'call':
                out.add(('call', d.callee or '*', d.id))
                return
            if d.op in ('zext', 'sext', 'trunc'):
                return val(d.ops[0], b, depth + 1)
        out.add(('?', str(v)))
    for b in R:
        t = fn.blocks[b][-1]
        if t.op == 'ret':
            if not t.ops:
                out.add(('void',))
            else:
                val(t.ops[0], b)
        elif t.op == 'unreachable':
            out.add(('noreturn',))
    return out
