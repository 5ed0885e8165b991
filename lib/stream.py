"""The assembler's internal data stream: what is written into it (record templates) and how each pass reads it.

A record template is the sequence of characters and conversions of a format string, e.g. "d%d c%d " -> records 'd' {%d} and 'c' {%d}.
A pass is interpreted abstractly (absint) on each template from behind the fread() of the record letter to the next loop turn."""
import re
import ir, absint, consts
from absint import TOP, sym, add, State
from ir import AnalysisBroken

STREAM = 'g_file_out_ptr'


def is_stream(fn, v):
    if isinstance(v, list) and v[0] == 'i':
        d = fn.defs[v[1]]
        return d.op == 'load' and d.ops[0] == ['g', STREAM]
    return False


def strs(fn, v):
    """possible string constants of a char pointer value"""
    if isinstance(v, list):
        if v[0] == 's':
            return [v[1]]
        if v[0] == 'gep' or v[0] == 'g':
            g = v[1] if v[0] == 'g' else (v[1][1] if isinstance(v[1], list) and v[1][0] == 'g' else None)
            return None
        if v[0] == 'i':
            d = fn.defs[v[1]]
            if d.op == 'select':
                a, b = strs(fn, d.ops[1]), strs(fn, d.ops[2])
                return a + b if a and b else None
            if d.op == 'phi':
                o = []
                for x, _ in d.ops:
                    r = strs(fn, x)
                    if r is None:
                        return None
                    o += r
                return o
    return None


def base(f, v):
    if not hasattr(f, '_sym'):
        f._sym = ir.Sym(f)
    p = ir.noid(f._sym.path(v))
    if p[0] == 'p' and isinstance(p[1], tuple) and p[1][0] == 'addr':
        p = p[1][1]
    while p[0] == 'x' and p[2] == 0:
        p = p[1]
    return p


# ---- templates: tuples of ('c', char) and ('v', conv, n)
def template(fmt, args=None, n0=0):
    out, k, n = [], 0, n0
    while k < len(fmt):
        ch = fmt[k]
        if ch == '%':
            mm = re.match(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l)?([a-zA-Z%])', fmt[k:])
            if not mm:
                raise AnalysisBroken('format %r' % fmt)
            if mm.group(1) == '%':
                out.append(('c', '%'))
            else:
                a = args[n - n0] if args is not None and n - n0 < len(args) else None
                if isinstance(a, bool):
                    a = int(a)
                if mm.group(1) in 'di' and isinstance(a, int):
                    out += [('c', x) for x in str(a)]
                elif mm.group(1) == 'c' and isinstance(a, int):
                    out.append(('c', chr(a)))
                elif mm.group(1) == 's' and isinstance(a, list) and a[0] == 's':
                    out += [('c', x) for x in a[1]]
                else:
                    out.append(('v', 'd' if mm.group(1) in 'di' else mm.group(1), n))
                n += 1
            k += len(mm.group(0))
        else:
            out.append(('c', ch))
            k += 1
    return tuple(out)


def words(t):
    w, cur = [], []
    for x in t:
        if x == ('c', ' '):
            w.append(tuple(cur))
            cur = []
        else:
            cur.append(x)
    if cur:
        w.append(tuple(cur) + (None,))
    return w


def text(t):
    return ''.join(x[1] if x[0] == 'c' else '%' + x[1] for x in t)


def split(t):
    """template -> list of record templates (letter first).  A word opens a record unless it is a number, a value, or a literal
    string of more than one character that carries no value"""
    recs = []
    for w in words(t):
        if w and w[-1] is None:
            w = w[:-1]
        lit = text(w)
        if not w:
            if recs and recs[-1] == (('c', ' '),):
                continue
            recs.append((('c', ' '),)) if not recs else recs.__setitem__(-1, recs[-1] + (('c', ' '),))
            continue
        operand = w[0][0] == 'v' or re.fullmatch(r'-?\d+', lit) or (len(w) > 1 and all(x[0] == 'c' for x in w) and not re.fullmatch(r'.-?\d+', lit))
        if operand and recs:
            recs[-1] = recs[-1] + w + (('c', ' '),)
        else:
            recs.append(w + (('c', ' '),))
    return recs


def chosen(m, f, fmt, va):
    """the arguments, with the letters the program chooses for %c put in"""
    out, k = [list(va)], 0
    for x in re.findall(r'%[-+ #0]*\d*(?:\.\d+)?(?:hh|h|ll|l)?([a-zA-Z%])', fmt):
        if x == '%':
            continue
        if x == 'c' and k < len(va) and not isinstance(va[k], int):
            cs = {c for c in consts.letters(m, f, va[k]) or () if 32 < c < 127}
            if cs:
                out = [o[:k] + [c] + o[k + 1:] for o in out for c in sorted(cs)]
        k += 1
    return out


def writers(m):
    """-> [(record template, function, instr)], notes on what could not be resolved"""
    out, unresolved = [], []
    wrap = {}
    for f in m.functions():
        for i in f.calls('vfprintf'):
            if is_stream(f, i.args[0]) and isinstance(i.args[1], list) and i.args[1][0] == 'a':
                wrap[f.name] = i.args[1][1]
    prep = {}
    direct = []
    for f in m.functions():
        evs = {}
        bufs = {}
        for i in f.calls():
            if i.callee == 'fprintf' and is_stream(f, i.args[0]):
                fm, va = i.args[1], i.args[2:]
            elif i.callee in wrap:
                fm, va = i.args[wrap[i.callee]], i.args[wrap[i.callee] + 1:]
            elif i.callee in ('fputs', 'fputc', 'putc') and is_stream(f, i.args[1]):
                fm, va = (i.args[0], []) if i.callee == 'fputs' else (['s', chr(i.args[0])] if isinstance(i.args[0], int) else None, [])
            elif i.callee == 'fwrite' and is_stream(f, i.args[3]):
                fm, va = i.args[0], []
            elif i.callee in ('snprintf', 'sprintf', 'snprintf_', 'sprintf_'):
                bufs.setdefault(base(f, i.args[0]), []).append(i)
                continue
            else:
                continue
            ss = strs(f, fm) if fm is not None else None
            if not ss:
                unresolved.append((f, i))
                continue
            evs[i.id] = (i, ss, va)
        for i, ss, va in evs.values():
            for fmt, va in [(x, y) for x in ss for y in chosen(m, f, x, va)]:
                t = template(fmt, va)
                # "%s" words holding records that were formatted before
                rs = []
                lead = re.match(r'(?:%s)+', fmt)
                if lead:
                    n = lead.group(0).count('%s')
                    for a in va[:n]:
                        for q in bufs.get(base(f, a), []):
                            qa = q.args[3:] if q.callee.startswith('snprintf') else q.args[2:]
                            qf = strs(f, q.args[2] if q.callee.startswith('snprintf') else q.args[1])
                            for x in qf or []:
                                for r in split(template(x, qa)):
                                    out.append((r, f, q))
                                prep.setdefault((f.name, i.id, base(f, a)), []).append(tuple(split(template(x, qa))))
                        if base(f, a) not in bufs:
                            unresolved.append((f, i))
                    k = 0
                    while n:
                        if t[k] == ('v', 's', t[k][2] if t[k][0] == 'v' else None):
                            n -= 1
                        k += 1
                    t = t[k:]
                rs = split(t)
                direct.append((i, f, rs, evs))
    # '+' opens a record of two writes
    for i, f, rs, evs in direct:
        for k, r in enumerate(rs):
            if r[0] == ('c', '+') and k == len(rs) - 1 and any(x[0] == 'v' for x in r):
                for j in first_after(f, i, set(evs)):
                    for fmt in evs[j][1]:
                        s2 = split(template(fmt, evs[j][2], 10))
                        if s2:
                            out.append((r + s2[0], f, i))
            elif k == 0 and opened_by_plus(f, i, evs):
                continue
            else:
                out.append((r, f, i))
    return out, unresolved, prep


def first_after(f, i, ids):
    """ids of the first calls among ids reached after i"""
    out, seen = set(), set()
    blk = f.blocks[i.bb]
    st = [(i.bb, blk.index(i) + 1)]
    while st:
        b, k = st.pop()
        for x in f.blocks[b][k:]:
            if x.id in ids and x.op == 'call':
                out.add(x.id)
                break
        else:
            for t in f.succ[b]:
                if t not in seen:
                    seen.add(t)
                    st.append((t, 0))
    return out


def opened_by_plus(f, i, evs):
    """the write that precedes i on every path is an open '+' record"""
    prev, seen = set(), set()
    st = [(i.bb, f.blocks[i.bb].index(i))]
    while st:
        b, k = st.pop()
        for x in reversed(f.blocks[b][:k]):
            if x.op == 'call' and x.id in evs:
                prev.add(x.id)
                break
        else:
            if not f.pred[b]:
                return False
            for t in f.pred[b]:
                if t not in seen:
                    seen.add(t)
                    st.append((t, len(f.blocks[t])))
    if not prev:
        return False
    for j in prev:
        for fmt in evs[j][1]:
            rs = split(template(fmt, evs[j][2]))
            if not rs or rs[-1][0] != ('c', '+') or not any(x[0] == 'v' for x in rs[-1]):
                return False
    return True


# ---- scanf on a template
class Mismatch(Exception):
    pass


def scan(fmt, t, pos):
    """fscanf on template t from pos: ([value or None per assignment], new pos)"""
    vals, k = [], 0

    def skip(p):
        while p < len(t) and t[p] == ('c', ' '):
            p += 1
        return p
    while k < len(fmt):
        ch = fmt[k]
        if ch.isspace():
            pos = skip(pos)
            k += 1
            continue
        if ch != '%':
            if pos < len(t) and t[pos] == ('c', ch):
                pos += 1
                k += 1
                continue
            raise Mismatch('expects the character %r' % ch)
        mm = re.match(r'%(\*?)(\d*)(?:hh|h|ll|l)?([a-zA-Z])', fmt[k:])
        if not mm:
            raise AnalysisBroken('scanf format %r' % fmt)
        k += len(mm.group(0))
        star, conv = mm.group(1), mm.group(3)
        if conv == 'c':
            if pos >= len(t):
                raise Mismatch('reads a character behind the record')
            v = ord(t[pos][1]) if t[pos][0] == 'c' else TOP
            pos += 1
        else:
            pos = skip(pos)
            w = []
            while pos < len(t) and t[pos] != ('c', ' '):
                w.append(t[pos])
                pos += 1
            if not w:
                raise Mismatch('reads a value behind the end of the record')
            if conv in 'di':
                if len(w) == 1 and w[0][0] == 'v':
                    if w[0][1] != 'd':
                        raise Mismatch('reads a string as a number')
                    v = sym(('tok', w[0][2]))
                else:
                    s = text(w)
                    if not re.fullmatch(r'-?\d+', s):
                        raise Mismatch('reads %r as a number' % s)
                    v = int(s)
            elif conv == 's':
                v = ('str', tuple(w))
            else:
                raise AnalysisBroken('scanf conversion %r' % conv)
        if not star:
            vals.append(v)
    return vals, pos


POS = ('pos',)
BAD = ('badread',)
NOEFFECT = {'print_text', 'print_error', 'get_file_name', 'strcpy', 'strcmp', 'strlen', 'snprintf', 'snprintf_', 'sprintf_', 'is_label_anonymous', 'free', 'calloc', 'malloc', 'memset', 'memcpy', 'hashmap_get', 'hashmap_put'}


class Reader:
    def __init__(s, m, name, mods):
        s.m, s.fn, s.mods = m, m.fn(name), mods
        s.summ = {}
        s.loops = []
        fn = s.fn
        for i in fn.calls('fread'):
            if not is_stream(fn, i.args[3]):
                continue
            hs = [h for h, b in fn.loops().items() if i.bb in b]
            if not hs:
                continue
            h = min(hs, key=lambda h: len(fn.loops()[h]))
            s.loops.append((i, h))
        s.loops.sort(key=lambda t: t[0].line)

    def on_call(s, it, i, st):
        fn = it.fn
        c = i.callee
        if c and c.startswith('__isoc'):
            c = c.split('_', 3)[-1]
        if c == 'fscanf' and is_stream(fn, i.args[0]):
            ff = strs(fn, i.args[1])
            if not ff or len(ff) != 1:
                raise AnalysisBroken('%s: scanf format not resolved' % i.loc())
            try:
                vals, pos = scan(ff[0], s.t, st.mem[POS])
            except Mismatch as e:
                # the real fscanf stops here: values unknown, may or may not return enough of them
                st.mem[BAD] = ('bad', i.id, str(e))
                for d in i.args[2:]:
                    k = it.cell(d)
                    if k is not None:
                        st.mem[k] = TOP
                return [(TOP, st)]
            st.mem[POS] = pos
            dst = i.args[2:]
            if len(dst) != len(vals):
                st.mem[BAD] = ('bad', i.id, 'fscanf stores %d values through %d pointers' % (len(vals), len(dst)))
                return [(TOP, st)]
            for d, v in zip(dst, vals):
                k = it.cell(d)
                if k is not None:
                    st.mem[k] = TOP if isinstance(v, tuple) and v[0] == 'str' else v
            return [(len(vals), st)]
        if c == 'fread' and is_stream(fn, i.args[3]):
            st.mem[BAD] = ('bad', i.id, 'reads on inside a record')
            return [(TOP, st)]
        if c in s.summaries:
            outs = s.summaries[c]
            r = []
            for ret, deltas in outs:
                n = st.copy()
                for g, d in deltas.items():
                    n.mem[g] = add(n.mem.get(g, sym(('m', g))), d) if d is not TOP else TOP
                if c in s.emit:
                    v = it.val(i.args[0], st) if i.args else ('pad',)
                    n.ev = n.ev + (('out', v if i.args else ('pad',)),)
                r.append((ret, n))
            return r
        if c in NOEFFECT:
            for a in i.args:
                k = it.cell(a) if isinstance(a, list) and a[0] in ('i', 'g', 'gep') else None
                if k is not None:
                    st.mem[k] = TOP
            return [(TOP, st)]
        return None

    summaries = {}
    emit = set()

    def prepare(s, it):
        """hook: adjust the interpreter of a run"""

    def run(s, which, t, facts=None, init=None, unroll=False):
        """interpret the record template t in loop `which`: (states at the next turn of the loop, states that return)"""
        fr, h = s.loops[which]
        s.t = t
        it = absint.Interp(s.fn, s.on_call, s.mods)
        if not unroll:
            s.prepare(it)
        else:
            it.track = lambda y: False
        mem = {POS: 1, BAD: 0}
        k = it.cell(fr.args[0])
        mem[k] = ord(t[0][1])
        regs = {i.id: sym(('phi', i.id)) for i in s.fn.blocks[h] if i.op == 'phi'}
        regs[fr.id] = 1
        it.unroll = unroll
        for k, v in (init or {}).items():
            if k[0] == 'phi':
                regs[k[1]] = v
            else:
                mem[k] = v
        st = State(regs, mem, (), dict(facts or {}))
        idx = s.fn.blocks[fr.bb].index(fr) + 1
        res = it.run(fr.bb, st, idx, until={h} | ({fr.bb} if fr.bb != h else set()), region=None)
        s.nst = it.nstates
        return [n for tt, n in res if not isinstance(tt, tuple)], [n for tt, n in res if isinstance(tt, tuple)]

    def header_phis(s, which):
        return [i for i in s.fn.blocks[s.loops[which][1]] if i.op == 'phi']
