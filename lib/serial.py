"""Serialisation model: what a writer puts into a file, as a sequence of bytes of named values, and what a reader makes of such a sequence.

Both sides are abstractly interpreted (pathsum) with loops followed turn by turn over bounded shapes: linked lists with at most one element,
counted arrays with the pinned number of elements, strings with one character.  A byte of the file is an integer, or (value, k): byte k of a
value the writer named; the reader's loads from the file yield these, so that the fields it fills can be compared with the fields written."""
import ir, absint, pathsum
from absint import TOP, State, add, sym, parts, lin, ex
from pathsum import PathInterp, at, field, key_of, iv
from ir import AnalysisBroken

FAIL = 0


def bytev(v, j):
    if isinstance(v, int):
        return (v >> (8 * j)) & 255
    return ('e', 'byte', v, j)


def strip(v):
    """the value a byte of the file stands for: (value, byte number)"""
    k = 0
    while True:
        if isinstance(v, int):
            return (v >> (8 * k)) & 255, 0
        if isinstance(v, tuple) and v[0] == 'e':
            if v[1] == 'byte' and k == 0:
                return v[2], v[3]
            if v[1] == 'trunc' and 8 * (k + 1) <= int(v[2][1:]):
                v = v[3]
                continue
            if v[1] == 'and' and v[3] == 255 and k == 0:
                v = v[2]
                continue
            if v[1] in ('ashr', 'lshr') and isinstance(v[3], int) and v[3] % 8 == 0:
                k += v[3] // 8
                v = v[2]
                continue
        return v, k


class Ser(PathInterp):
    """loops are explored turn by turn"""
    pure = frozenset(['find_stack_calculation'])

    def loop(s, h, st, frm):
        return None

    # the first field of a record is at the address of the record itself
    def walk(s, b, steps, st):
        for x in steps:
            if not (x[0] == 'f' and x[2] == 0):
                b = super().walk(b, [x], st)
        return b

    def load(s, addr, st):
        if isinstance(addr, list) and addr[0] == 'i':
            d = s.fn.defs[addr[1]]
            steps = d.ops[1] if d.op == 'getelementptr' else None
        else:
            steps = addr[2] if isinstance(addr, list) and addr[0] == 'gep' else None
        if steps and steps[-1][0] == 'f' and (steps[-1][1].replace('struct.', ''), steps[-1][3]) in s.fixed:
            return s.fixed[(steps[-1][1].replace('struct.', ''), steps[-1][3])]
        return super().load(addr, st)

    # ---- byte-wise access to a variable (doubles are written and read byte by byte)
    def step(s, i, st):
        if i.op == 'load':
            p = s.pointer(i.ops[0], st)
            pp = parts(p) if p is not TOP else None
            if pp and i.ty == 'i8':
                ats = [(x, k) for x, k in pp[1] if isinstance(x, tuple) and x[0] == 'at']
                if len(pp[1]) == 1 and len(ats) == 1 and ats[0][1] == 1:
                    base = ats[0][0][1]
                    w = st.mem.get(('width', base))
                    if w in ('double', 'i32', 'i64') and base in st.mem and ('p', p) not in st.mem:
                        return ('e', 'byte', st.mem[base], pp[0])
            if i.ty == 'double' and pp and pp[0] == 0:
                k = key_of(p)
                bs = [st.mem.get(k if j == 0 else ('p', add(p, j))) for j in range(8)]
                if st.mem.get(('width', k)) == 'i8' and all(isinstance(b, tuple) and b[:2] == ('e', 'byte') and b[3] == j and b[2] == bs[0][2] for j, b in enumerate(bs)):
                    return bs[0][2]
        v = super().step(i, st)
        if i.op in ('ashr', 'lshr', 'sdiv') and isinstance(s.val(i.ops[1], st), int) and v is not TOP and not isinstance(v, int):
            lo, hi = iv(st.facts, s.val(i.ops[0], st), s.single)
            k = s.val(i.ops[1], st)
            if lo is not None and hi is not None and lo >= 0 and i.op != 'sdiv' and lo >> k == hi >> k:
                return lo >> k
        if i.ty == 'i64' and i.op in ('and', 'or'):
            b = s.bytes8(i.op, s.val(i.ops[0], st), s.val(i.ops[1], st))
            if b is not None:
                return b
        if i.op in ('add', 'sub', 'or', 'shl', 'mul') and v is not TOP:
            v = s.canon(v, i.ty, st)
        return v

    @staticmethod
    def bytes8(op, a, b):
        """bitwise insertion of bytes into a 64-bit value"""
        def split(v):
            if isinstance(v, int):
                return [(v >> (8 * k)) & 255 for k in range(8)]
            if isinstance(v, tuple) and v[:2] == ('e', 'bytes'):
                return list(v[2])
            if isinstance(v, tuple) and v[:2] == ('e', 'byte'):
                return [v] + [0] * 7
            p = parts(v)
            if p and p[0] == 0 and len(p[1]) == 1:
                (x, c), = p[1]
                for k in range(8):
                    if c == 256 ** k or (k == 7 and c == -256 ** 7):
                        if isinstance(x, tuple) and x[:2] == ('e', 'byte'):
                            return [0] * k + [x] + [0] * (7 - k)
                        if k == 0:
                            break
                        return [0] * k + [('e', 'byte', sym(x), 0)] + [0] * (7 - k)
            return [('e', 'byte', v, k) for k in range(8)]
        if a is TOP or b is TOP:
            return None
        x, y = split(a), split(b)
        out = []
        for u, w in zip(x, y):
            if op == 'and':
                if 0 in (u, w):
                    out.append(0)
                elif 255 in (u, w):
                    out.append(w if u == 255 else u)
                else:
                    return None
            elif u == 0 or w == 0:
                out.append(w if u == 0 else u)
            else:
                return None
        if all(isinstance(z, int) for z in out):
            return None
        if all(isinstance(z, tuple) and z[3] == k and z[2] == out[0][2] for k, z in enumerate(out)):
            return out[0][2]
        return ('e', 'bytes', tuple(out))

    def canon(s, v, ty, st):
        if isinstance(v, int):
            return absint.wrap(v, ty) if ty == 'i32' else v
        if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'or' and isinstance(v[3], int):
            lo, hi = iv(st.facts, v[2], s.single)
            low = v[3] & -v[3]
            if lo is not None and hi is not None and lo >= 0 and hi < low:
                return add(v[2], v[3])
        if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'or' and ty == 'i32':
            # bitwise or of values without common bits
            a, b = s.bits(v[2], st), s.bits(v[3], st)
            if a is not None and b is not None and not a & b:
                v = add(v[2], v[3])
        p = parts(v)
        if not p:
            return v
        c, terms = p
        by = {}
        for x, k in terms:
            if isinstance(x, tuple) and x[:2] == ('e', 'byte'):
                by.setdefault(x[2], {})[x[3]] = k
        for V, d in by.items():
            lo, hi = iv(st.facts, V, s.single)
            n = len(d)
            if d == {j: 256 ** j for j in range(n)} and (n == 4 or (lo is not None and hi is not None and 0 <= lo and hi < 256 ** n)):
                rest = lin(c, [(x, k) for x, k in terms if not (isinstance(x, tuple) and x[:2] == ('e', 'byte') and x[2] == V)])
                return add(rest, V)
        return v

    def bits(s, v, st):
        """the bits a non-negative value (or a value of 32 bits) may have"""
        if isinstance(v, int):
            return v & 0xffffffff
        if v is TOP:
            return None
        c, terms = parts(v) or (0, [(v, 1)])
        m = c & 0xffffffff
        for x, k in terms:
            if isinstance(x, tuple) and x[:2] == ('e', 'byte'):
                w = 255
            else:
                lo, hi = iv(st.facts, x if isinstance(x, tuple) and x[0] == 'e' else sym(x), s.single)
                if lo is None or hi is None or lo < 0:
                    return None
                w = (1 << hi.bit_length()) - 1
            if k <= 0 or k & (k - 1):
                return None
            w = (w * k) & 0xffffffff
            if m & w:
                return None
            m |= w
        return m

    def on_store(s, i, st):
        super().on_store(i, st)
        p = s.pointer(i.ops[1], st)
        if p is not TOP:
            k = key_of(p)
            if k[0] == 'l':
                st.mem[('width', k)] = i.x.get('vt')

    # ---- memory helpers
    def mem_at(s, p, st):
        return st.mem.get(key_of(p), sym(('m', key_of(p))))


def new(it, i, st, zero=True):
    """a fresh object; never NULL"""
    n = st.copy()
    c = n.mem.get(('allocs',), 0) + 1
    n.mem[('allocs',)] = c
    v = sym(('new', i.callee, c))
    n.facts[('ne', ('new', i.callee, c))] = frozenset([0])
    return [(v, n)]


def skip(it, i, st):
    return [(0, st)]


# ---------------------------------------------------------------- writer
class Unknown(Exception):
    pass


def w_fprintf(it, i, st):
    fmt = i.args[1]
    if not (isinstance(fmt, list) and fmt[0] == 's'):
        raise Unknown('%s: format of %s is not constant' % (i.loc(), i.callee))
    fmt = fmt[1]
    args = [it.val(a, st) for a in i.args[2:]]
    raw = list(i.args[2:])
    out, chars = [], []
    k = n = 0
    while k < len(fmt):
        if fmt[k] != '%':
            out.append(ord(fmt[k]))
            k += 1
            continue
        c = fmt[k + 1]
        k += 2
        if c == '%':
            out.append(37)
        elif c == 'c':
            v = args[n]
            n += 1
            out.append(byte_of(v))
        elif c == 's':
            v = args[n]
            n += 1
            out.append(('e', 'byte', sym(('chr', v)), 0))
            chars.append(('chr', v))
        else:
            raise Unknown('%s: conversion %%%s' % (i.loc(), c))
    m = st.copy()
    m.ev = m.ev + tuple(('b', x, i.line) for x in out)
    for c in chars:
        m.facts[('iv', c)] = (97, 122)
    return [(len(out), m)]


def byte_of(v):
    if v is TOP:
        return ('e', 'byte', TOP, 0)
    V, k = strip(v)
    if isinstance(V, int):
        return V & 255
    return ('e', 'byte', V, k)


def w_putc(it, i, st):
    m = st.copy()
    m.ev = m.ev + (('b', byte_of(it.val(i.args[0], st)), i.line),)
    return [(0, m)]


def w_fwrite(it, i, st):
    p = it.val(i.args[0], st)
    sz, n = it.val(i.args[1], st), it.val(i.args[2], st)
    for_ = []
    for x in (sz, n):
        lo, hi = iv(st.facts, x, it.single) if x is not TOP else (None, None)
        if lo is None or lo != hi:
            raise Unknown('%s: fwrite() of an unknown amount' % i.loc())
        for_.append(lo)
    m = st.copy()
    for k in range(for_[0] * for_[1]):
        q = add(p, k)
        m.ev = m.ev + (('b', ('e', 'byte', it.mem_at(q, st), 0) if not isinstance(it.mem_at(q, st), int) else it.mem_at(q, st), i.line),)
    return [(for_[1], m)]


def w_hashmap_get(it, i, st):
    """the same key gives the same element"""
    k = it.val(i.args[1], st)
    n = st.copy()
    c = it.cell(i.args[2])
    if c is None:
        p = it.pointer(i.args[2], st)
        c = key_of(p)
    n.mem[c] = ('e', 'call', 'hashmap_get', it.val(i.args[0], st), k)
    return [(sym(('call', 'hashmap_get', i.id)), n)]


WRITER = {'fprintf': w_fprintf, 'fputc': w_putc, 'putc': w_putc, 'fwrite': w_fwrite, 'hashmap_get': w_hashmap_get, 'print_text': skip, 'fclose': skip}


def write(m, name, mods, pins, fixed, handlers=None):
    """abstract results of a writer function: [state]; pins: initial memory and facts"""
    fn = m.fn(name)
    h = dict(WRITER)
    h['fopen'] = new
    h.update(handlers or {})
    it = Ser(fn, h, None, fixed)
    st = State({}, dict(pins.get('mem', {})), (), dict(pins.get('facts', {})))
    out = []
    for t, s in it.run(0, st):
        if isinstance(t, tuple) and t[1] == FAIL:
            continue
        out.append(s)
    return it, out


# ---------------------------------------------------------------- reader
T = sym('FILE')


class Reader(Ser):
    def __init__(s, fn, handlers, fixed, data):
        super().__init__(fn, handlers, None, fixed)
        s.data = data

    def position(s, p, st):
        """(file, offset) a pointer points to, or None"""
        pp = parts(p) if p is not TOP else None
        if not pp:
            return None
        f = [x for x, k in pp[1] if k == 1 and x in s.data]
        if len(f) != 1:
            return None
        c = pp[0]
        for x, k in pp[1]:
            if x == f[0]:
                continue
            lo, hi = iv(st.facts, sym(x) if not (isinstance(x, tuple) and x[0] == 'e') else x, s.single)
            if lo is None or lo != hi:
                return 'unknown'
            c += k * lo
        return f[0], c

    def step(s, i, st):
        if i.op == 'load' and i.ty == 'i8':
            q = s.position(s.pointer(i.ops[0], st), st)
            if q == 'unknown':
                raise Unknown('%s: the position in the file is unknown: %r' % (i.loc(), s.pointer(i.ops[0], st)))
            if q is not None:
                f, q = q
                if not 0 <= q < len(s.data[f]):
                    raise PastEnd(i, q, st)
                b = s.data[f][q]
                if isinstance(b, tuple) and b[3] == 0 and s.bytewise(b[2]):
                    return b[2]
                return b
        if i.op == 'trunc' and i.ty == 'i8':
            v = s.val(i.ops[0], st)
            if isinstance(v, tuple) and (v[:2] == ('e', 'byte') or s.bytewise(v)):
                return v
        v = super().step(i, st)
        return v

    @staticmethod
    def address(v):
        p = parts(v)
        return bool(p) and any(isinstance(x, tuple) and x[0] == 'at' and k == 1 for x, k in p[1])

    def byte_at(s, p, st):
        q = s.position(p, st)
        if isinstance(q, tuple):
            f, q = q
            if not 0 <= q < len(s.data[f]):
                raise Unknown('copy of bytes past the end of the file')
            return s.data[f][q]
        return s.mem_at(p, st)

    def bytewise(s, v):
        """written as one byte"""
        return v in s.single_bytes

    def cmp(s, p, a, b, st):
        # two positions in the file
        if a is not TOP and b is not TOP:
            x, y = s.position(a, st), s.position(b, st)
            for u, w in ((a, b), (b, a)):
                if w == 0 and s.address(u):
                    return int(p in ('ne', 'ugt'))
            if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0]:
                return int(absint.CMP[p](x[1], y[1]))
            if (isinstance(x, tuple) and b == 0) or (isinstance(y, tuple) and a == 0):
                return int(p in ('ne', 'ugt', 'ult'))
            if isinstance(a, tuple) and a[:2] == ('e', 'and') and a[3] == 255:
                a = strip(a)[0] if strip(a)[1] == 0 and s.bytewise(strip(a)[0]) else a
        return super().cmp(p, a, b, st)

    def single(s, v):
        return super().single(v)


class PastEnd(Exception):
    def __init__(s, i, q, st):
        s.i, s.q, s.st = i, q, st


def r_strcpy(it, i, st):
    d, c = it.pointer(i.args[0], st), it.pointer(i.args[1], st)
    n = st.copy()
    for k in range(2):
        n.mem[key_of(add(d, k))] = it.mem_at(add(c, k), st)
    return [(d, n)]


def r_hashmap_get(it, i, st):
    n = st.copy()
    n.ev = n.ev + (('key', it.mem_at(it.val(i.args[1], st), st)),)
    n.mem[key_of(it.pointer(i.args[2], st))] = sym(('call', 'hashmap_get', i.id))
    return [(0, n)]


def r_mem_insert(it, i, st):
    n = st.copy()
    n.ev = n.ev + (('ins', it.val(i.args[0], st), it.val(i.args[1], st)),)
    return [(1, n)]


def r_strncmp(it, i, st):
    p = it.position(it.val(i.args[0], st), st)
    a = i.args[1]
    if isinstance(p, tuple) and isinstance(a, list) and a[0] == 's':
        n = i.args[2]
        t = [ord(c) for c in a[1]][:n]
        d = it.data[p[0]][p[1]:p[1] + n]
        if all(isinstance(x, int) for x in d):
            return [(0 if d == t else 1, st)]
    return [(sym(('call', 'strncmp', i.id)), st)]


def ok(it, i, st):
    return [(1, st)]


READER = {'print_text': skip, 'calloc': new, 'malloc': new, 'free': skip, 'strcpy': r_strcpy, 'hashmap_get': r_hashmap_get, 'hashmap_new': new, 'hashmap_put': skip, 'snprintf_': skip,
          'mem_insert': r_mem_insert, 'strncmp': r_strncmp, 'add_label': ok, 'add_reference': ok, 'add_stack': ok, 'add_section': ok}


def read(m, chain, data, start, fixed, handlers=None):
    """data: file -> its bytes; run the reader functions of `chain` one after the other: final states"""
    h = dict(READER)
    h.update(handlers or {})
    sts = [start]
    singles = set()
    for d in data.values():
        V = lambda k: d[k] if 0 <= k < len(d) and isinstance(d[k], tuple) else (0, 0, None, None)
        singles |= {b[2] for k, b in enumerate(d) if isinstance(b, tuple) and b[3] == 0 and V(k + 1)[2:] != (b[2], 1) and V(k - 1)[2:] != (b[2], 1)}
    for name in chain:
        out = []
        fn = m.fn(name)
        it = Reader(fn, h, fixed, data)
        it.single_bytes = singles
        for st in sts:
            st = State({}, {k: v for k, v in st.mem.items() if k[0] not in ('l', 'width')}, st.ev, dict(st.facts))
            for t, s in it.run(0, st):
                if isinstance(t, tuple):
                    out.append((t[1], s))
        sts = []
        seen = set()
        for r, s in out:
            if r == FAIL:
                yield name, r, s
            elif s.key() not in seen:
                seen.add(s.key())
                sts.append(s)
    for s in sts:
        yield None, 1, s
