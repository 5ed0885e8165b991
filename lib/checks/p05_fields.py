"""P05: the linker writes every resolved reference and calculation into the field its type asks for: right place, width, byte order and value, and
rejects what does not fit."""
import os, re
import ir, absint, pathsum
from absint import TOP, State, add, sym, parts
from common import Check
from ir import AnalysisBroken
from pathsum import PathInterp, at, field, iv
from checks.p04_stream import byte

RANGE = {'8': (-128, 255), '9S': (0, 510), '13': (0, 8191), '16': (-32768, 65535), '24': (-8388608, 16777215)}
WIDTH = {'8': 1, '9S': 1, '13': 2, '16': 2, '24': 3, '32': 4, 'R8': 1, 'R16': 2, 'BITS': None}
RRANGE = {'R8': (-128, 127), 'R16': (-32768, 32767)}
NAMES = {'8': '8BIT', '9S': '9BIT_SHORT', '13': '13BIT', '16': '16BIT', '24': '24BIT', '32': '32BIT', 'BITS': 'BITS'}
WRITES = {'mem_insert_ref': 'w', 'mem_insert_ref_13bit_high': 'h', 'mem_insert_bits': 'bits'}


def constants():
    out = {}
    for f in ('shared.h', 'wlalink/defines.h', 'defines.h'):
        p = os.path.join(ir.REPO, f)
        if os.path.exists(p):
            for l in open(p, errors='replace'):
                m = re.match(r'\s*#define\s+(\w+)\s+\(?(-?\d+|0x[0-9a-fA-F]+)\)?\s*(?:/\*.*)?$', l)
                if m:
                    out.setdefault(m.group(1), int(m.group(2), 0))
    return out


def ld(base, struct, name):
    return sym(('m', field(base, struct, name)))


class P(PathInterp):
    pure = frozenset(['get_file', 'get_snes_pc_bank'])


def interp(m, fn, fixed, mods):
    def write(it, i, st):
        k = WRITES[i.callee]
        args = tuple(it.val(a, st) for a in i.args)
        n = st.copy()
        n.ev = n.ev + ((k,) + args + (i.id,),)
        return [(1, n)]
    h = {n: write for n in WRITES}
    for n in ('print_text', 'get_file_name', 'get_source_file_name', 'snprintf'):
        h[n] = lambda it, i, st: [(TOP, st)]
    # the target of an RST: decided by the rule 'rst'
    return P(fn, h, mods, fixed, stores8=True)


def special(facts, obj, struct, it):
    lo, hi = iv(facts, ld(obj, struct, 'special_id'), it.single)
    ne = facts.get(('ne', ('m', field(obj, struct, 'special_id'))), frozenset())
    return lo, hi, ne


def little(facts, obj, struct):
    """True/False/None: what the path knows about the byte order of the file of the object"""
    f = sym(('m', field(('e', 'call', 'get_file', ld(obj, struct, 'file_id')), 'object_file', 'little_endian')))
    y = list(f[2])[0][0]
    lo, hi = facts.get(('iv', y), (None, None))
    ne = facts.get(('ne', y), frozenset())
    if lo is not None and lo == hi:
        return lo == 1
    if 1 in ne:
        return False
    if 0 in ne:
        return True
    return None


def show(v):
    if isinstance(v, int) or v is TOP:
        return str(v)
    if v[0] == 'L':
        return ' + '.join(sorted(('' if k == 1 else '%d*' % k) + nm(x) for x, k in v[2])) + (' + %d' % v[1] if v[1] else '')
    if v[0] == 'e':
        return '%s(%s)' % (v[1], ', '.join(show(x) if not isinstance(x, str) else x for x in v[2:]))
    return nm(v)


def nm(x):
    if isinstance(x, tuple):
        if x[0] == 'm':
            return key(x[1])
        if x[0] == 'at':
            return '&' + key(x[1])
        if x[0] == 'e':
            return show(x)
        if x[0] in ('o', 'call', 'u', 'phi', 'arg'):
            return '%s%s' % (x[0], '.'.join(str(y) for y in x[1:]))
    return str(x)


def key(k):
    if k[0] == 'g':
        return k[1]
    if k[0] == 'f':
        return '%s.%s' % (show(k[1]), k[3])
    if k[0] == 'x':
        return '%s[%s]' % (show(k[1]), show(k[2]))
    if k[0] == 'p':
        return '*(%s)' % show(k[1])
    return str(k)


def written(it, st, facts):
    """[(address, kind, value)] of the path's writes; None if the writes are inside a loop"""
    out = []
    for e in st.ev:
        if e[0] in ('w', 'h'):
            out.append((e[1], e[0], e[2]))
        elif e[0] == 'st8':
            v = e[2]
            k = 'w'
            # keeps the upper three bits of what is there
            if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'trunc':
                v = v[3]
            if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'or':
                for a, b in ((v[2], v[3]), (v[3], v[2])):
                    if isinstance(a, tuple) and a[0] == 'e' and a[1] == 'and' and a[3] == 0xE0 and a[2] == sym(('m', pathsum.key_of(e[1]))):
                        k, v = 'h', b
            out.append((e[1], k, v))
        elif e[0] == 'bits':
            out.append((e[1], 'bits', e[2:5]))
    return out


def low5(v):
    if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'trunc':
        v = v[3]
    return v[2] if isinstance(v, tuple) and v[:2] == ('e', 'and') and v[3] == 31 else v


def check_path(ck, it, fn, obj, struct, T, st, where, spans, want_values, rng, final=None):
    facts = st.facts
    ws = written(it, st, facts)
    K = '%s %s' % (fn.name, T)
    if T == 'BITS':
        return bits_path(ck, it, fn, obj, struct, st, where, ws, want_values)
    n = WIDTH[T]
    if len(ws) != n:
        ck.bad('width', 'width ' + K, where, 'a %s-bit field is written with %d bytes on a path (%d expected)' % (T, len(ws), n))
        return
    base = ws[0][0]
    for k, (a, kind, v) in enumerate(ws):
        d = add(a, base, -1)
        if d != k:
            ck.bad('width', 'place ' + K, where, 'byte %d of a %s-bit field is written at %s, the first at %s' % (k, T, show(a), show(base)))
            return
        if (kind == 'h') != (T == '13' and k == 1):
            ck.bad('width', 'kind ' + K, where, 'byte %d of a %s-bit field is written by the wrong routine' % (k, T))
            return
    bs = [byte(low5(v) if kind == 'h' else v, 0) for _, kind, v in ws]
    bs = [(whole(b), b[1]) if isinstance(b, tuple) and b[0] != 'const' else b for b in bs]
    lo, hi, ne = special(facts, obj, struct, it)
    if T in ('8', 'R8') and isinstance(bs[0], tuple) and o_of(bs[0][0], it, '_handle_special_case'):
        # RST: the byte comes from _handle_special_case()
        if lo is not None and lo >= 1 and bs[0][1] == 0:
            ck.good('value', where + ' (RST)')
            return
        ck.bad('value', 'value ' + K, where, 'the byte written is %s' % show(ws[0][2]))
        return
    if any(not isinstance(b, tuple) or b[0] == 'const' for b in bs):
        ck.bad('value', 'value ' + K, where, 'the bytes written are not bytes of one value: %s' % ', '.join(show(v) for _, _, v in ws))
        return
    if fn.name in ('fix_references', 'compute_pending_calculations') and not bank_request(st, obj, struct):
        if T == '8' and not (hi is not None and hi <= 0 or lo == hi == 4):
            ck.bad('value', 'special ' + K, where, 'an RST operand can be written as it is')
            return
        if T == '16' and not (lo == hi == 4 or 4 in ne or hi is not None and hi < 4 or lo is not None and lo > 4):
            ck.bad('order', 'special ' + K, where, 'a field of the opposite byte order (special id 4) is written like any other')
            return
    idx = [b[1] for b in bs]
    v = bs[0][0]
    if any(b[0] != v for b in bs):
        ck.bad('value', 'value ' + K, where, 'the bytes written are not bytes of one value: %s' % ', '.join(show(x) for _, _, x in ws))
        return
    if min(idx) >= 2 and isinstance(v, tuple) and v[:3] == ('e', 'call', 'get_snes_pc_bank'):
        v, idx = ('e', 'ashr', v, 16), [k - 2 for k in idx]
    # byte order
    if n > 1:
        asc = list(range(n))
        flip = lo is not None and lo == hi == 4
        if T == '13':
            want = asc
        else:
            le = little(facts, obj, struct)
            if le is None:
                ck.bad('order', 'order ' + K, where, 'a path writes the %s-bit field without regard to the byte order of the object file' % T)
                return
            want = asc if le else asc[::-1]
            if flip and T in ('16', 'R16'):
                want = want[::-1]
        if idx != want:
            ck.bad('order', 'order ' + K, where, 'the bytes of a %s-bit field are written in the order %s, expected %s' % (T, idx, want))
            return
        ck.good('order', where)
    elif idx != [0]:
        ck.bad('order', 'order ' + K, where, 'byte %d of the value is written into an 8-bit field' % idx[0])
        return
    # the value
    if T == '9S' and not bank_request(st, obj, struct):
        if not (isinstance(v, tuple) and v[0] == 'e' and v[1] in ('ashr', 'sdiv', 'lshr') and v[3] == (2 if v[1] == 'sdiv' else 1)):
            ck.bad('value', 'value ' + K, where, 'a 9-bit short field is written with %s, half of the address expected' % show(v))
            return
        v = v[2]
        if not even(facts, v):
            ck.bad('range', 'even ' + K, where, 'an odd address is not rejected in a 9-bit short field')
            return
    r = want_values(st, v)
    if r is not True:
        ck.bad('value', 'value ' + K, where, 'the value written is %s, expected %s' % (show(v), r))
        return
    ck.good('value', where)
    rg = rng(st)
    if rg is not None:
        l, h = iv(facts, v, it.single)
        if l is None or h is None or l < rg[0] or h > rg[1]:
            ck.bad('range', 'range ' + K, where, 'values in %s..%s reach a %s-bit field (%d..%d fit)' % (l, h, T, rg[0], rg[1]))
            return
        spans.setdefault((fn.name, T, rg), []).append((l, h))
        ck.good('range', where)


def bank_request(st, obj, struct):
    return struct == 'reference' and known(st.facts, ld(obj, 'reference', 'name'))[0] == 58


def even(facts, v):
    """the path knows that v is even"""
    for (k, y), val in facts.items():
        if isinstance(y, tuple) and y[0] == 'e' and ((y[1] == 'and' and y[2] == v and y[3] == 1) or (y[1] == 'srem' and y[2] == v and y[3] == 2)):
            if k == 'iv' and val == (0, 0) or k == 'ne' and 1 in val and y[1] == 'and':
                return True
    return False


def o_of(v, it, callee):
    """v is an output parameter of a call of callee"""
    if isinstance(v, tuple) and v[0] == 'L' and len(v[2]) == 1:
        (x, _), = v[2]
        return x[0] == 'o' and it.fn.defs[x[1]].callee == callee
    return False


def bits_path(ck, it, fn, obj, struct, st, where, ws, want_values):
    K = '%s BITS' % fn.name
    n = ld(obj, struct, 'bits_to_define')
    calls = [w for w in ws if w[1] == 'bits']
    v = None
    if calls:
        if len(calls) != 1:
            ck.bad('width', 'width ' + K, where, 'a BITS field is written %d times' % len(calls))
            return
        v, pos, w = calls[0][2]
        if pos != ld(obj, struct, 'bits_position') or w != n:
            ck.bad('width', 'place ' + K, where, 'a BITS field is written at bit %s with %s bits' % (show(pos), show(w)))
            return
    else:
        cs = [i for i in fn.calls('bits_add_bit')]
        if not cs:
            raise AnalysisBroken('%s(): no write of a BITS field' % fn.name)
        vs = {value_at(it, i, st) for i in cs}
        if len(vs) == 1:
            v = vs.pop()
    lo, hi = iv(st.facts, n, it.single)
    if v is None or v is TOP:
        # the value: the one the mask was applied to
        cand = [y for (k, y), val in st.facts.items() if k == 'iv' and val == (0, 0) and isinstance(y, tuple) and y[0] == 'e' and y[1] == 'and']
        v = cand[0][2] if cand else None
    if lo is not None and lo >= 32:
        ck.good('range', where)
        return
    if v is None:
        ck.bad('range', 'range ' + K, where, 'a value wider than the BITS field is not rejected')
        return
    r = want_values(st, v)
    if r is not True:
        ck.bad('value', 'value ' + K, where, 'the value written is %s, expected %s' % (show(v), r))
        return
    if not fits(st.facts, v, n):
        ck.bad('range', 'range ' + K, where, 'a value wider than the BITS field is not rejected')
        return
    ck.good('range', where)


def value_at(it, i, st):
    v = it.val(i.args[3], st)
    return v


def ev_int(e, env):
    """evaluate an expression over constants and the symbols in env"""
    if isinstance(e, int):
        return e
    if e in env:
        return env[e]
    if isinstance(e, tuple) and e[0] == 'L':
        t = e[1]
        for x, k in e[2]:
            y = env.get(sym(x))
            if y is None:
                y = ev_int(x, env) if isinstance(x, tuple) and x[0] == 'e' else None
            if y is None:
                return None
            t += k * y
        return t
    if isinstance(e, tuple) and e[0] == 'e':
        a = [ev_int(x, env) for x in e[2:] if not isinstance(x, str)]
        if any(x is None for x in a):
            return None
        if e[1] == 'mul':
            return a[0] * a[1]
        if e[1] in ('and', 'or', 'xor', 'shl', 'ashr', 'lshr', 'sdiv', 'srem'):
            return absint.fold(e[1], *a)
    return None


def fits(facts, v, n):
    """the path implies 0 <= v < 2**n for widths n below 32: a mask of the upper bits, a shift, or comparisons"""
    for (k, y), val in facts.items():
        if k != 'iv' or val != (0, 0) or not isinstance(y, tuple) or y[0] != 'e':
            continue
        if y[1] == 'and' and v in (y[2], y[3]):
            m = y[3] if y[2] == v else y[2]
            if all((ev_int(m, {n: w}) if ev_int(m, {n: w}) is not None else 0) & 0xffffffff == (~((1 << w) - 1)) & 0xffffffff for w in range(1, 32)):
                return True
        if y[1] in ('ashr', 'lshr') and y[2] == v and y[3] == n:
            return True
    lo, _ = iv(facts, v, lambda q: (q, 0) if isinstance(q, tuple) and q[0] == 'e' else absint.single(q))
    if lo is not None and lo >= 0:
        for (k, y), val in facts.items():
            if k == 'iv' and isinstance(y, tuple) and y[0] == 'lf':
                t = absint.lin(0, list(y[1]))
                for w in range(1, 32):
                    x = ev_int(t, {n: w, v: 0})
                    o = ev_int(t, {n: w, v: 1})
                    if x is None or o is None or o - x != 1 or val[1] is None or val[1] - x > (1 << w) - 1:
                        break
                else:
                    return True
    return False


def run():
    ck = Check('P05', 'The linker writes references and calculations into fields of the right place, width, byte order and range')
    ck.rule('width', 'a field of n bits is written as n/8 bytes at consecutive addresses')
    ck.rule('value', 'the bytes are the bytes of the resolved value (the distance from the end of the field for a relative reference, half of it for a 9-bit short one)')
    ck.rule('order', 'in the byte order of the object file (13-bit fields always little-endian, reversed where the parser asked for it)')
    ck.rule('range', 'exactly the values that fit are written, anything else is an error')
    ck.rule('place', 'a field lies at its offset in the section plus the address of the section and the start of its bank')
    ck.rule('rst', 'an RST operand becomes the opcode of its target, other operands are errors')
    m = ir.load_many(['wlalink'], None, ir.baseline_functions() - {'_flip_endianess'}, ['*'])['wlalink']
    C = constants()
    mods = absint.modsets(m)
    spans = {}
    for name, struct, prefix, kinds in (('compute_pending_calculations', 'stack', 'STACK_TYPE_', ['8', '9S', '13', '16', '24', '32', 'BITS']),
                                        ('write_bank_header_calculations', 'stack', 'STACK_TYPE_', ['8', '9S', '13', '16', '24', '32', 'BITS']),
                                        ('fix_references', 'reference', 'REFERENCE_TYPE_', ['8', '9S', '13', '16', '24', '32', 'R8', 'R16', 'BITS']),
                                        ('write_bank_header_references', 'reference', 'REFERENCE_TYPE_', ['8', '9S', '13', '16', '24', '32', 'BITS'])):
        fn = m.fn(name)
        for T in kinds:
            if struct == 'stack':
                t = C[prefix + NAMES[T]]
            else:
                t = C[prefix + ('RELATIVE_8BIT' if T == 'R8' else 'RELATIVE_16BIT' if T == 'R16' else 'BITS' if T == 'BITS' else 'DIRECT_' + NAMES[T])]
            one(ck, m, mods, fn, struct, T, t, C, spans)
    # no over-rejection: the accepted intervals cover the whole range
    for (f, T, rg), l in sorted(spans.items()):
        lo, hi = min(x for x, _ in l), max(y for _, y in l)
        if (lo, hi) != rg:
            ck.bad('range', 'cover %s %s' % (f, T), '%s()' % f, 'only values in %d..%d are accepted in a %s-bit field, %d..%d fit' % (lo, hi, T, rg[0], rg[1]))
    calc_places(ck, m, mods, C)
    rst(ck, m, C)
    ck.floor('value', 60)
    ck.floor('range', 40)
    ck.floor('order', 20)
    ck.floor('place', 8)
    return ck.finish('Every path of the reference and calculation writers of wlalink, for each field type.', [
        'two different pointer expressions of a path do not denote the same object', 'arithmetic does not wrap around'])


def entry(fn):
    """(block, loop body or None, object symbol): the loop that writes, or the function"""
    ws = [i for i in fn.instrs() if i.op == 'call' and i.callee in WRITES]
    if not ws:
        return 0, None
    best = None
    for h, b in fn.loops().items():
        if all(i.bb in b for i in ws) and (best is None or len(b) > len(fn.loops()[best])):
            best = h
    if best is None:
        return 0, None
    return best, fn.loops()[best]


def one(ck, m, mods, fn, struct, T, t, C, spans):
    h, body = entry(fn)
    it = interp(m, fn, {(struct, 'type'): t}, mods)
    regs = {}
    obj = None
    for i in fn.blocks[h]:
        if i.op == 'phi':
            regs[i.id] = sym(('phi', i.id))
            if i.ty == 'ptr':
                obj = obj or sym(('phi', i.id))
    if body is None:
        obj = sym(('arg', 0))
    st = State(regs, {}, (), {})
    res = it.run(h, st, 0, until=({h} if body else set()), region=body)
    ends = [s for tt, s in res if (not isinstance(tt, tuple)) or tt[1] != 0]
    n = 0
    where = '%s() type %s' % (fn.name, T)
    for s in ends:
        if not s.ev:
            continue
        n += 1
        expect, rng = specs(it, fn, obj, struct, T, C, s)
        check_path(ck, it, fn, obj, struct, T, s, where, spans, expect, rng)
        place(ck, it, fn, obj, struct, T, s, where, C)
    if not n:
        ck.bad('width', 'none %s %s' % (fn.name, T), where, 'no path writes a field of this type')


def label_of(it, v):
    """the label whose address, base or bank the value is made of"""
    seen = set()

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'f' and x[2] == 'struct.label' and x[3] in ('address', 'base', 'bank'):
                seen.add(x[1])
            if len(x) >= 4 and x[:3] == ('e', 'call', 'get_snes_pc_bank'):
                seen.add(x[3])
            for y in x:
                walk(y)
        elif isinstance(x, frozenset):
            for y in x:
                walk(y)
    walk(v)
    return seen


def known(facts, v):
    x = absint.single(v)[0]
    lo, hi = facts.get(('iv', x), (None, None))
    ne = facts.get(('ne', x), frozenset())
    return (lo if lo is not None and lo == hi else None), ne


def specs(it, fn, obj, struct, T, C, st):
    if struct == 'stack':
        def expect(s, v):
            if isinstance(v, tuple) and v[0] == 'e' and v[1] == 'fptosi' and o_of(v[2], it, 'compute_stack'):
                return True
            return 'the result of compute_stack()'
        return expect, lambda s: RANGE.get(T)
    colon, notc = known(st.facts, ld(obj, 'reference', 'name'))
    colon = colon == 58
    # the label of this path
    labels = [st.mem[k] for k in st.mem if k[0] == 'l' and isinstance(st.mem[k], tuple) and (o_of(st.mem[k], it, 'find_label') or o_of(st.mem[k], it, 'get_closest_anonymous_label'))]

    def status(v):
        ls = label_of(it, v) or {k[1] for k in st.mem if k[0] == 'f' and k[2] == 'struct.label' and pathsum.key_of(k[1])[0] == 'l'}
        if len(ls) != 1:
            return None, None, None
        L, = ls
        k = field(L, 'label', 'status')
        if k in st.mem:
            x = st.mem[k]
            return L, (x if isinstance(x, int) else None), frozenset()
        return (L,) + known(st.facts, sym(('m', k)))

    def expect(s, v):
        L, stt, ne = status(v)
        if L is None:
            return 'made of the fields of one label'
        A = val(st, field(L, 'label', 'address'))
        A = A[2] if A[:2] == ('e', 'sitofp') else ('e', 'fptosi', A)
        if colon:
            a = add(val(st, field(L, 'label', 'base')), val(st, field(L, 'label', 'bank')))
            b = ('e', 'ashr', ('e', 'call', 'get_snes_pc_bank', L), 16)
            return True if v in (a, b) else 'the bank of the label'
        if T == '24':
            if stt is None and C['LABEL_STATUS_LABEL'] not in ne:
                return 'the address, with the bank when the name is a label'
            w = add(A, ('e', 'call', 'get_snes_pc_bank', L)) if stt == C['LABEL_STATUS_LABEL'] else A
        elif T == 'R8' and stt == C['LABEL_STATUS_DEFINE']:
            w = A
        elif T in ('R8', 'R16'):
            P = val(st, field(obj, 'reference', 'address'))
            n = 1 if T == 'R8' else 2
            if T == 'R16':
                f, fne = known(st.facts, sym(('m', field(('e', 'call', 'get_file', ld(obj, struct, 'file_id')), 'object_file', 'cpu_65ce02'))))
                if f is None and C['YES'] not in fne and C['NO'] not in fne:
                    return 'a distance that depends on the CPU (65CE02)'
                if f == C['YES'] or C['NO'] in fne:
                    n = 1
            w = add(add(('e', 'and', A, 65535), P, -1), -n)
        else:
            w = A
        return True if v == w else show(w)

    def rng(s):
        if colon:
            return None
        # the value again
        v = None
        for e in st.ev:
            b = byte(e[2], 0)
            if isinstance(b, tuple):
                v = whole(b)
            if v is not None and label_of(it, v):
                break
        L, stt, ne = status(v)
        if T in ('16', '24'):
            return RANGE[T] if stt == C['LABEL_STATUS_DEFINE'] else None
        if T in RRANGE and not (T == 'R8' and stt == C['LABEL_STATUS_DEFINE']):
            return RRANGE[T]
        return RANGE['8'] if T == 'R8' else RANGE.get(T)
    return expect, rng


def val(st, k):
    return st.mem.get(k, sym(('m', k)))


def whole(b):
    return b[0] if isinstance(b[0], int) or b[0][0] in ('e', 'L') else sym(b[0])


def place(ck, it, fn, obj, struct, T, st, where, C):
    """where the field lies"""
    ws = written(it, st, st.facts)
    if not ws:
        return
    base = ws[0][0]
    if T == 'BITS' and ws[0][1] != 'bits':
        return      # written bit by bit from the same place as the other types
    own = ld(obj, struct, 'address')
    pb = parts(base)
    if pb is None:
        ck.bad('place', 'base %s %s' % (fn.name, T), where, 'the field is written at %s' % show(base))
        return
    rest = add(base, own, -1)
    K = 'base %s %s' % (fn.name, T)
    if entry(fn)[1] is None:
        # inside the data of a header section
        pr = parts(rest)
        ok = pr and pr[0] == 0 and len(pr[1]) == 1 and all(k == 1 and x[0] == 'm' and x[1][0] == 'f' and x[1][2:] == ('struct.section', 'data') for x, k in pr[1])
        want = 'the data of the section + the offset'
    elif struct == 'stack':
        ok = rest == 0
        want = 'the address of the calculation'
    else:
        x, ne = known(st.facts, ld(obj, struct, 'section_status'))
        inside = x == C['ON'] or C['OFF'] in ne
        outside = x == C['OFF'] or C['ON'] in ne
        if inside == outside:
            ck.bad('place', K, where, 'the place of the field does not depend on whether it is inside a section')
            return
        want, ok = placed(it, st, obj, struct, inside, rest, C)
    if ok:
        ck.good('place', where)
    else:
        ck.bad('place', K, where, 'the field is written at %s, expected %s' % (show(base), want))


def section_of(st, obj, struct, it):
    """the section of the object, as find_section() returned it"""
    for i in it.fn.calls('find_section'):
        yield sym(('call', 'find_section', i.id))


def placed(it, st, obj, struct, inside, rest, C):
    """address minus own offset: the section's address and, unless it is absolute, the start of the bank"""
    bank0 = ld(obj, struct, 'bank')
    ba = sym(('m', ('g', 'g_bankaddress')))
    if not inside:
        w = sym(('m', ('x', ba, bank0, 'i32')))
        return show(w), rest == w
    for S in section_of(st, obj, struct, it):
        sx, sne = known(st.facts, ld(S, 'section', 'status'))
        ab = C['SECTION_STATUS_ABSOLUTE']
        w = ld(S, 'section', 'address')
        if sx == ab:
            pass
        elif sx is not None or ab in sne:
            w = add(w, sym(('m', ('x', ba, ld(S, 'section', 'bank'), 'i32'))))
        else:
            continue
        if rest == w:
            return '', True
    return 'offset + address of the section (+ start of its bank unless the section is absolute)', False


def calc_places(ck, m, mods, C):
    """compute_pending_calculations(): the loop that turns the offsets of calculations into addresses"""
    fn = m.fn('compute_pending_calculations')
    hs = set()
    for h, b in fn.loops().items():
        for k in b:
            for i in fn.blocks[k]:
                if i.op == 'store' and ir.noid(ir.Sym(fn).path(i.ops[1]))[0] == 'f' and ir.Sym(fn).path(i.ops[1])[2] == 'address':
                    hs.add(h)
    hs = [h for h in hs if not any(h in fn.loops()[g] and g != h for g in hs)]
    if not hs:
        raise AnalysisBroken('compute_pending_calculations(): the loop that places calculations was not found')
    for h in hs:
        it = interp(m, fn, {}, mods)
        regs, obj = {}, None
        for i in fn.blocks[h]:
            if i.op == 'phi':
                regs[i.id] = sym(('phi', i.id))
                if i.ty == 'ptr':
                    obj = obj or sym(('phi', i.id))
        res = it.run(h, State(regs, {}, (), {}), 0, until={h}, region=fn.loops()[h])
        for t, s in res:
            if t != h:
                continue
            where = 'compute_pending_calculations() placing'
            pos, pne = known(s.facts, ld(obj, 'stack', 'position'))
            x, ne = known(s.facts, ld(obj, 'stack', 'section_status'))
            new = val(s, field(obj, 'stack', 'address'))
            mem = val(s, field(obj, 'stack', 'memory_address'))
            own = ld(obj, 'stack', 'address')
            if new == own:
                # left alone: a definition, a discarded section or a header section
                why = pos == C['STACK_POSITION_DEFINITION'] or x == C['ON'] or C['OFF'] in ne
                if not why:
                    ck.bad('place', 'calc left', where, 'the address of a calculation outside of sections is left alone')
                else:
                    ck.good('place', where)
                continue
            inside = x == C['ON'] or C['OFF'] in ne
            want, ok = placed(it, s, obj, 'stack', inside, add(new, own, -1), C)
            if not ok:
                ck.bad('place', 'calc', where, 'a calculation %s a section is placed at %s, expected its offset + %s' % ('inside' if inside else 'outside', show(new), want))
                continue
            slot = sym(('m', ('f', at(('x', at(('g', 'g_slots')), ld(obj, 'stack', 'slot'), 'struct.slot')), 'struct.slot', 'address')))
            w = add(own, slot)
            cands = [w] if not inside else [add(w, ld(S, 'section', 'address')) for S in section_of(s, obj, 'stack', it)]
            if mem not in cands:
                ck.bad('place', 'calc memory', where, 'the memory address of a calculation (for CADDR) is %s, expected %s' % (show(mem), show(cands[0])))
            else:
                ck.good('place', where)


RST = {1: ({8 * k: 0xC7 | 8 * k for k in range(8)}, 'Z80/GB'), 2: ({k: 5 | 8 * k for k in range(8)}, '8008'), 3: ({k: 0xC7 | 8 * k for k in range(8)}, '8080')}


def rst(ck, m, C):
    fn = m.fn('_handle_special_case')
    nargs = len(fn.params)
    for sid, (table, cpu) in sorted(RST.items()):
        for v in list(range(-130, 260)) + [0x100, 0x108, 0x1000, 65535]:
            it = P(fn, {n: (lambda it, i, st: [(TOP, st)]) for n in ('print_text', 'get_file_name', 'get_source_file_name')}, None)
            res = run_args(it, fn, {0: sid, nargs - 2: v})
            out = set()
            for t, s in res:
                r = t[1]
                o = s.mem.get(('p', sym(('arg', nargs - 1))))
                out.add((r, o if r == 1 else None))
            want = {(1, table[v])} if v in table else {(0, None)}
            if out != want:
                ck.bad('rst', 'rst %d' % sid, fn.where(), 'RST %d (%s) gives %s, expected %s' % (v, cpu, sorted(out, key=str), sorted(want, key=str)))
                break
        else:
            ck.good('rst', '%s: special id %d' % (cpu, sid))


def run_args(it, fn, args):
    old = it.val

    def val_(v, st):
        if isinstance(v, list) and v[0] == 'a' and v[1] in args:
            return args[v[1]]
        return old(v, st)
    it.val = val_
    return it.run(0, State({}, {}, (), {}), 0)
