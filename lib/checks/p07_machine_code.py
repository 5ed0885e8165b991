"""P07: every entry of every instruction table, run through evaluate_token() against the instruction set of its processor."""
import json, os, re
import ir, decode, isa
from common import Check
from absint import add, parts, sym, TOP
from pathsum import iv
from ir import AnalysisBroken


PARTS = 4
NUM, LABEL, CALC = decode.SUCCEEDED, decode.LABEL, decode.STACK
CPUS = ['6809', 'z80n', 'z80', 'gb', '65816', '65ce02', 'huc6280', '6801', '6800', 'spc700', '65c02', '6502', '8080', 'superfx', '8008']
RANGE = {'n8': (-128, 255), 'r8': (-128, 255), 's8': (-128, 127), 'd8': (-128, 127), 'w': (-32768, 65535), 'wb': (-32768, 65535), 'r16': (-32768, 65535), 't': (-8388608, 16777215)}
# what must at least be accepted
LEAST = {'n8': (0, 255), 'r8': (-128, 127), 's8': (-128, 127), 'd8': (-128, 127), 'w': (256, 65535), 'wb': (256, 65535), 'r16': (-32768, 32767), 't': (65536, 16777215)}
SPECIAL = {'gb': 1, 'z80': 1, 'z80n': 1, '8008': 2, '8080': 3}     # the restarts, as the linker numbers them (checked by P05)
BE = ('6800', '6801', '6809')


class No(Exception):
    pass


def konst(v):
    if isinstance(v, int):
        return v
    p = parts(v) if isinstance(v, tuple) and v[0] == 'L' else None
    return p[0] if p and not p[1] else None


def lin(v, k, mul, base):
    return v == add(sym(('N', k)), 0, mul, base) if False else _lin(v) == (base, {('N', k): mul})


def _lin(v):
    p = parts(v) if isinstance(v, tuple) else None
    if not p:
        return None
    return p[0], dict(p[1])


def atoms(evs, cpu):
    """the bytes: ('b', v), ('w', v) for words that are not constant, and the references ('ref', letter, value, special, dot)"""
    out, special, dot = [], 0, False
    evs = [e for e in evs if e[0] == 'emit' and e[1] != 'k']
    i = 0
    while i < len(evs):
        _, l, v, line = evs[i]
        i += 1
        if l == 'v':
            special = v
        elif l == '.':
            dot = True
        elif l == 'd':
            c = konst(v)
            out.append(c & 255 if c is not None else ('d', v))
        elif l == 'y' or l == 'z':
            c = konst(v)
            if c is None:
                out.append((l, v))
            elif l == 'y':
                out += [c >> 8 & 255, c & 255] if cpu in BE else [c & 255, c >> 8 & 255]
            else:
                out += [c & 255, c >> 8 & 255, c >> 16 & 255]
        else:
            more = []
            while i < len(evs) and evs[i][1] == '+':
                more.append(evs[i][2])
                i += 1
            out.append(('ref', l, v, tuple(more), special, dot))
            dot = False
    if special:
        raise No('the special case %s is not ended' % special)
    return out


def mem_of_calc(s, k, field):
    p = sym(('stackobj', sym(('S', k))))
    for key, v in s.mem.items():
        if key[0] == 'f' and key[1] == p and key[2] == 'struct.stack' and key[3] == field:
            return v
    return 0


LETTER = {'n8': ('Q', 'c'), 's8': ('Q', 'c'), 'd8': ('Q', 'c'), 'r8': ('R', 'c'), 'w': ('r', 'C'), 'r16': ('M', 'C'), 't': ('q', 'T'), 'half': ('*', '-')}
WIDTH = {'n8': 'd', 's8': 'd', 'd8': 'd', 'r8': 'd', 'w': 'y', 'r16': 'y', 't': 'z'}


def show(x):
    if isinstance(x, int):
        return '%02X' % (x & 255)
    if isinstance(x, tuple) and x and x[0] == 'ref':
        return 'reference %s%s' % (x[1], ' (special %s)' % x[4] if x[4] else '')
    if isinstance(x, tuple) and x and x[0] in ('d', 'y', 'z'):
        return {'d': 'byte', 'y': 'word', 'z': '24 bits'}[x[0]] + '(...)'
    return str(x)


def bits(v):
    """v as a function of N"""
    if isinstance(v, int):
        return lambda n: v
    if isinstance(v, tuple) and v[0] == 'L':
        fs = [(bits(x) if isinstance(x, tuple) and x[0] == 'e' else (lambda y: lambda n: n.get(y))(x), c) for x, c in v[2]]
        return lambda n: v[1] + sum(f(n) * c for f, c in fs)
    if isinstance(v, tuple) and v[0] == 'e':
        a, b = bits(v[2]), bits(v[3])
        f = {'and': lambda x, y: x & y, 'or': lambda x, y: x | y, 'ashr': lambda x, y: x >> y, 'lshr': lambda x, y: (x & 0xFFFFFFFF) >> y, 'shl': lambda x, y: x << y, 'xor': lambda x, y: x ^ y,
             'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[v[1]]
        return lambda n: f(a(n), b(n))
    raise No('the value %s is not understood' % (v,))


def same(v, k, lo, hi, want):
    """the low byte of v is want(N_k) for every accepted N_k"""
    f = bits(v)
    try:
        return all((f({('N', k): n}) & 255) == (want(n) & 255) for n in range(lo, hi + 1))
    except (KeyError, TypeError):
        return False


class One:
    """one accepting path of one entry"""

    def __init__(s, cpu, e, st, it):
        s.cpu, s.e, s.st, s.it = cpu, e, st, it
        s.kind = {x[1]: x[2] for x in st.ev if x[0] == 'operand'}
        s.seen = set()

    def range(s, k):
        return iv(s.st.facts, sym(('N', k)), s.it.single)

    def within(s, k, lo, hi, what):
        a, b = s.range(k)
        if a is None or b is None or a < lo or b > hi:
            raise No('operand %d: %s takes numbers %s..%s, not all of %s..%s' % (k + 1, what, lo, hi, '-inf' if a is None else a, 'inf' if b is None else b))

    def field(s, kind, k, at):
        """operand k in a field"""
        s.seen.add(k)
        kd = s.kind.get(k)
        if kd == NUM:
            s.within(k, *RANGE[kind], what={'d': 'a byte', 'y': 'a word', 'z': '24 bits'}[WIDTH[kind]] if kind not in ('s8', 'd8') else 'a signed byte')
            if not (isinstance(at, tuple) and at[0] == WIDTH[kind]) or _lin(at[1]) != (0, {('N', k): 1}):
                lo, hi = s.range(k)
                if isinstance(at, int) and lo == hi and WIDTH[kind] == 'd' and at == lo & 255:
                    return
                if isinstance(at, tuple) and at[0] == 'd' and WIDTH[kind] == 'd' and same(at[1], k, lo, hi, lambda n: n):
                    return
                raise No('operand %d (%s) is expected, %s is written' % (k + 1, kind, show(at)))
            return
        if kd in (LABEL, CALC):
            want = LETTER[kind][kd == CALC]
            if not (isinstance(at, tuple) and at[0] == 'ref') or at[1] != want or at[3] or at[4] or at[5]:
                raise No('operand %d (%s) as a %s is written as record %s, it is %s that makes the linker do that' % (k + 1, kind, 'label' if kd == LABEL else 'calculation', show(at), want))
            if at[2] != (('label', k) if kd == LABEL else sym(('S', k))):
                raise No('operand %d: the reference is not to the %s read' % (k + 1, 'label' if kd == LABEL else 'calculation'))
            if kd == CALC:
                r = mem_of_calc(s.st, k, 'relative_references')
                if (r == 1) != (kind in ('r8', 'r16')):
                    raise No('operand %d (%s) as a calculation is%s taken as a distance' % (k + 1, kind, '' if r == 1 else ' not'))
            return
        raise No('operand %d is neither number, label nor calculation' % (k + 1))

    def match(s, items):
        a = atoms(s.st.ev, s.cpu)
        i = 0

        def nxt():
            nonlocal i
            if i >= len(a):
                raise No('only %d bytes or fields are written' % len(a))
            i += 1
            return a[i - 1]
        for it in items:
            if isinstance(it, int):
                x = nxt()
                if x != it:
                    raise No('%s is written where the instruction has %02X' % (show(x), it))
                continue
            kind, k = it[0], it[1] if len(it) > 1 else 0
            if kind in ('nm', 'nx'):
                it = ('n8' if s.wide(k, kind) == 8 else 'w', k)
                kind = it[0]
            if kind in LETTER and kind != 'half':
                s.field(kind, k, nxt())
            elif kind == 'wb':
                x = nxt()
                s.seen.add(k)
                if s.kind.get(k) == NUM:
                    y = nxt()
                    lo, hi = s.range(k)
                    s.within(k, *RANGE['w'], what='a word')
                    if not (isinstance(x, tuple) and x[0] == 'd' and isinstance(y, tuple) and y[0] == 'd' and same(x[1], k, lo, hi, lambda n: n >> 8) and same(y[1], k, lo, hi, lambda n: n)):
                        raise No('operand %d is not written high byte first' % (k + 1))
                elif s.kind.get(k) == LABEL:
                    if x != ('ref', 'r', ('label', k), (), 0, True):
                        raise No('operand %d as a label is written as record %s, not as a 16-bit reference with the high byte first' % (k + 1, show(x)))
                else:
                    if x != ('ref', 'C', sym(('S', k)), (), 0, False) or mem_of_calc(s.st, k, 'special_id') != 4 or mem_of_calc(s.st, k, 'relative_references') == 1:
                        raise No('operand %d as a calculation is not marked as high byte first' % (k + 1))
            elif kind == 'is':
                s.seen.add(k)
                if s.kind.get(k) != NUM:
                    raise No('operand %d has to be a number' % (k + 1))
                s.within(k, it[2], it[2], 'this form')
            elif kind == 'rst':
                x = nxt()
                s.seen.add(k)
                l = {LABEL: ('Q', ('label', k)), CALC: ('c', sym(('S', k)))}.get(s.kind.get(k))
                if l is None or x != ('ref', l[0], l[1], (), it[2], False):
                    raise No('operand %d is not written as a restart (special case %d)' % (k + 1, it[2]))
            elif kind == 'op':
                x = nxt()
                s.seen.add(k)
                lo, hi = (it[4], it[5]) if len(it) > 4 else (0, 15 if it[2] == 1 and it[3] == 4 else 7)
                if s.kind.get(k) != NUM:
                    raise No('operand %d has to be a number, it is part of the opcode' % (k + 1))
                s.within(k, lo, hi, 'the opcode')
                a0, b0 = s.range(k)
                v = x[1] if isinstance(x, tuple) and x[0] == 'd' else x
                if not (isinstance(x, int) or isinstance(x, tuple) and x[0] == 'd') or not same(v, k, a0, b0, lambda n: it[2] | n << it[3]):
                    raise No('the opcode is not %02X with operand %d at bit %d' % (it[2], k + 1, it[3]))
            elif kind == 'pb5':
                x = nxt()
                s.seen.add(k)
                if s.kind.get(k) != NUM:
                    raise No('operand %d has to be a number' % (k + 1))
                s.within(k, -16, 15, 'a 5-bit offset')
                a0, b0 = s.range(k)
                v = x[1] if isinstance(x, tuple) and x[0] == 'd' else x
                if not same(v, k, a0, b0, lambda n: it[2] | n & 31):
                    raise No('the post byte is not %02X with the 5-bit offset' % it[2])
            elif kind == 'mb':
                s.seen |= {k, k + 1}
                if s.kind.get(k + 1) != NUM:
                    raise No('the bit has to be a number')
                s.within(k + 1, 0, 7, 'a bit number')
                x = nxt()
                if s.kind.get(k) == NUM:
                    s.within(k, 0, 8191, 'a 13-bit address')
                    if not (isinstance(x, tuple) and x[0] == 'y' and _lin(x[1]) == (0, {('N', k): 1, ('N', k + 1): 8192})):
                        raise No('the word is not the address with the bit above it')
                else:
                    l, o = ('n', ('label', k)) if s.kind.get(k) == LABEL else ('N', sym(('S', k)))
                    if x != ('ref', l, sym(('N', k + 1)), (o,), 0, False):
                        raise No('operand %d is not written as a 13-bit reference with the bit' % (k + 1))
            elif kind == 'half':
                s.seen.add(k)
                x = nxt()
                if s.kind.get(k) == NUM:
                    s.within(k, 0, 511, 'a word address')
                    a0, b0 = s.range(k)
                    v = x[1] if isinstance(x, tuple) and x[0] == 'd' else x
                    if not same(v, k, a0, b0, lambda n: n >> 1):
                        raise No('operand %d is not halved' % (k + 1))
                else:
                    s.field('half', k, x)
            else:
                raise AnalysisBroken('item %s' % (it,))
        if i < len(a):
            raise No('%s more is written' % show(a[i]))
        for k in s.kind:
            if k not in s.seen:
                p = [x for x in s.fixed if x[0] == k]
                if not p:
                    raise No('operand %d is read and not written' % (k + 1))
                if s.kind[k] != NUM:
                    raise No('operand %d has to be a number, it selects the opcode' % (k + 1))
                s.within(k, p[0][1], p[0][1], 'the opcode')

    def env(s, k, **want):
        """is the path possible with these hints and sizes?"""
        for name, v in want.items():
            x = (name, k) if name.startswith('g_operand') else ('m', ('g', name))
            lo, hi = iv(s.st.facts, sym(x), s.it.single)
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in s.st.facts.get(('ne', x), ()):
                return False
        return True

    def wide(s, k, kind):
        """the width of a 65816 immediate on this path: by an explicit size, otherwise by the size in force"""
        size = 'g_accu_size' if kind == 'nm' else 'g_index_size'
        got = set()
        for z in (8, 16):
            for ht in (0, 1, 2):
                for h in (1, 2):
                    if s.env(k, g_operand_hint_type=ht, g_operand_hint=h, **{size: z}):
                        got.add((8 if h == 1 else 16) if ht == 1 else z)
        if len(got) != 1:
            raise No('operand %d is written alike where it has to have %s bits' % (k + 1, ' and '.join(str(x) for x in sorted(got)) or 'no'))
        return got.pop()


def shape(text):
    return ''.join('\x01' if i > text.find(' ') >= 0 and decode.placeholder(c) else c for i, c in enumerate(text))


def operands(text):
    """the placeholders in order"""
    return [c for i, c in enumerate(text) if i > text.find(' ') >= 0 and decode.placeholder(c)]


def leaves(items):
    for x in items:
        if isinstance(x, tuple) and x[0] == 'alt':
            for y in x[1]:
                yield from leaves(y)
        else:
            yield x


def fixed_operands(e, items):
    """operands that select the opcode: [(k, value)]"""
    used = set()
    for z in leaves(items):
        if isinstance(z, tuple) and len(z) > 1:
            used.add(z[1])
            if z[0] == 'mb':
                used.add(z[1] + 1)
    return [(k, e.get('value', 0)) for k in range(len(operands(e['string']))) if k not in used]


def registers(c, cpu, m, fn, e, fs, op, where):
    """EXG, TFR, PSH*, PUL*: the byte that names the registers, for every pair and every set"""
    text = e['string']
    if op[1][0] == 'exg':
        code = dict(D=0, X=1, Y=2, U=3, S=4, PC=5, A=8, B=9, CC=10, DP=11)
        jobs = [((x, y), code[x] << 4 | code[y]) for x in code for y in code if (code[x] < 8) == (code[y] < 8)]
        jobs += [(('W', 'A'), None), (('A',), None)]
    else:
        other = 'U' if text[3] == 'S' else 'S'
        bit = {'CC': 1, 'A': 2, 'B': 4, 'DP': 8, 'X': 16, 'Y': 32, other: 64, 'PC': 128}
        names = list(bit)
        jobs = []
        for n in range(1, 256):
            l = [x for x in names if n & bit[x]]
            jobs.append((tuple(l if n & 1 else l[::-1]), n))
        jobs += [((text[3],), None), (('A', 'A'), None), ((), None), (('D0',), None)]
    for words, want in jobs:
        it, yes, no = decode.decode(m, fn, e, fs, None, list(words))
        key = '%s:%s:%s' % (cpu, text, ','.join(words))
        if want is None:
            if yes:
                c.bad('registers', key, where, '%s %s is accepted' % (text[:-2], ','.join(words)))
            else:
                c.good('registers', key)
            continue
        try:
            got = [atoms(s.ev, cpu) for s in yes]
        except No as x:
            got = str(x)
        if got != [[op[0], want]]:
            c.bad('registers', key, where, '%s %s is assembled to %s, not to %02X %02X' % (text[:-2], ','.join(words), ' or '.join(' '.join(show(y) for y in x) for x in got) or 'nothing', op[0], want))
        else:
            c.good('registers', key)


class Entry:
    def __init__(s, cpu, j, e, items):
        s.cpu, s.j, s.e, s.text, s.items = cpu, j, e, e['string'], items
        s.where = 'i%s.c entry %d' % (cpu, j + 1)
        s.key = '%s:%s%s' % (cpu, s.text, ':%d' % e['value'] if e.get('value') else '')


def check_entry(c, E, m, fn, fs):
    """rule encoding; returns what was accepted: [(kinds, One)] and what was not"""
    cpu, e, items = E.cpu, E.e, E.items
    try:
        it, yes, no = decode.decode(m, fn, e, fs)
    except decode.Bad as x:
        raise AnalysisBroken('%s %s: %s' % (cpu, E.text, x))
    alts = list(items[0][1]) if items and isinstance(items[0], tuple) and items[0][0] == 'alt' else [items]
    fx = fixed_operands(e, items)
    out = []
    for st in yes:
        p = One(cpu, e, st, it)
        p.fixed = fx
        err = None
        ks = tuple(p.kind[k] for k in sorted(p.kind))
        for al in alts:
            try:
                p.seen = set()
                p.match(al)
                if st.mem.get(('g', 'g_source_index')) != len(it.rest) - 1:
                    raise No('the source is not continued at the end of the instruction')
                err = None
                break
            except No as x:
                err = x if al is alts[0] or 'numbers' not in str(x) else err or x
        what = ', '.join({NUM: 'a number', LABEL: 'a label', CALC: 'a calculation'}.get(v, '?') for v in ks)
        if err is not None:
            c.bad('encoding', '%s:%s' % (E.key, ','.join(str(v) for v in ks)), E.where, '"%s"%s: %s' % (E.text, ' with ' + what if what else '', err))
        else:
            c.good('encoding', '%s %s' % (cpu, E.text))
        out.append((ks, p))
    for ret, st in no:
        # the line is tried on with the next entry, as if this one had not been there
        if ret == 0:
            continue
        kd = [x[2] for x in st.ev if x[0] == 'operand']
        err = None
        if any(x[0] == 'emit' for x in st.ev):
            err = 'has written something before'
        elif st.mem.get(('g', 'g_source_index')) != 0:
            err = 'leaves the source further on'
        elif st.mem.get(('g', 'g_last_stack_id')) != 0:
            err = 'leaves calculations behind'
        elif sorted(str(x[1]) for x in st.ev if x[0] == 'delete') != [str(n) for n in range(kd.count(CALC))]:
            err = 'does not delete the calculations it has created'
        if err:
            c.bad('next', '%s:%s' % (E.key, ','.join(str(x) for x in kd)), E.where, '"%s" is given up for the next entry and %s' % (E.text, err))
        else:
            c.good('next', '%s %s' % (cpu, E.text))
    for st in yes:
        n = [x[2] for x in st.ev if x[0] == 'operand'].count(CALC)
        if st.mem.get(('g', 'g_last_stack_id')) != n or any(x[0] == 'delete' for x in st.ev):
            c.bad('next', '%s:kept' % E.key, E.where, '"%s" is assembled, and a calculation of it is deleted' % E.text)
    return it, out, no


def covered(l, lo, hi):
    """do the intervals cover lo..hi?"""
    for a, b in sorted((a if a is not None else -1 << 40, b if b is not None else 1 << 40) for a, b in l):
        if a <= lo:
            lo = max(lo, b + 1)
    return lo > hi


def check_cpu(c, job):
    cpu, part, of = job
    m = decode.prog(cpu)
    fn = m.fn('evaluate_token')
    es, fs = decode.entries(m)
    enc = isa.encoder(cpu)
    es = [e for e in es if not (e['string'] == 'E' and e.get('type', 0) == -1)]
    tab = []
    for j, e in enumerate(es):
        items = [('rst', 0, SPECIAL[cpu])] if e['string'] == 'RST *' and e['type'] == 100 else enc(e['string'], e.get('value', 0))
        tab.append(Entry(cpu, j, e, items))
    if part == 0:
        lookup(c, cpu, m, es)
        coverage(c, cpu, tab)
        if cpu == '65816':
            sizes(c, m, fn, fs, tab)
        for E in tab:
            if E.items is None:
                c.bad('encoding', E.key + ':unknown', E.where, '"%s" is not an instruction of the %s as its reference has it' % (E.text, cpu.upper()))
    # the entries that spell the same text
    groups = {}
    for E in tab:
        groups.setdefault(shape(E.text), []).append(E)
    for g in list(groups.values())[part::of]:
        check_group(c, cpu, [E for E in g if E.items is not None], m, fn, fs)
    blocks = {}
    for E in tab:
        blocks.setdefault(E.text.split(' ')[0], []).append(E)
    for b in list(blocks.values())[part::of]:
        shadows(c, cpu, b)


KINDS3 = {'n8', 's8', 'd8', 'r8', 'w', 'wb', 'r16', 't', 'half', 'nm', 'nx', 'mb'}


def bits_of(E, k):
    for x in leaves(E.items):
        if isinstance(x, tuple) and len(x) > 1 and x[1] == k:
            return {'pb5': 5, 'n8': 8, 's8': 8, 'd8': 8, 'r8': 8, 'w': 16, 'r16': 16, 't': 24}.get(x[0], 0)
    return 0


def check_group(c, cpu, g, m, fn, fs):
    """all entries for one text: what they make of it, and that every operand is assembled by one of them"""
    if not g:
        return
    if g[0].items and isinstance(g[0].items[-1], tuple) and g[0].items[-1][0] in ('exg', 'psh'):
        for E in g:
            registers(c, cpu, m, fn, E.e, fs, E.items, E.where)
        return
    res = [(E,) + check_entry(c, E, m, fn, fs) for E in g]
    n = len(operands(g[0].text))
    key, where = g[0].key, g[0].where
    if n == 0:
        for E, it, out, no in res:
            if not out:
                c.bad('operands', key, E.where, '"%s" is not assembled' % E.text)
            else:
                c.good('operands', '%s %s' % (cpu, E.text))
        return
    for k in range(n):
        # the operand as a number: every value that fits
        least = {}
        anyk = set()
        for E, it, out, no in res:
            for x in leaves(E.items):
                if isinstance(x, tuple) and len(x) > 1 and (x[1] == k or x[0] == 'mb' and x[1] + 1 == k):
                    anyk.add(x[0])
                    if x[0] in LEAST and not (x[0] == 'mb' and x[1] != k):
                        least.setdefault('n', []).append(LEAST[x[0]])
                    if x[0] in ('nm', 'nx'):
                        least.setdefault('n', []).append(LEAST['n8'])
                    if x[0] == 'op':
                        least.setdefault('n', []).append((x[4], x[5]) if len(x) > 4 else (0, 15 if x[2] == 1 and x[3] == 4 else 7))
                    if x[0] == 'pb5':
                        least.setdefault('n', []).append((-16, 15))
                    if x[0] == 'half':
                        least.setdefault('n', []).append((0, 510))
        nums = []
        for E, it, out, no in res:
            nums += [p.range(k) for ks, p in out if p.kind.get(k) == NUM and p.env(k, g_operand_hint_type=0, g_operand_hint=0, g_xbit_size=0)]
        for lo, hi in sorted(set(least.get('n', []))):
            if not covered(nums, lo, hi):
                c.bad('operands', '%s:%d:number' % (key, k), where, '"%s": of the numbers %d..%d for operand %d only %s are assembled' % (g[0].text, lo, hi, k + 1, nums))
            else:
                c.good('operands', '%s %s operand %d: %d..%d' % (cpu, g[0].text, k + 1, lo, hi))
        for kd, w in ((LABEL, 'label'), (CALC, 'calculation')):
            if anyk & KINDS3 and not (cpu == '65816' and g[0].text[:3] in ('REP', 'SEP')) and not ('mb' in anyk and g[0].text[g[0].text.find(' '):] and operands(g[0].text)[k] == '~'):
                if not any(p.kind.get(k) == kd for E, it, out, no in res for ks, p in out):
                    c.bad('operands', '%s:%d:%s' % (key, k, w), where, '"%s": a %s as operand %d is not assembled' % (g[0].text, w, k + 1))
                else:
                    c.good('operands', '%s %s operand %d: %s' % (cpu, g[0].text, k + 1, w))
    # forms of several widths: a size that is asked for is the size used, and a narrow form leaves what it cannot hold to the wider one
    for i, (E, it, out, no) in enumerate(res):
        for F, _, out2, _ in res[i + 1:]:
            for k in range(n):
                a, b = bits_of(E, k), bits_of(F, k)
                if not a or not b or a == b:
                    continue
                if a > b:
                    c.bad('width', '%s:order' % E.key, E.where, '"%s" stands before the shorter "%s" and hides it' % (E.text, F.text))
                    continue
                for ks, p in out:
                    if p.kind.get(k) not in (NUM, LABEL, CALC):
                        continue
                    for size in (8, 16, 24):
                        if size == b and p.env(k, g_xbit_size=size):
                            c.bad('width', '%s:%d:.%dBIT' % (E.key, k, size), E.where, '"%s" is used for operand %d after .%dBIT though "%s" holds more bits' % (E.text, k + 1, size, F.text))
                        h = size // 8
                        if size == b and p.env(k, g_operand_hint=h, g_operand_hint_type=1):
                            c.bad('width', '%s:%d:.%s' % (E.key, k, ' bwl'[h]), E.where, '"%s" is used for operand %d with the size .%s though "%s" holds more bits' % (E.text, k + 1, ' bwl'[h], F.text))
                    c.good('width', '%s %s before %s' % (cpu, E.text, F.text))
                for ret, st in no:
                    kd = {x[1]: x[2] for x in st.ev if x[0] == 'operand'}
                    if ret == 0 and all(v in (NUM, LABEL, CALC) for v in kd.values()) and kd:
                        c.bad('width', '%s:fails' % E.key, E.where, '"%s" fails for an operand that "%s" might take' % (E.text, F.text))


def swallows(F, E):
    """would the operands of F take text that E has literally?"""
    f, e = F.text.split(' ', 1), E.text.split(' ', 1)
    if len(f) < 2 or len(e) < 2 or f[0] != e[0] or shape(F.text) == shape(E.text):
        return False
    take = '[^, +]+' if E.cpu == 'spc700' else '[^, ]+'       # there, an expression ends before an index register
    pat = ''.join(take if decode.placeholder(x) else re.escape(x) for x in f[1])
    return re.fullmatch(pat, shape(E.text)[len(e[0]) + 1:]) is not None


def shadows(c, cpu, block):
    for i, E in enumerate(block):
        hit = [F for F in block[:i] if swallows(F, E) and F.items != E.items]
        for F in hit:
            c.bad('selection', '%s<%s' % (E.key, F.text), E.where, '"%s" is never reached: "%s" (entry %d) takes it as its operand' % (E.text, F.text, F.j + 1))
        if not hit:
            c.good('selection', '%s %s' % (cpu, E.text))


def lookup(c, cpu, m, es):
    """the entries by first letter"""
    first, count = {}, {}
    for j, e in enumerate(es):
        l = ord(e['string'][0])
        if l in first and first[l] + count[l] != j:
            c.bad('selection', '%s:%s:apart' % (cpu, chr(l)), 'i%s.c entry %d' % (cpu, j + 1), '"%s" stands apart from the other entries with its first letter and is not found' % e['string'])
        first.setdefault(l, j)
        count[l] = count.get(l, 0) + 1
    got, failed = decode.tables(cpu)
    where = 'instruction_table_generator/main.c (for i%s.c)' % cpu
    if failed or not got:
        c.bad('lookup', '%s:fails' % cpu, where, 'the generator of the tables by first letter %s on the instructions of this processor' % ('may fail' if got else 'fails'))
    for p, n in got:
        for l in range(256):
            if not p or not n or len(p) != 256 or len(n) != 256:
                c.bad('lookup', '%s:size' % cpu, where, 'the tables by first letter do not have 256 numbers')
                break
            u = l - 32 if 97 <= l <= 122 else l
            want = (first.get(u), count.get(u, 0))
            if n[l] != want[1] or want[1] and p[l] != want[0]:
                c.bad('lookup', '%s:%d' % (cpu, l), where, "lines that begin with '%s' are looked up in %s entries from entry %s on; there are %d from entry %s on" % (chr(l) if 32 < l < 127 else '#%d' % l, n[l], p[l], want[1], want[0]))
            else:
                c.good('lookup', '%s %d' % (cpu, l))


def pages(cpu):
    return {'z80': [0xCB, 0xED, 0xDD, 0xFD], 'z80n': [0xCB, 0xED, 0xDD, 0xFD], 'gb': [0xCB], '6809': [0x10, 0x11], 'superfx': [0x3D, 0x3E, 0x3F]}.get(cpu, [])


def opcodes(cpu, tab):
    """(page, opcode) of every entry"""
    got = set()

    def exp(x):
        if isinstance(x, int):
            return [x]
        if isinstance(x, tuple) and x[0] == 'op':
            lo, hi = (x[4], x[5]) if len(x) > 4 else (0, 15 if x[2] == 1 and x[3] == 4 else 7)
            return [x[2] | n << x[3] for n in range(lo, hi + 1)]
        return []
    for E in tab:
        o = E.items or []
        if not o:
            continue
        for b in exp(o[0]):
            if b in pages(cpu) and len(o) > 1 and exp(o[1]):
                for x in exp(o[1]):
                    got.add((b, x))
                    if b in (0xDD, 0xFD) and x == 0xCB:
                        got |= {(b << 8 | x, y) for y in o[3:] if isinstance(y, int)}
            else:
                got.add((0, b))
    return got


def coverage(c, cpu, tab):
    """nothing the processor's table had is lost (opcodes and spellings confirmed against the reference by hand)"""
    d = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'instructions.json')))
    got = opcodes(cpu, tab)
    where = 'i%s.c' % cpu
    for pg, l in d['opcodes'][cpu].items():
        for i in range(0, len(l), 2):
            o = (int(pg, 16), int(l[i:i + 2], 16))
            if o not in got:
                c.bad('coverage', '%s:%s%s' % (cpu, pg if pg != '0' else '', l[i:i + 2]), where, 'no instruction gives the opcode %s%s any more' % (pg + ' ' if pg != '0' else '', l[i:i + 2]))
            else:
                c.good('coverage', '%s %s%s' % (cpu, pg if pg != '0' else '', l[i:i + 2]))
    texts = {shape(E.text).replace('\x01', '?') for E in tab}
    for t in d['spellings'][cpu]:
        if t not in texts:
            c.bad('coverage', '%s:"%s"' % (cpu, t), where, '"%s" is not assembled any more' % t)
        else:
            c.good('coverage', '%s "%s"' % (cpu, t))


def sizes(c, m, fn, fs, tab):
    """REP and SEP: the sizes in force after them"""
    for E in tab:
        if E.text[:3] not in ('REP', 'SEP') or not E.items:
            continue
        want = 16 if E.text[:3] == 'REP' else 8
        for n in range(-128, 256):
            it, yes, no = decode.decode(m, fn, E.e, fs, {'pin': n})
            yes = [x for x in yes if [y[2] for y in x.ev if y[0] == 'operand'] == [NUM]]
            key = '%s:%d' % (E.key, n)
            if len(yes) != 1:
                c.bad('sizes', key, E.where, '%s of %d has %d outcomes' % (E.text, n, len(yes)))
                continue
            for g, b, w in (('g_index_size', 16, 'index registers'), ('g_accu_size', 32, 'accumulator')):
                v = yes[0].mem.get(('g', g), sym(('m', ('g', g))))
                ok = v == want if n & b else v == sym(('m', ('g', g)))
                if not ok:
                    c.bad('sizes', key, E.where, 'after %s %d the size of the %s is taken as %s' % (E.text[:3], n, w, v if isinstance(v, int) else 'before' if v == sym(('m', ('g', g))) else '?'))
                else:
                    c.good('sizes', '%s %d %s' % (E.text, n, w))


def run():
    ck = Check('P07', 'Every instruction is assembled to the machine code of its processor')
    ck.rule('encoding', 'every path on which evaluate_token() accepts a line for an entry of the table writes the opcode, the post bytes and the operands of that instruction as the reference of the processor has them')
    ck.rule('operands', 'every operand that fits (each number, a label, a calculation) is accepted by one of the entries for the text')
    ck.rule('width', 'of the forms of several widths the one asked for (.B/.W/.L, .8BIT/.16BIT/.24BIT) or the shortest that holds a number is used')
    ck.rule('registers', 'EXG, TFR, PSH and PUL name exactly the registers of the source')
    ck.rule('selection', 'no entry is hidden by an earlier one that takes its text as an operand')
    ck.rule('lookup', 'the tables by first letter, as the generator writes them, hold all entries of each letter')
    ck.rule('next', 'an entry that is given up leaves no trace: nothing written, the source where it was, its calculations deleted')
    ck.rule('sizes', 'REP and SEP set the sizes of the accumulator and the index registers in force')
    ck.rule('coverage', 'no opcode and no spelling of an instruction is lost')
    for cpu in CPUS:
        ir.load_many(['wla-' + cpu, 'gen-' + cpu])
    ck.parallel(check_cpu, [(cpu, i, PARTS) for cpu in CPUS for i in range(PARTS)])
    ck.floor('encoding', 20000)
    ck.floor('operands', 12000)
    ck.floor('width', 1500)
    ck.floor('registers', 1000)
    ck.floor('selection', 10000)
    ck.floor('lookup', 15 * 256)
    ck.floor('next', 10000)
    ck.floor('sizes', 4 * 384)
    ck.floor('coverage', 13000)
    return ck.finish('Every entry of the instruction tables of 15 processors, on every path of evaluate_token() for a source line that spells it (operands: any number, label, calculation, or no operand), '
                     'and the lookup of the entries by their first letter.', [
                         'lib/isa restates the reference manuals correctly', 'what an operand text means is input_number()\'s business (P01)'])
