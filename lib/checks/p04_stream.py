"""P04: every pass reads every record of the assembler's internal data stream the way it was written, and advances the address by the same
number of bytes; constants leave phase 4 in the byte order of the target."""
import ir, absint, stream
from absint import TOP, State, add, sym, parts, single
from common import Check
from stream import POS, BAD
from ir import AnalysisBroken

READERS = ['phase_3', 'phase_4', 'listfile_collect', 'data_stream_parser_parse']
# records that move the address by what they say about sections, origins and structures rather than by emitted bytes
CONTROL = set('ASsPpOBe')


def delta(v, k):
    d = add(v, sym(k), -1)
    return d


def canon(d):
    """'D' swaps pairs: 2*(n/2) is n (odd sizes are rejected when the file is included)"""
    if isinstance(d, tuple) and d[0] == 'L' and d[1] == 0 and len(d[2]) == 1:
        (x, k), = d[2]
        if k == 2 and isinstance(x, tuple) and x[:2] == ('e', 'sdiv') and x[3] == 2:
            return x[2] if x[2][0] == 'L' else sym(x[2])
    return d


def byte(v, k, n=0):
    """byte k of v as (base value, index), 0 for a zero byte, None unknown"""
    if n > 12 or v is TOP:
        return None
    if isinstance(v, int):
        return 0 if (v >> (8 * k)) & 255 == 0 else ('const', (v >> (8 * k)) & 255)
    if v[0] == 'e':
        op, a = v[1], v[2]
        b = v[3] if len(v) > 3 else None
        if op == 'and' and isinstance(b, int):
            m = (b >> (8 * k)) & 255
            return byte(a, k, n + 1) if m == 255 else 0 if m == 0 else None
        if op in ('ashr', 'lshr') and isinstance(b, int) and b % 8 == 0:
            return byte(a, k + b // 8, n + 1)
        if op == 'or':
            x, y = byte(a, k, n + 1), byte(b, k, n + 1)
            return y if x == 0 else x if y == 0 else None
        if op == 'mul':
            return None
        if op == 'trunc':
            return byte(b, k, n + 1) if k == 0 or (a[1:].isdigit() and int(a[1:]) > 8 * k) else 0
        return (v, k)
    if v[0] == 'L':
        if v[1] == 0 and len(v[2]) == 1:
            (x, c), = v[2]
            j = 0
            while c % 256 == 0 and c:
                c //= 256
                j += 1
            if c == 1:
                return 0 if k < j else byte(x, k - j, n + 1) if isinstance(x, tuple) and x[0] == 'e' else (x, k - j)
        return (v, k)
    return (v, k)


class R4(stream.Reader):
    """phase_4: values that are not known get a name of their own, so that the bytes cut out of them can be compared"""

    def prepare(s, it):
        if s.fn.name == 'phase_4':
            name_unknowns(it)


def name_unknowns(it):
    step = it.step

    def f(i, st):
        v = step(i, st)
        if v is TOP and i.op in ('load', 'fptosi', 'sext', 'zext', 'trunc', 'add', 'sub', 'mul', 'and', 'or', 'ashr') and (i.ty or '').startswith('i') and i.ty != 'i1':
            return sym(('u', i.id))
        return v
    it.step = f


def summarise(m, mods, cells, fn, fns, only=None):
    """functions that advance the address: {name: [(ret, {cell: delta})]}"""
    out = {}

    def rec(n, depth=0):
        if n in out or depth > 6:
            return
        f = m.fn(n)
        for i in f.calls():
            if i.callee in m._raw and i.callee != n and cells & {('g', g) for g in mods(i.callee)}:
                rec(i.callee, depth + 1)

        def oncall(it, i, st):
            if i.callee in out:
                r = []
                for ret, ds, _ in out[i.callee]:
                    q = st.copy()
                    for c, d in ds.items():
                        q.mem[c] = add(q.mem.get(c, sym(('m', c))), d)
                    r.append((ret, q))
                return r
            return None
        it = absint.Interp(f, oncall, mods, track=lambda y: False)
        res = it.run(0, State({}, {}, (), {}))
        l = []
        for t, st in res:
            ds = {c: delta(st.mem[c], ('m', c)) for c in cells if c in st.mem}
            ds = {c: d for c, d in ds.items() if not (isinstance(d, int) and d == 0)}
            x = (t[1], ds, None)
            if x not in l:
                l.append(x)
        out[n] = l
    for i in fn.calls():
        if i.callee in m._raw and (only in mods(i.callee) if only else cells & {('g', g) for g in mods(i.callee)}):
            rec(i.callee)
    return out


def number(n):
    return tuple(('c', x) for x in str(n))


def bits_rule(ck, p, readers, recs, addr):
    """.BITS: product of the passes over the finite domain of bit positions 0..8 and widths 1..32.  Every pass must have counted
    ceil(bits so far / 8) bytes after each record; phase 4 that many once the open byte is flushed."""
    kinds = [k for k in recs if k[0] == '+' and k != '+999 ']
    if not kinds or '+999 ' not in recs:
        raise AnalysisBroken('%s: no .BITS records' % p)
    # the state of a pass: the cells besides its counters that a '+' record changes
    cand = {}
    for n, R in readers.items():
        wh = len(R.loops) - 1
        init = {('phi', q.id): sym(('phi', q.id)) for q in R.header_phis(wh)}
        cs = set()
        for k in kinds:
            r = recs[k][0]
            ok, _ = R.run(wh, r, {('iv', ('tok', r[1][2])): (1, 32)})
            for s in ok:
                for q in R.header_phis(wh):
                    if s.regs.get(q.id, TOP) != sym(('phi', q.id)):
                        cs.add(('phi', q.id))
                for c, v in s.mem.items():
                    if c[0] in 'gl' and v != sym(('m', c)) and not (c[0] == 'l' and not scalar(R.fn, c)):
                        cs.add(c)
        own = {('g', i.ops[1][1]) for i in R.fn.instrs() if i.op == 'store' and isinstance(i.ops[1], list) and i.ops[1][0] == 'g'}
        cand[n] = {c for c in cs - set(addr[n]) if c[0] != 'g' or c in own}
    for k in kinds:
        i = recs[k][2]
        tail = recs[k][0]
        j = next(x for x, y in enumerate(tail) if y[0] == 'v')
        for n, R in readers.items():
            wh = len(R.loops) - 1
            # state cells that matter: start from 0, keep those with known values afterwards
            init0 = {c: 0 for c in cand[n]}
            seen, work, bad, cnt = set(), [(0, tuple(sorted(init0.items(), key=repr)))], None, 0
            while work and not bad:
                pos, stt = work.pop()
                if (pos, stt) in seen:
                    continue
                seen.add((pos, stt))
                if len(seen) > 600:
                    raise AnalysisBroken('%s: .BITS state of %s() does not stay finite' % (p, n))
                for w in range(1, 33):
                    r = tail[:j] + number(w) + tail[j + 1:]
                    ini = dict(stt)
                    for a in addr[n]:
                        ini[a] = 0
                    ok, _ = R.run(wh, r, {}, ini, True)
                    cnt += 1
                    for s in ok:
                        if s.mem[BAD]:
                            continue
                        now = {a: value(s, a) for a in addr[n]}
                        new = (pos + w) % 8
                        full = (pos + w) // 8
                        opened = -(-(pos + w) // 8) - (1 if pos else 0)
                        want = full if n == 'phase_4' else opened
                        got = set(now.values())
                        if got != {want}:
                            bad = '%d bits behind %d bits of an open byte: %s() counts %s bytes, expected %d' % (w, pos, n, sorted(got, key=str), want)
                        nst = tuple(sorted(((c, value(s, c)) for c in cand[n]), key=repr))
                        nst = tuple((c, v if isinstance(v, int) and abs(v) <= 8 else TOP) for c, v in nst)
                        work.append((new, nst))
                # the end of the data
                ini = dict(stt)
                for a in addr[n]:
                    ini[a] = 0
                ok, _ = R.run(wh, recs['+999 '][0], {}, ini, True)
                for s in ok:
                    got = {value(s, a) for a in addr[n]}
                    want = {(1 if pos else 0) if n == 'phase_4' else 0}
                    if got != want:
                        bad = 'end of .BITS data with %d bits in the open byte: %s() counts %s bytes, expected %s' % (pos, n, sorted(got, key=str), sorted(want))
            if bad:
                ck.bad('bits', 'bits %s' % n, '%s record %r written at %s' % (p, k, i.loc()), bad)
            else:
                ck.good('bits', '%s %s %r: %d states x 32 widths' % (p, n, k, len(seen)))


def scalar(fn, c):
    d = fn.defs.get(c[1])
    return d is not None and d.op == 'alloca' and str(d.x.get('t', d.ty)).startswith(('i32', 'i64', 'i8')) or d is None


def value(s, c):
    return s.regs.get(c[1], TOP) if c[0] == 'phi' else s.mem.get(c, TOP)


def loc_of(fn, iid):
    return fn.defs[iid].loc()


def run():
    ck = Check('P04', 'All passes agree on the internal data stream')
    ck.rule('parse', 'a pass that meets a record written by the parser consumes exactly its fields, with their types, and has an accepting path')
    ck.rule('advance', 'the address advances by the same number of bytes in phase 3, phase 4, the address scan of the calculator and the list file')
    ck.rule('order', 'the bytes a record emits in phase 4 are bytes 0..n-1 of one value, ascending on little-endian, descending on big-endian targets')
    ck.rule('bits', 'for every position in the open byte and every width, all passes count the bytes of .BITS data alike')
    progs = sorted(p for p in ir.programs() if p.startswith('wla-'))
    mods_ = ir.load_norm(progs)
    nrec = sum(ck.parallel(lambda c, p: one(c, p, mods_[p]), progs))
    ck.floor('bits', 4 * 3 * len(progs))
    ck.floor('parse', 2500)
    ck.floor('advance', 1500)
    ck.floor('order', 300)
    ck.notes.append('%d record templates in %d programs' % (nrec, len(progs)))
    return ck.finish('All %d record shapes that the parser and the instruction encoders of 16 assemblers write into the internal data stream; each is interpreted abstractly in the loops of phase_3(), '
                     'phase_4(), listfile_collect() and data_stream_parser_parse(), from behind the read of the record letter to the next turn of the loop.' % nrec,
                     ['format strings of writes that cannot be resolved statically are not covered (none on the pinned tree)',
                      'the number of bits of a .BITS record is within 1..32, as checked where it is written',
                      '.INCBIN with byte swapping has an even size, as checked where it is written'])


def one(ck, p, m):
    w, unres, prep = stream.writers(m)
    recs = {}
    for r, f, i in w:
        recs.setdefault(stream.text(r), (r, f, i))
    if len(recs) < 40:
        raise AnalysisBroken('%s: only %d record shapes found' % (p, len(recs)))
    for f, i in unres:
        ck.notes.append('%s: %s format not resolved' % (p, i.loc()))
    mods = absint.modsets(m)
    rd, ac = {}, {}
    deltas = {}     # reader -> record -> set of deltas
    for n in READERS:
        R = R4(m, n, mods)
        rd[n] = R
        if not R.loops:
            raise AnalysisBroken('%s: %s() does not read the stream' % (p, n))
        for wh in range(len(R.loops)):
            full = wh == len(R.loops) - 1
            cells, adv = [], None
            if full:
                if n == 'phase_4':
                    cells = p4cells(m, R, recs, mods)
                    R.summaries = {k: [(r, d) for r, d, _ in v] for k, v in summarise(m, mods, set(cells), R.fn, None).items()}
                    R.emit = {k for k in R.summaries if any(r == 1 and set(d) >= set(cells) for r, d in R.summaries[k])}
                    ck.notes.append('%s: counters %s, stepped by %s' % (p, [c[1] for c in cells], sorted(R.emit)))
                elif n == 'listfile_collect':
                    cells = None
                else:
                    ok, _ = R.run(wh, recs['O%d '][0])
                    c = [k for k, v in ok[0].mem.items() if v == sym(('tok', 0)) and k[0] in 'gl' and all(s.mem.get(k) == sym(('tok', 0)) for s in ok)] if ok else []
                    ok, _ = R.run(wh, recs['d%d '][0])
                    cells = [k for k in c if ok and all(delta(s.mem.get(k, sym(('m', k))), ('m', k)) == 1 for s in ok)]
                    if len(cells) != 1:
                        raise AnalysisBroken('%s: address cell of %s() not found: %s' % (p, n, c))
            if full:
                ac[n] = cells
            for k, (r, f, i) in sorted(recs.items()):
                fa = {}
                if k[0] == '+' and k != '+999 ':
                    fa = {('iv', ('tok', r[1][2])): (1, 32)}
                ok, err = R.run(wh, r, fa)
                where = '%s:%s' % (p, n)
                key = '%s/%s/%s' % (n, wh, k.strip())
                bad = None
                if not full and k[0] == '+':
                    continue        # only RAM sections and discarded sections pass here: .BITS cannot occur
                if full and not ok:
                    bad = 'no path accepts the record %r written at %s' % (k, i.loc())
                for s in ok:
                    if s.mem[BAD]:
                        b = s.mem[BAD]
                        bad = 'the record %r written at %s is misread at %s: %s' % (k, i.loc(), loc_of(R.fn, b[1]), b[2])
                    elif any(x != ('c', ' ') for x in r[s.mem[POS]:]):
                        bad = 'the record %r written at %s is left with %r unread' % (k, i.loc(), stream.text(r[s.mem[POS]:]))
                # an error path must not come from a short read of a well-formed record
                if bad:
                    ck.bad('parse', 'parse ' + key, where, bad)
                else:
                    ck.good('parse', where + ' ' + k)
                if not full or bad:
                    continue
                if cells is not None:
                    ds = [frozenset(canon(delta(s.mem.get(c, sym(('m', c))), ('m', c))) for s in ok) for c in cells]
                    deltas.setdefault(n, {})[k] = ds
                else:
                    ds = {('phi', q.id): frozenset(canon(delta(s.regs.get(q.id, TOP), ('phi', q.id))) for s in ok) for q in R.header_phis(wh)}
                    for a in R.fn.instrs():
                        if a.op == 'alloca':
                            c = ('l', a.id)
                            ds[c] = frozenset(canon(delta(s.mem.get(c, sym(('m', c))), ('m', c))) for s in ok)
                    deltas.setdefault(n, {})[k] = ds
                if n == 'phase_4' and k[0] not in CONTROL:
                    order(ck, p, R, k, i, ok, cells)
    compare(ck, p, recs, deltas)
    roles = deltas['roles']
    bits_rule(ck, p, rd, recs, {n: (roles if n == 'listfile_collect' else ac[n]) for n in READERS})
    return len(recs)


def p4cells(m, R, recs, mods):
    """the address counters of phase 4: the cell .ORG sets, and every global the emitting functions step in lockstep with it"""
    ok, _ = R.run(len(R.loops) - 1, recs['O%d '][0])
    org = [k for k, v in ok[0].mem.items() if k[0] == 'g' and v == sym(('tok', 0))] if ok else []
    for g in org:
        sm = summarise(m, mods, {('g', h) for h in m.globals}, R.fn, None, only=g[1])
        sm = {n: l for n, l in sm.items() if any(ret == 1 and d.get(g) == 1 for ret, d, _ in l)}
        if not sm:
            continue
        cells = None
        for n, l in sm.items():
            for ret, d, _ in l:
                if ret == 1:
                    x = {c for c, v in d.items() if v == 1}
                    cells = x if cells is None else cells & x
        if cells and g in cells:
            return sorted(cells, key=lambda c: (c != g, c))
    raise AnalysisBroken('%s: address counters of phase_4() not found' % m.name)


def swap_requested(R, facts):
    """the path is one on which the parser asked for the opposite byte order of one 16-bit item (SPC-700, 65816 headers):
    the record '.' was read before, or the calculation carries special id 4"""
    if not hasattr(R, 'flip'):
        ok, _ = R.run(len(R.loops) - 1, (('c', '.'), ('c', ' ')))
        R.flip = {i.id for i in R.header_phis(len(R.loops) - 1) if ok and all(q.regs.get(i.id) == 1 for q in ok)}
        sy = ir.Sym(R.fn)
        R.special = {i.id for i in R.fn.instrs() if i.op == 'load' and (lambda q: q[0] == 'f' and q[2] == 'special_id')(sy.path(i.ops[0]))}
    return any(f[0] == 'iv' and v == (1, 1) and f[1][0] == 'phi' and f[1][1] in R.flip or
               f[0] == 'iv' and v == (4, 4) and f[1][0] == 'u' and f[1][1] in R.special for f, v in facts.items())


def sequences(ev, facts):
    """[(values emitted one after the other, facts)] of a path: its straight part, and the turns of its loops"""
    out = [([e[1] for e in ev if e[0] == 'out'], facts)]
    for e in ev:
        if e[0] == 'rep':
            out += sequences(e[2], facts)
        elif e[0] == 'alt':
            for f, x in e[2]:
                g = dict(facts)
                g.update(dict(f))
                out += sequences(x, g)
    return out


def order(ck, p, R, k, wi, ok, cells):
    for s in ok:
        seqs = sequences(s.ev, s.facts)
        for q, facts in seqs:
            if len(q) < 2 or any(v == ('pad',) for v in q):
                continue
            bs = [byte(v, 0) for v in q]
            if any(not isinstance(b, tuple) or b[0] == 'const' for b in bs):
                continue
            where = '%s:phase_4 record %s' % (p, k)
            if len({b[0] for b in bs}) == len(bs) and all(b[1] == 0 for b in bs):
                continue        # separate bytes (.INCBIN)
            if len({b[0] for b in bs}) != 1:
                ck.bad('order', 'order-mix %s' % k, where, 'the record %r (written at %s) emits bytes of different values: %s' % (k, wi.loc(), q))
                continue
            idx = [b[1] for b in bs]
            asc = list(range(len(idx)))
            le = facts.get(('iv', ('m', ('g', 'g_little_endian'))))
            ne = facts.get(('ne', ('m', ('g', 'g_little_endian'))), frozenset())
            little = True if le == (1, 1) or 0 in ne else False if le == (0, 0) or 1 in ne else None
            if little is None:
                ck.bad('order', 'order-endian %s' % k, where, 'the record %r (written at %s) emits its bytes without regard to the byte order of the target' % (k, wi.loc()))
                continue
            flipped = swap_requested(R, facts)
            want = asc if little != bool(flipped) else asc[::-1]
            if idx != want:
                ck.bad('order', 'order %s' % k, where, 'the record %r (written at %s) emits bytes %s of its value on a %s-endian target, expected %s' % (k, wi.loc(), idx, 'little' if little else 'big', want))
            else:
                ck.good('order', where)


def text(d):
    return 'unknown' if d is TOP else ir_show(d)


def ir_show(d):
    if isinstance(d, int):
        return str(d)
    c, t = parts(d) if parts(d) else (0, [(d, 1)])
    l = ['%s%s' % ('' if k == 1 else '%d*' % k, nm(x)) for x, k in sorted(t, key=str)]
    return ' + '.join(l + ([str(c)] if c else [])) or '0'


def nm(x):
    if x[0] == 'tok':
        return 'field%d' % x[1]
    if x[0] == 'trip':
        return 'iterations'
    if x[0] == 'm':
        return str(x[1][-1])
    return str(x)


def shape(ds):
    """trip counts differ in name only"""
    out = set()
    for d in ds:
        if isinstance(d, tuple) and d[0] == 'L':
            d = absint.lin(d[1], [((('trip',) if isinstance(x, tuple) and x[0] == 'trip' else x), k) for x, k in d[2]])
        out.add(d)
    return frozenset(out)


def compare(ck, p, recs, deltas):
    ref = deltas['data_stream_parser_parse']
    p3 = deltas['phase_3']
    for k, (r, f, i) in sorted(recs.items()):
        if k not in ref or k not in p3 or k[0] in CONTROL or k[0] == '+':
            continue        # .BITS: see bits_rule
        a, b = shape(ref[k][0]), shape(p3[k][0])
        where = '%s record %r written at %s' % (p, k, i.loc())
        if None in a or None in b:
            ck.notes.append('%s: bytes not computed' % where)
            continue
        if a != b:
            ck.bad('advance', 'advance phase_3/dsp %s' % k.strip(), where, 'phase_3() advances by %s, data_stream_parser_parse() by %s' % (sh(b), sh(a)))
        else:
            ck.good('advance', where)
        q = deltas['phase_4'].get(k)
        if q is not None and not any(None in x for x in q):
            for c, x in enumerate(q):
                if shape(x) != a:
                    ck.bad('advance', 'advance phase_4 %s' % k.strip(), where, 'a counter of phase_4() advances by %s, phase_3() by %s' % (sh(x), sh(b)))
                    break
            else:
                ck.good('advance', where)
    # the list file: one counter per role, found by the records they agree on
    lf = deltas['listfile_collect']
    plain = [k for k in recs if k in lf and k in ref and k[0] not in CONTROL and k[0] != '+' and None not in shape(ref[k][0])]
    ids = set()
    for k in plain:
        ids |= set(lf[k])
    score = {q: sum(shape(lf[k].get(q, ())) == shape(ref[k][0]) for k in plain if shape(ref[k][0]) != frozenset([0])) for q in ids}
    if not score:
        raise AnalysisBroken('%s: no counters in listfile_collect()' % p)
    best = max(score.values())
    n = len([k for k in plain if shape(ref[k][0]) != frozenset([0])])
    roles = [q for q in score if score[q] > n * 0.6]
    if not roles:
        raise AnalysisBroken('%s: byte counters of listfile_collect() not found' % p)
    deltas['roles'] = roles
    if len(roles) < 2:
        ck.notes.append('%s: only %d list file counters' % (p, len(roles)))
    for k in plain:
        for q in roles:
            i = recs[k][2]
            where = '%s record %r written at %s' % (p, k, i.loc())
            if shape(lf[k].get(q, ())) != shape(ref[k][0]):
                if k[0] in 'fk' or None in lf[k].get(q, ()):
                    continue
                ck.bad('advance', 'advance listfile %s' % k.strip(), where, 'a counter of listfile_collect() advances by %s, phase_3() by %s' % (sh(lf[k].get(q, ())), sh(p3[k][0])))
            else:
                ck.good('advance', where)


def sh(ds):
    return '{' + ', '.join(sorted(text(d) for d in ds)) + '}'
