"""P01: the two expression calculators (stack.c compute_stack in every assembler, wlalink/write.c
compute_stack) give every operator the documented meaning, the same one on both sides."""
import ir, flow, gval, regions
from gval import gate, cmp_, binop, add, isnum, neg
from common import Check
from ir import AnalysisBroken

PURE = ['ceil', 'floor', 'fabs', 'sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'log', 'log10', 'pow', 'fmod', 'fmin', 'fmax']
KEEP = ['print_text', 'print_error', 'get_file_name', 'get_source_file_name', 'find_stack', 'parse_stack', 'compute_stack', '_get_bank_of_address',
        '_comparing_a_string_with_a_number', 'strcmp']

OPS = ['ADD', 'SUB', 'MULTIPLY', 'LEFT', 'RIGHT', 'OR', 'AND', 'DIVIDE', 'POWER', 'SHIFT_LEFT', 'SHIFT_RIGHT', 'MODULO', 'XOR', 'LOW_BYTE', 'HIGH_BYTE', 'NOT', 'BANK',
       'COMPARE_LT', 'COMPARE_GT', 'COMPARE_EQ', 'COMPARE_NEQ', 'COMPARE_LTE', 'COMPARE_GTE', 'LOGICAL_OR', 'LOGICAL_AND', 'LOW_WORD', 'HIGH_WORD', 'BANK_BYTE',
       'ROUND', 'CEIL', 'FLOOR', 'MIN', 'MAX', 'SQRT', 'ABS', 'COS', 'SIN', 'TAN', 'ACOS', 'ASIN', 'ATAN', 'NEGATE', 'ATAN2', 'COSH', 'SINH', 'TANH', 'LOG', 'LOG10', 'POW', 'CLAMP', 'SIGN']

RELS = {'COMPARE_LT': 'slt', 'COMPARE_GT': 'sgt', 'COMPARE_EQ': 'eq', 'COMPARE_NEQ': 'ne', 'COMPARE_LTE': 'sle', 'COMPARE_GTE': 'sge'}
A, B, C3 = ('V', -2), ('V', -1), ('V', -3)
SIGN = ('SIGN',)


def D(x):
    return ('d', repr(float(x)) if x else '0')


def I(x):
    return ('int', x)


def FP(x):
    return ('fp', x)


def call(n, *a):
    return ('call', n, tuple(a))


def sgn(x):
    return gate(cmp_('eq', SIGN, 1), ('fneg', x), x)


def boolean(c):
    return gate(c, D(1), D(0))


def oracle():
    """operator -> (items removed from the stack, value of the slot that becomes the top, error condition)"""
    o = {}
    c2 = lambda v, err=None: (1, v, err)
    un = lambda v, err=None: (0, v, err)
    ib = lambda op: FP(binop(op, 'i32', I(A), I(B)))
    o['ADD'] = c2(binop('fadd', 'double', A, B))
    o['SUB'] = c2(('fsub', A, B))
    o['MULTIPLY'] = c2(binop('fmul', 'double', A, B))
    o['OR'], o['AND'], o['XOR'] = c2(ib('or')), c2(ib('and')), c2(ib('xor'))
    o['SHIFT_LEFT'], o['SHIFT_RIGHT'] = c2(ib('shl')), c2(ib('ashr'))
    o['DIVIDE'] = c2(('fdiv', A, B), [('cmp', 'oeq', B, D(0))])
    o['MODULO'] = c2(('fp', ('srem', I(A), I(B))), [('cmp', 'eq', I(B), 0)])
    o['POWER'] = c2(call('pow', A, B))
    o['POW'] = c2(sgn(call('pow', A, B)))
    o['ATAN2'] = c2(sgn(call('atan2', A, B)))
    o['LOW_BYTE'] = un(sgn(FP(binop('and', 'i32', I(B), 0xff))))
    o['HIGH_BYTE'] = un(sgn(FP(binop('and', 'i32', ('ashr', I(B), 8), 0xff))))
    o['BANK_BYTE'] = un(sgn(FP(binop('and', 'i32', ('ashr', I(B), 16), 0xff))))
    o['LOW_WORD'] = un(sgn(FP(binop('and', 'i32', I(B), 0xffff))))
    o['HIGH_WORD'] = un(sgn(FP(binop('and', 'i32', ('ashr', I(B), 16), 0xffff))))
    o['COMPARE_LT'] = c2(boolean(cmp_('olt', A, B)))
    o['COMPARE_GT'] = c2(boolean(cmp_('olt', B, A)))
    o['COMPARE_LTE'] = c2(boolean(('not', cmp_('olt', B, A))))
    o['COMPARE_GTE'] = c2(boolean(('not', cmp_('olt', A, B))))
    o['COMPARE_EQ'] = c2(boolean(cmp_('oeq', A, B)))
    o['COMPARE_NEQ'] = c2(boolean(('not', cmp_('oeq', A, B))))
    o['LOGICAL_OR'] = c2(both(lambda a, b: gate(a, D(1), gate(b, D(1), D(0)))))
    o['LOGICAL_AND'] = c2(both(lambda a, b: gate(a, gate(b, D(1), D(0)), D(0))))
    for n, f in (('CEIL', 'ceil'), ('FLOOR', 'floor'), ('ABS', 'fabs'), ('COS', 'cos'), ('SIN', 'sin'), ('TAN', 'tan'), ('ATAN', 'atan'), ('COSH', 'cosh'),
                 ('SINH', 'sinh'), ('TANH', 'tanh'), ('LOG', 'log'), ('LOG10', 'log10')):
        o[n] = un(sgn(call(f, B)))
    o['SQRT'] = un(sgn(call('sqrt', B)), [('cmp', 'olt', B, D(0))])
    unit = [('cmp', 'olt', B, D(-1)), ('cmp', 'ogt', B, D(1))]
    o['ACOS'] = un(sgn(call('acos', B)), unit)
    o['ASIN'] = un(sgn(call('asin', B)), unit)
    o['NEGATE'] = un(('fneg', B))
    o['MIN'] = c2(sgn(gate(cmp_('olt', B, A), B, A)))
    o['MAX'] = c2(sgn(gate(cmp_('ogt', B, A), B, A)))
    o['SIGN'] = un(sgn(gate(cmp_('oeq', B, D(0)), D(0), gate(cmp_('olt', B, D(0)), D(-1), D(1)))))
    o['CLAMP'] = (2, sgn(gate(cmp_('olt', C3, A), A, gate(cmp_('olt', B, C3), B, C3))), None)
    i = I(B)
    delta = ('fsub', B, FP(i))
    o['ROUND'] = un(sgn(gate(cmp_('olt', delta, D(0)), gate(cmp_('ole', delta, D(-0.5)), FP(add(i, -1)), FP(i)),
                             gate(cmp_('olt', delta, D(0.5)), FP(i), FP(add(i, 1))))))
    return o


def both(f):
    nz = lambda X: cmp_('one', X, D(0))
    return f(nz(A), nz(B))


def subst(e, fn):
    """rewrite sub-expressions top-down"""
    r = fn(e) if isinstance(e, tuple) else None
    if r is not None:
        return r
    if isinstance(e, tuple):
        return tuple(subst(x, fn) if isinstance(x, tuple) else x for x in e)
    return e


VALARR = set()   # paths of the value stacks, filled by Calc
STRING = 5   # STACK_ITEM_TYPE_STRING


def is_strptr(x):
    """load of a string pointer from a local array (the assembler's parallel stack of strings)"""
    return isinstance(x, tuple) and x[:1] == ('ld',) and isinstance(x[1], tuple) and x[1][0] == 'x' and x[1][1][0] == 'l' and x[1][1] not in VALARR


def strslot(x):
    """stack slot of a strcmp() operand"""
    idx = None
    if is_strptr(x):
        idx = x[1][2]
    elif isinstance(x, tuple) and x[:1] == ('addr',) and x[1][0] == 'f' and x[1][1][0] == 'x':
        idx = x[1][1][2]
    c, t = gval.lin(idx) if idx is not None else (0, {})
    return ('STR', c) if len(t) == 1 else ('STR', '?')


def prepare(e, prog, strings=False):
    """strings=False: operands are numbers; True: both operands are strings.  No operand is missing"""
    def fn(x):
        if x[:1] == ('ld',) and len(x) == 2 and isinstance(x[1], tuple) and x[1][0] == 'f' and x[1][2] == 'type':
            return STRING if strings else 0
        if x[:1] == ('cmp',) and x[3] == 0 and is_strptr(x[2]) and x[1] in ('eq', 'ne'):
            return int((x[1] == 'ne') == strings)
        if x[:1] == ('call',) and x[1] == '_comparing_a_string_with_a_number':
            return 0
        if x[:2] == ('call', 'strcmp'):
            return ('call', 'strcmp', (strslot(x[2][0]), strslot(x[2][1])))
        if x[:2] == ('call', 'fabs') and len(x) == 3:
            y = subst(x[2][0], fn)
            return ('g', ('cmp', 'olt', y, D(0)), ('fneg', y), y)
        if x[:2] in (('call', 'fmin'), ('call', 'fmax')) and len(x) == 3:
            y, z = subst(x[2][0], fn), subst(x[2][1], fn)
            return ('g', ('cmp', 'olt' if x[1] == 'fmin' else 'ogt', y, z), y, z)
    return subst(e, fn)


def states(st, c, truth):
    """cells refining st in which condition c is `truth`"""
    return [s for s, r in regions.cells(lambda s: regions.cond(c, s), st) if r == truth]


class Calc:
    def __init__(s, prog, mod):
        s.prog, s.mod = prog, mod
        s.f = f = mod.fn('compute_stack')
        S = ir.Sym(f)
        s.H = None
        cand = {}
        for i in f.instrs():
            if i.op == 'load':
                p = S.path(i.ops[0])
                if p[0] == 'f' and p[2] == 'type':
                    for h, body in f.loops().items():
                        if i.bb in body:
                            cand[h] = len(body)
        if not cand:
            raise AnalysisBroken('%s: compute_stack has no loop over the stack items' % prog)
        s.H = max(cand, key=cand.get)
        body = f.loops()[s.H]
        memo = {}

        def isfail(b):
            if b not in memo:
                memo[b] = b not in body and flow.return_values(f, b) == {0}
            return memo[b]
        s.isfail = isfail
        # header of the loop may be reached through a latch; failing blocks inside the natural loop do not exist
        s.stops = [s.H] + [b for b in range(len(f.blocks)) if b not in body and not isfail(b)]
        # the value stacks and the stack pointer, from how a plain value is pushed
        s.arr, s.tphi = {}, None
        res, _, _, _ = s.eval(0, None)
        for q, v in res.items():
            if q[0] == 'x' and q[1][0] == 'l':
                t = repr(v)
                for fld in ('value_ram', 'value_rom', 'value'):
                    if "'%s')" % fld in t:
                        s.arr.setdefault(fld, q[1])
                        if isinstance(q[2], tuple) and q[2][0] == 'phi':
                            s.tphi = q[2]
                        break
        if s.tphi is None or ('value' not in s.arr and ('value_ram' not in s.arr or 'value_rom' not in s.arr)):
            raise AnalysisBroken('%s: compute_stack: cannot find the value stack (%s)' % (prog, s.arr))
        s.tid = s.tphi[1]
        VALARR.update(s.arr.values())

    def eval(s, typ, k):
        f = s.f

        def assume(e):
            if e[0] == 'ld' and e[1][0] == 'f' and e[1][2] == 'type' and 'stack_items' not in repr(e) and "('arg'" not in repr(e):
                return typ
            if k is not None and e[0] == 'int' and e[1][0] == 'ld' and e[1][1][0] == 'f' and e[1][1][2] in ('value', 'value_ram', 'value_rom'):
                return k
        ev = gval.Eval(f, s.H, s.stops, assume, pure=PURE, isfail=s.isfail)
        if s.H not in ev.inedges:
            return {}, None, ev.failcond(), ev
        keys = set()
        for p, _ in ev.inedges[s.H]:
            keys |= set(ev.out[p])
        res = {q: ev.at(s.H, lambda p: ev.out[p][q] if q in ev.out[p] else ev.inval(q)) for q in keys}
        dt = None
        if getattr(s, 'tid', None) is not None:
            ph = f.defs[s.tid]
            inc = {p: v for v, p in ph.ops}
            dt = add(ev.at(s.H, lambda p: ev.val(inc[p])), s.tphi, -1)
        return res, dt, ev.failcond(), ev

    def canon(s, e, arr, tag='V'):
        if isinstance(e, tuple):
            if e[:1] == ('ld',) and e[1][0] == 'x' and e[1][1] == arr:
                d = add(e[1][2], s.tphi, -1)
                if isnum(d):
                    return (tag, d)
            if e[:1] == ('ld',) and e[1][0] == 'f' and e[1][2] == 'sign':
                return SIGN
            return tuple(s.canon(x, arr, tag) for x in e)
        return e

    def op(s, k, which):
        """(delta of the stack pointer, {slot: value}, fail condition, ev)"""
        res, dt, fc, ev = s.eval(1, k)
        arr = s.arr[which]
        out = {}
        for q, v in res.items():
            if q[0] == 'x' and q[1] == arr:
                d = add(q[2], s.tphi, -1)
                out[d] = s.canon(v, arr)
        fc = s.canon(fc, arr)
        for o in s.arr.values():
            if o != arr:
                fc = s.canon(fc, o, tag='W')
        base = [{('t', s.tphi): (2, regions.INF)}]
        for c, t in ev.alle.get(s.H, [])[:1]:
            if c is not True and len(ev.alle[s.H]) == 2:
                body = s.f.loops()[s.H]
                base = [x for b in base for x in states(b, s.canon(c, arr), t in body)]
        return dt, out, prepare(fc, s.prog), ev, base


def run():
    ck = Check('P01', 'assembler and linker give every operator the documented meaning')
    ck.rule('meaning', 'per operator: value stored on the value stack equals the documented function of its operands')
    ck.rule('arity', 'per operator: the stack pointer moves by (operands - 1)')
    ck.rule('strings', 'the six comparisons of two strings follow strcmp() order')
    ck.rule('error', 'per operator: a zero divisor / out-of-domain operand leaves through a FAILED return, a valid one does not')
    ck.rule('twin', 'linker: ROM value and RAM value are computed by the same function')
    ck.rule('push', 'operands are pushed unchanged, negated exactly when the item carries the negative sign')
    ck.rule('precedence', 'priority table orders the operators as doc/arithmetics.rst does')
    O = oracle()
    table = ir.programs()
    progs = [p for p in table if p.startswith('wla-')]
    mods = ir.load_many(progs, only=['stack.c'], keep=KEEP, into=['compute_stack'])
    seen, calcs = {}, []
    for p in progs:
        raw = repr(mods[p]._raw['compute_stack']) if 'compute_stack' in mods[p]._raw else None
        if raw is None:
            raise AnalysisBroken('%s: no compute_stack' % p)
        if raw in seen:
            seen[raw].append(p)
        else:
            seen[raw] = [p]
            calcs.append((p, Calc(p, mods[p]), [('value', 'stack.c')]))
    calcs.append(('wlalink', Calc('wlalink', ir.load('wlalink', only=['write.c'], keep=KEEP, into=['compute_stack'])), [('value_rom', 'write.c'), ('value_ram', 'write.c')]))
    for prog, c, which in calcs:
        for fld, src in which:
            if fld not in c.arr:
                raise AnalysisBroken('%s: no value stack for %s' % (prog, fld))
            # pushes
            res, dt, fc, ev = c.eval(0, None)
            arr = c.arr[fld]
            tops = {q: v for q, v in res.items() if q[0] == 'x' and q[1] == arr}
            okp = False
            for q, v in tops.items():
                v = c.canon(v, arr)
                if add(q[2], c.tphi, -1) == 0:
                    lds = set()
                    subst(v, lambda x: lds.add(x) if x[:1] == ('ld',) and x[1][0] == 'f' and x[1][2] == fld else None)
                    if len(lds) == 1:
                        x = lds.pop()
                        okp = regions.differ(prepare(v, prog), gate(cmp_('eq', SIGN, 1), ('fneg', x), x)) is None
            where = '%s compute_stack() [%s]' % (c.f.file, prog)
            if okp and dt == 1:
                ck.good('push', where)
            else:
                ck.bad('push', '%s:push:%s' % (src, fld), where, 'a VALUE item is not pushed as itself / its negation: %s (stack pointer %+d)' % ({str(q[2]): gval.show(v) for q, v in tops.items()}, dt if isnum(dt) else -99))
            for k, name in enumerate(OPS):
                if name in ('LEFT', 'RIGHT'):
                    continue
                if name in ('NOT', 'BANK'):
                    continue        # resolved by the linker only; width/bank of the destination decide (see DESIGN.md)
                dt, out, fc, ev, base = c.op(k, fld)
                drop, val, err = O[name]
                key = '%s:%s:%s' % (src, fld, name)
                line = op_line(c, ev)
                where = '%s:%d compute_stack() case SI_OP_%s [%s]' % (c.f.file, line, name, prog)
                if dt != -drop:
                    ck.bad('arity', key + ':arity', where, 'stack pointer changes by %s, %d expected' % (gval.show(dt) if dt is not None else '?', -drop))
                else:
                    ck.good('arity', where)
                slot = -drop - 1
                raw = out.get(slot, ('V', slot))
                got = prepare(raw, prog)
                if name in RELS:
                    sw = ('g', cmp_(RELS[name], ('call', 'strcmp', (('STR', -2), ('STR', -1))), 0), D(1), D(0))
                    diff = regions.differ(prepare(raw, prog, True), sw)
                    if diff is None:
                        ck.good('strings', where)
                    else:
                        ck.bad('strings', key + ':strings', where, 'two strings with %s: computes %s, expected %s' % (regions.describe(diff[0]), gval.show(diff[1]), gval.show(diff[2])))
                if name == 'BANK_BYTE' and c.prog == 'wlalink':
                    got = no_bank(got)
                # outside its domain the operator fails: nothing to compare there
                dom = [{}]
                for e in err or []:
                    dom = [x for d in dom for x in states(d, e, False)]
                w = prepare(val, prog)
                diff = None
                for d in dom:
                    diff = diff or regions.differ(got, w, d)
                if diff is None:
                    ck.good('meaning', where)
                else:
                    st, x, y = diff
                    ck.bad('meaning', key + ':meaning', where, 'for operands with %s computes %s, documented meaning is %s' % (regions.describe(st) or 'any value', gval.show(x), gval.show(y)))
                other = [d for d in out if d != slot and isnum(d) and d < slot]
                if other:
                    ck.bad('meaning', key + ':spill', where, 'overwrites operand slots %s that stay on the stack' % other)
                # out-of-domain operands fail
                for e in err or []:
                    esc = None
                    for b in base:
                        for d in states(b, e, True):
                            for st, r in regions.cells(lambda s: regions.cond(fc, s), d):
                                if not r:
                                    esc = esc or st
                    if esc is None:
                        ck.good('error', where)
                    else:
                        ck.bad('error', key + ':error', where, 'an operand with %s does not lead to a FAILED return' % gval.show(e))
                # operands in the domain do not
                dom = list(base)
                for e in err or []:
                    dom = [x for d in dom for x in states(d, e, False)]
                    dom = [x for d in dom for x in states(d, subst(e, lambda x: ('W', x[1]) if x[:1] == ('V',) else None), False)]
                esc = None
                for d in dom:
                    for st, r in regions.cells(lambda s: regions.cond(fc, s), d):
                        if r:
                            esc = esc or st
                if esc is None:
                    ck.good('error', where)
                else:
                    ck.bad('error', key + ':spurious', where, 'valid operands can be rejected when %s' % regions.describe(esc))
    # precedence
    m = ir.load('wla-z80', only=['stack.c'])
    prec(ck, m)
    for r, n in (('meaning', 140), ('arity', 140), ('error', 150), ('push', 3), ('precedence', 45)):
        ck.floor(r, n)
    return ck.finish('Gated value numbering of the loop body of compute_stack() in every assembler (distinct builds: %s) and in wlalink, specialised to each of the %d operator codes, '
                     'helpers inlined at IR level; the resulting transfer expression (operand slots -> result slot, stack pointer, failing exits) is compared with the documented operator meaning. '
                     'The priority table is read from its global initialiser.' % ('; '.join(','.join(v) for v in seen.values()), len(OPS)),
                     ['libm functions compute what their names say', 'clang-18 lowers the sources faithfully at -O0', 'SI_OP_NOT and SI_OP_BANK depend on the output size / memory map and are not compared',
                      'the infix-to-postfix conversion itself is not analysed'])


def op_line(c, ev):
    """line of the first value-stack store reached only for this operator"""
    best = 0
    for b in ev.done:
        for i in c.f.blocks[b]:
            if i.op == 'store' and i.x.get('vt') == 'double':
                if best == 0:
                    best = i.line
    return best or c.f.line


def no_bank(e):
    """linker: labels without bank/base information"""
    def atoms(x, acc):
        if isinstance(x, tuple) and x:
            if x[0] == 'cmp' and x[1] == 'slt' and isinstance(x[2], tuple) and x[2][0] == 'ld' and x[3] == 1:
                acc.add(x)
            for y in x:
                atoms(y, acc)
        return acc
    for a in sorted(atoms(e, set()), key=repr):
        e = deep_restrict(e, a, 1)
    return e


def deep_restrict(e, atom, val):
    if isinstance(e, tuple) and e:
        if e == atom:
            return val
        e2 = tuple(deep_restrict(x, atom, val) if isinstance(x, tuple) else x for x in e)
        if e2[0] == 'g':
            return gate(e2[1], e2[2], e2[3])
        if e2[0] == 'cmp':
            return cmp_(e2[1], e2[2], e2[3])
        return e2
    return e


# documented precedence, tightest first (doc/arithmetics.rst)
TIERS = [['NOT'], ['LOW_BYTE', 'HIGH_BYTE', 'BANK'], ['DIVIDE', 'MULTIPLY', 'MODULO', 'POWER'], ['ADD', 'SUB'], ['SHIFT_LEFT', 'SHIFT_RIGHT'],
         ['COMPARE_LT', 'COMPARE_GT', 'COMPARE_LTE', 'COMPARE_GTE'], ['COMPARE_EQ', 'COMPARE_NEQ'], ['AND'], ['XOR'], ['OR'], ['LOGICAL_AND'], ['LOGICAL_OR']]


def prec(ck, m):
    tab = None
    for n, g in m.globals.items():
        if 'priority' in n and isinstance(g.get('init'), list) and g['init'][0] == 'l':
            tab = (n, g)
    if tab is None:
        raise AnalysisBroken('stack.c: no operator priority table')
    n, g = tab
    pr = {}
    for e in g['init'][1:]:
        op, p = (e[1], e[2]) if e[0] == 'l' else (0, 0)
        if op < len(OPS) and OPS[op] not in pr:
            pr[OPS[op]] = p
    where = '%s:%d %s' % (g['file'], g['line'], n)
    for i, t in enumerate(TIERS):
        for x in t:
            if x not in pr:
                ck.bad('precedence', 'prec:%s' % x, where, 'operator %s has no priority' % x)
                continue
            for y in t:
                if x < y and pr.get(y) != pr[x]:
                    ck.bad('precedence', 'prec:%s:%s' % (x, y), where, '%s (%d) and %s (%s) are documented to bind equally' % (x, pr[x], y, pr.get(y)))
                elif x < y:
                    ck.good('precedence', '%s = %s' % (x, y))
            for u in TIERS[i + 1:]:
                for y in u:
                    if y in pr and pr[y] >= pr[x]:
                        ck.bad('precedence', 'prec:%s:%s' % (x, y), where, '%s (%d) is documented to bind tighter than %s (%d)' % (x, pr[x], y, pr[y]))
                    elif y in pr:
                        ck.good('precedence', '%s > %s' % (x, y))
    # functions bind tighter than any binary operator
    for x in OPS[28:]:
        if x in ('NEGATE',):
            continue
        if pr.get(x, -1) <= pr.get('MULTIPLY', 0):
            ck.bad('precedence', 'prec:%s' % x, where, 'function %s() binds no tighter than a binary operator' % x)
        else:
            ck.good('precedence', x)
