"""P15: the data directives write every operand once, at its size, and refuse what does not fit."""
import concurrent.futures as cf
import ir, dataeval, directives, failcheck
from common import Check

TOP, BOTTOM = 2 ** 31 - 1, -2 ** 31
VALUE, FAILED, EOL, LABEL, STRING, STACK = 1, 0, 2, 3, 4, 5
# size -> record of a value, of a label, of a calculation, of a run of values; range
SIZES = {8: ('d', 'Q', 'c', 'x', -128, 255), 16: ('y', 'r', 'C', 'X', -32768, 65535), 24: ('z', 'q', 'T', 'h', -8388608, 16777215), 32: ('u', 'V', 'U', 'w', None, None)}
LISTS = {'DB': 8, 'BYT': 8, 'BYTE': 8, 'DW': 16, 'WORD': 16, 'ADDR': 16, 'DL': 24, 'LONG': 24, 'FARADDR': 24, 'DD': 32}
RUNS = {'DS': 8, 'DSB': 8, 'DSW': 16, 'DSL': 24, 'DSD': 32}
TABLES = {'b': 8, 'w': 16, 'l': 24, 'd': 32}
ERR = ('error',)


def values(size):
    """[(interval, fits)]"""
    lo, hi = SIZES[size][4:]
    if lo is None:
        return [((0, 0), True), ((BOTTOM, TOP), True)]
    return [((lo, lo), True), ((hi, hi), True), ((lo, hi), True), ((hi + 1, hi + 1), False), ((lo - 1, lo - 1), False), ((hi + 1, TOP), False), ((BOTTOM, lo - 1), False)]


def rec(size, kind, n):
    return {VALUE: (SIZES[size][0], ('V%d' % n,)), LABEL: (SIZES[size][1], ('L%d' % n,)), STACK: (SIZES[size][2], ('K%d' % n,))}[kind]


def text(k, v):
    nm = {VALUE: 'a value', FAILED: 'a broken operand', EOL: 'the end of the line', LABEL: 'a label', STRING: 'a string', STACK: 'a calculation'}
    o = []
    for n, x in enumerate(k, 1):
        a = nm[x]
        if n in v and x == VALUE:
            lo, hi = v[n]
            a += ' %s' % lo if lo == hi else ' up to %s' % hi if lo == BOTTOM else ' from %s' % lo if hi == TOP else ' %s..%s' % (lo, hi)
        o.append(a)
    return ', '.join(o)


def cases():
    """[(rule, word, kinds, vals, extra, wanted, fold)]"""
    out = []
    for w, size in LISTS.items():
        lead = {VALUE: (0, 0)}
        for k in (VALUE, LABEL, STACK):
            for iv, fits in values(size) if k == VALUE else [(None, True)]:
                v = {1: iv} if iv else {}
                out.append(('size' if fits else 'range', w, (k, EOL), v, {}, ('ok', (rec(size, k, 1),)) if fits else ERR, True))
                for k0 in (VALUE, LABEL, STACK):
                    v = {2: iv} if iv else {}
                    if k0 == VALUE:
                        v[1] = (0, 0)
                    out.append(('size' if fits else 'range', w, (k0, k, EOL), v, {}, ('ok', (rec(size, k0, 1), rec(size, k, 2))) if fits else ERR, True))
        out.append(('refused', w, (EOL,), {}, {}, ERR, True))
        out.append(('refused', w, (FAILED,), {}, {}, ERR, True))
        out.append(('refused', w, (VALUE, FAILED), {1: (0, 0)}, {}, ERR, True))
        x = {'g_string_size': 3}
        if size == 8:
            out.append(('size', w, (STRING, EOL), {}, x, ('ok', tuple(('d', ('T1.%d' % c,)) for c in range(3))), False))
            out.append(('size', w, (VALUE, STRING, LABEL, EOL), {1: (0, 0)}, x, ('ok', (rec(8, VALUE, 1),) + tuple(('d', ('T2.%d' % c,)) for c in range(3)) + (rec(8, LABEL, 3),)), False))
        else:
            out += [('refused', w, k, {1: (0, 0)}, x, ERR, True) for k in ((STRING, EOL), (VALUE, STRING, EOL), (LABEL, STRING, EOL), (VALUE, STRING, VALUE, EOL))]
    for w, size in RUNS.items():
        for iv, fits in values(size):
            for n in ((1, 1), (65535, 65535), (1, 65535)):
                out.append(('size' if fits else 'range', w, (VALUE, VALUE, EOL), {1: n, 2: iv}, {}, ('ok', ((SIZES[size][3], ('V1', 'V2')),)) if fits else ERR, True))
        for n in ((0, 0), (BOTTOM, 0), (65536, 65536), (65536, TOP)):
            for k in (VALUE, LABEL, STACK):
                out.append(('range', w, (VALUE, k, EOL), {1: n, 2: (0, 0)} if k == VALUE else {1: n}, {}, ERR, True))
        for n in (1, 2, 3):
            out.append(('size', w, (VALUE, LABEL, EOL), {1: (n, n)}, {}, ('ok', (rec(size, LABEL, 2),) * n), False))
            out.append(('size', w, (VALUE, STACK, EOL), {1: (n, n)}, {}, ('ok', (rec(size, STACK, 2),) + ((SIZES[size][2], ('copy of K2',)),) * (n - 1)), False))
        out += [('refused', w, k, {1: (1, 1)} if k[0] == VALUE else {}, {}, ERR, True) for k in ((EOL,), (FAILED,), (STRING,), (LABEL,), (STACK,), (VALUE, EOL), (VALUE, FAILED), (VALUE, STRING))]
    for c, size in TABLES.items():
        base = {'s_table_format': ord(c), 's_table_defined': 1, 's_table_index': 0, 's_table_size': 2}
        one = dict(base, s_table_size=1)
        for k in (VALUE, LABEL, STACK):
            for iv, fits in values(size) if k == VALUE else [(None, True)]:
                v = {1: iv} if iv else {}
                for w, x in (('ROW', one), ('DATA', one), ('DATA', base)):
                    out.append(('size' if fits else 'range', w, (k, EOL), v, x, ('ok', (rec(size, k, 1),)) if fits else ERR, True))
                for w, x in (('ROW', base), ('DATA', base), ('DATA', one)):
                    out.append(('size' if fits else 'range', w, (LABEL, k, EOL), {2: iv} if iv else {}, x, ('ok', (rec(size, LABEL, 1), rec(size, k, 2))) if fits else ERR, True))
        for w in ('ROW', 'DATA'):
            out += [('refused', w, (EOL,), {}, base, ERR, True), ('refused', w, (FAILED,), {}, base, ERR, True), ('refused', w, (VALUE, FAILED), {1: (0, 0)}, base, ERR, True),
                    ('refused', w, (LABEL, EOL), {}, dict(base, s_table_defined=0), ERR, True)]
        out += [('refused', 'ROW', (LABEL, EOL), {}, base, ERR, True), ('refused', 'ROW', (LABEL, LABEL, EOL), {}, one, ERR, True), ('refused', 'ROW', (LABEL, EOL), {}, dict(base, s_table_index=1), ERR, True)]
    return out


def handler(S, w):
    """the outermost function called for the directive that takes its operands"""
    r, a, called, mt = S.word_effects(w)
    cand = [c for c in called if c in S.F and c not in ('input_number', 'parse_if_directive', 'next_line', 'print_error') and 'input_number' in closure(S, c)]
    top = [c for c in cand if not any(c != d and c in closure(S, d) for d in cand)]
    if len(top) != 1:
        raise ir.AnalysisBroken('.%s: the function that handles it is not found (%s)' % (w, ', '.join(sorted(cand))))
    return top[0]


def closure(S, n):
    if n not in S.clo:
        out, todo = set(), [n]
        while todo:
            f = S.F.get(todo.pop())
            for i in f.calls() if f else ():
                if i.callee and i.callee not in out:
                    out.add(i.callee)
                    if i.callee != 'input_number':
                        todo.append(i.callee)
        S.clo[n] = out
    return S.clo[n]


def analyse(prog):
    m = ir.load_norm(prog)
    S = dataeval.Data(m)
    S.success, S.clo = 1, {}
    S.old = frozenset(failcheck.lines('baseline_functions.txt'))
    for g in ('s_table_format', 's_table_defined', 's_table_index', 's_table_size', 'g_string_size', 'g_parsed_int', 'g_latest_stack'):
        if g not in m.globals:
            raise ir.AnalysisBroken('%s: no %s' % (prog, g))
    D = directives.Spec(m)
    D.success, D.clo, D.old = 1, {}, S.old
    hs = {w: handler(D, w) for w in sorted(set(LISTS) | set(RUNS) | {'ROW', 'DATA'})}
    res = []
    for rule, w, k, v, x, want, fold in cases():
        got = S.outcomes(hs[w], w, k, v, x, fold=fold)
        res.append((rule, w, text(k, v) + (' (format %c, %d columns)' % (x['s_table_format'], x['s_table_size']) if 's_table_size' in x else ''), S.F[hs[w]].where(), got == {want},
                    ' or '.join(sorted(show(g) for g in got)), show(want)))
    return prog, res


def show(g):
    if g[0] == 'error':
        return 'an error'
    if g[0] == 'ok':
        return 'the records %.200s' % ' '.join('%s(%s)' % (a, ','.join(map(str, b))) for a, b in g[1]) if g[1] else 'no record'
    return 'undecided'


def run():
    ck = Check('P15', 'Data directives write every operand once, at its size, and refuse what does not fit')
    ck.rule('size', 'a value, label, calculation or string writes the record of the size of the directive with that operand, in order; runs write it as often as asked')
    ck.rule('range', 'values that do not fit the size, and sizes of runs outside 1..65535, are refused')
    ck.rule('refused', 'missing and broken operands and strings where none fits are refused')
    progs = [p for p in ir.programs() if p.startswith('wla-')]
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs))
    for prog, res in rs:
        for rule, w, t, where, ok, got, want in res:
            if ok:
                ck.good(rule, '%s .%s %s -> %s' % (prog, w, t, want))
            else:
                ck.bad(rule, '%s %s' % (w, t), where, '%s: .%s with %s gives %s instead of %s' % (prog, w, t, got, want))
    ck.floor('size', 2000)
    ck.floor('range', 2000)
    ck.floor('refused', 1000)
    return ck.finish('The handlers of .DB/.DW/.DL/.DD (and aliases), .DS/.DSB/.DSW/.DSL/.DSD and .ROW/.DATA of every assembler, evaluated for each kind of operand in first and later position and for values on, inside and outside the limits.', [
        'input_number() delivers the operands (P01) and the record letters mean what P04/P05 check', 'string operands of .ROW/.DATA are not covered: their length decides'])
