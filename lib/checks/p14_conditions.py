"""P14: conditional directives decide what the manual says."""
import concurrent.futures as cf
import ir, conditions
from common import Check

STRING, STACK, FLOAT, EOL, LABEL = 4, 5, 6, 2, 3
ORDER = {'IFEQ': '=', 'IFNEQ': '<>', 'IFGR': '>', 'IFGREQ': '>=', 'IFLE': '<', 'IFLEEQ': '<='}
NAMES = {'<': 'less', '=': 'equal', '>': 'greater'}
TAKE, SKIP, ERROR = 'take', 'skip', 'error'
YES, NO = 1, 0


def cases():
    """[(word, case, wanted outcome, text)]"""
    out = []
    for w, os in ORDER.items():
        for o in '<=>':
            out.append((w, dict(kinds=(1, 1), order=o), TAKE if o in os else SKIP, 'the first value is %s' % NAMES[o]))
            out.append((w, dict(kinds=(STRING, STRING), order=o), TAKE if o in os else SKIP, 'the first string is %s' % NAMES[o]))
        for k in ((1, STRING), (STRING, 1), (0,), (1, 0), (EOL,), (1, EOL), (STACK,), (1, STACK), (FLOAT,)):
            out.append((w, dict(kinds=k, order='='), ERROR, 'the operands are of the kinds %s' % (k,)))
    for w in ('IF', 'ELIF'):
        out += [(w, dict(kinds=(1,), zero=False, skip=NO), TAKE, 'the value is not zero'), (w, dict(kinds=(1,), zero=True, skip=NO), SKIP, 'the value is zero')]
        for k in (0, EOL, STRING, STACK):
            out.append((w, dict(kinds=(k,), skip=NO), ERROR, 'the condition is no value (%d)' % k))
    out += [('ELIF', dict(kinds=(1,), zero=z, skip=YES), SKIP, 'a branch of the block has been taken') for z in (True, False)]
    out += [('IFDEF', dict(found=True), TAKE, 'the definition exists'), ('IFDEF', dict(found=False), SKIP, 'there is no such definition'),
            ('IFNDEF', dict(found=False), TAKE, 'there is no such definition'), ('IFNDEF', dict(found=True), SKIP, 'the definition exists'),
            ('IFEXISTS', dict(kinds=(STRING,), found=True), TAKE, 'the file can be opened'), ('IFEXISTS', dict(kinds=(STRING,), found=False), SKIP, 'the file cannot be opened'),
            ('IFEXISTS', dict(kinds=(1,), found=True), ERROR, 'no file name is given')]
    for o in '<=>':
        out += [('IFDEFM', dict(args=o, active=True), SKIP if o == '<' else TAKE, 'the number of arguments is %s than (or equal to) the one asked for: %s' % (NAMES[o], o)),
                ('IFNDEFM', dict(args=o, active=True), TAKE if o == '<' else SKIP, 'the number of arguments is %s than (or equal to) the one asked for: %s' % (NAMES[o], o))]
    out += [('IFDEFM', dict(active=False), ERROR, 'no macro is running'), ('IFNDEFM', dict(active=False), ERROR, 'no macro is running')]
    return out


def analyse(prog):
    m = ir.load_norm(prog)
    S = conditions.Conditions(m)
    f = S.F.get('parse_if_directive') or ir.AnalysisBroken
    if f is ir.AnalysisBroken:
        raise ir.AnalysisBroken(prog + ': no parse_if_directive()')
    loop = {n for n, g in S.F.items() if n != 'parse_if_directive' and S.loops_of(g, {'ENDIF'}) and 'ENDR' not in set().union(*(S.compared(g, i) for i in g.calls() if i.callee))}
    var = 's_skip_elifs'
    if var not in m.globals or not loop:
        raise ir.AnalysisBroken('%s: the scan behind a false condition is not found' % prog)
    res = []
    for w, case, want, text in cases():
        got = S.decide(f, w, loop, var, **case)
        if want == ERROR:
            ok = bool(got) and all(g[0] == ERROR for g in got)
            el = True
        else:
            k = {g for g in got if g[0] != ERROR}
            ok = bool(k) and all(g[0] == want for g in k)
            # where an outcome must not fail: everything but the arguments of .IFDEFM, which are read from the text
            if 'args' not in case and any(g[0] == ERROR for g in got):
                ok = False
            el = all(g[1] == (YES if want == TAKE else NO) for g in k) if case.get('skip') != YES else all(g[1] in (None, YES) for g in k)
        res.append((w, text, want, ok, el, ' or '.join(sorted({g[0] for g in got}))))
    return prog, f.where(), res


def run():
    ck = Check('P14', 'A conditional directive takes its branch exactly when its condition holds')
    ck.rule('decides', 'for every order of the compared values (or strings), presence of the definition, the file or the argument the branch is taken or skipped as documented; operands of the wrong kind are refused')
    ck.rule('elif', 'what is remembered for the .ELIF and .ELSE of the block is whether a branch has been taken')
    progs = [p for p in ir.programs() if p.startswith('wla-')]
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs))
    for prog, where, res in rs:
        for w, text, want, ok, el, got in res:
            if ok:
                ck.good('decides', '%s .%s: %s -> %s' % (prog, w, text, want))
            else:
                ck.bad('decides', '%s %s' % (w, text), where, '%s: .%s, where %s: %s instead of %s' % (prog, w, text, got, want))
            if ok and want != ERROR:
                if el:
                    ck.good('elif', '%s .%s: %s' % (prog, w, text))
                else:
                    ck.bad('elif', 'elif %s %s' % (w, text), where, '%s: .%s, where %s: the wrong thing is remembered for .ELIF and .ELSE' % (prog, w, text))
    ck.floor('decides', 1000)
    ck.floor('elif', 500)
    return ck.finish('parse_if_directive() of every assembler, evaluated for each conditional directive over the abstract domain {less, equal, greater} x {found, not found} x kind of operand.', [
        'input_number() delivers the operands (P01 checks the expressions), hashmap_get() and fopen() find what exists'])
