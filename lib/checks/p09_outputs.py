"""P09: output that could not be written completely makes the run fail."""
import concurrent.futures as cf
import ir, fail, failcheck, outstate
from common import Check


def analyse(prog, ex_callee, ex_pair, base):
    o = {}

    def t(m):
        o['o'] = x = outstate.Out(m, base)
        x.run()

        def one(f, i, settle, give):
            if (f.name, i.id) in x.tested_checks:
                settle(i, outstate.CHECKS[i.callee], (i.callee + '()', i.loc()))
        return one
    p, r = failcheck.analyse(prog, set(), ex_callee, ex_pair, base, t)
    x = o['o']
    r.update(viol=[(n, k, loc, msg) for (n, k), (loc, msg) in sorted(x.viol.items())], handles=['%s in %s()' % (x.F[n].defs[c].callee, n) for n, c in x.locals] + sorted(x.globals), writes=x.nwrites)
    return p, r


def run():
    ck = Check('P09', 'Output that could not be written completely makes the run fail')
    ck.rule('handle', 'between the last write to an output file and the end of its use, ferror() and fflush() or fclose() are tested')
    ck.rule('report', 'a failed ferror(), fflush() or fclose() of an output makes the function fail')
    ck.rule('call', 'a function that fails for this reason makes its callers fail, up to the exit status')
    progs = [p for p in ir.programs() if p.startswith('wla') and p != 'wlab' and not p.startswith('gen')]
    ir.load_many(progs)
    ex_callee, ex_pair = set(), set()
    for l in failcheck.lines('fail_exempt.txt'):
        p = l.split('#')[0].split()
        if p[0] == '*':
            ex_callee.add(p[1])
        else:
            ex_pair.add(tuple(p))
    base = set(failcheck.lines('baseline_functions.txt'))
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs, *[[x] * len(progs) for x in (ex_callee, ex_pair, base)]))
    seen = set()
    for prog, r in rs:
        if len(r['handles']) < (3 if prog == 'wlalink' else 4) or r['writes'] < (70 if prog == 'wlalink' else 200):
            raise ir.AnalysisBroken('%s: only %d writes to %d outputs found' % (prog, r['writes'], len(r['handles'])))
        for what, loc in r['ok']:
            if (what, loc) not in seen:
                seen.add((what, loc))
                ck.good(what, loc)
        for h in r['handles']:
            ck.good('handle', '%s: %s' % (prog, h))
        ck.notes.append('%s: %d writes to %s' % (prog, r['writes'], ', '.join(r['handles'])))
        for n, k, loc, msg in r['viol']:
            ck.bad('handle', '%s %s' % (n, k), loc, msg)
        for n, callee, loc, so, msg, mloc, what in r['bad']:
            ck.bad(what, '%s %s>%s' % (what, n, callee), loc, 'after a failing %s (%s) %s() can go on with outcome %s' % (msg, mloc, n, ', '.join(so)))
    return ck.finish('The typestate of every file the assemblers and wlalink write (object and library files, makefile rules, the internal data stream, ROM, symbol and listing files) from its opening to the end of the run.', [
        'the options that ask for going on after an error (-c) are off',
        'standard output and standard error are not outputs in this sense'])
