"""P08: what becomes of the NULL of a failed allocation or a file that cannot be opened."""
import concurrent.futures as cf
import ir, fail, failcheck, nullflow
from common import Check


# -M: files that do not exist yet are only named
fail.ASSUME.update({'g_makefile_skip_file_handling': 0})


def trigger(m):
    flow = nullflow.Flow(m)
    m.nullflow = dict(sites=0, used=[], kept=[], direct=[], exit=[], exits=flow.exits())
    ends = {}

    def one(f, i, settle, give):
        if i.callee not in nullflow.SRC and i.callee not in flow.wrappers:
            return
        if i.callee == 'fopen' and flow.probe(f, i):
            return
        r = m.nullflow
        r['sites'] += 1
        k = 'the file cannot be opened' if i.callee == 'fopen' else 'out of memory'
        for u, w in flow.uses(f, i.bb, f.blocks[i.bb].index(i) + 1, {('i', i.id)}):
            r['used'].append((f.name, i.callee, i.loc(), u.loc(), w))
        for e, u in flow.at_exit(f):
            r['exit'].append((f.name, i.callee, i.loc(), u, e))
        for t in flow.kept:
            r['kept'].append((f.name, i.callee, i.loc()))
        if flow.tests and flow.ends and all(failcheck.failing(f, v) for v in flow.ends if isinstance(v, int)) and all(isinstance(v, int) for v in flow.ends):
            r['direct'].append(i.loc())
            if i.callee in flow.wrappers:
                ends[(f.name, i.id)] = flow.ends
                return
            for v in flow.ends:
                give(v, (k, i.loc()))
        elif i.callee in flow.wrappers:
            return          # failcheck meets the call when the wrapper's failure gets there
        else:
            for c, v in flow.tests:
                settle(c, v, (k, i.loc()))
        if flow.given:
            give(0, (k, i.loc()))
    one.ends = ends
    return one


def analyse(prog, ex_callee, ex_pair, base):
    m = {}

    def t(mod):
        m['m'] = mod
        return trigger(mod)
    p, r = failcheck.analyse(prog, set(), ex_callee, ex_pair, base, t)
    r.update(m['m'].nullflow)
    return p, r


PROGS = None


def run():
    ck = Check('P08', 'A failed allocation or file open is reported and its NULL is never used')
    ck.rule('used', 'the NULL of a failed allocation or open is not used as an address, neither directly nor by a function it is handed to')
    ck.rule('tested', 'a result that is kept beyond the function has been compared with NULL')
    ck.rule('exit', 'a NULL left behind in a global variable is not used by the functions registered with atexit()')
    ck.rule('report', 'behind the test that finds the NULL the function can only fail')
    ck.rule('call', 'a function that fails for this reason makes its callers fail, up to the exit status')
    progs = [p for p in ir.programs() if p.startswith('wla') and not p.startswith('gen')]
    ir.load_many(progs)
    ex_callee, ex_pair = set(), set()
    for name in ('fail_exempt.txt', 'alloc_exempt.txt'):
        for l in failcheck.lines(name):
            p = l.split('#')[0].split()
            if p[0] == '*':
                ex_callee.add(p[1])
            else:
                ex_pair.add(tuple(p))
    base = set(failcheck.lines('baseline_functions.txt'))
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs, *[[x] * len(progs) for x in (ex_callee, ex_pair, base)]))
    seen = set()
    for prog, r in rs:
        if not r['exits'] and prog != 'wlab':
            raise ir.AnalysisBroken(prog + ': no function is registered with atexit()')
        if r['sites'] < {'wlab': 2, 'wlalink': 60}.get(prog, 110):
            raise ir.AnalysisBroken('%s: only %d allocations and opens found' % (prog, r['sites']))
        for what, loc in r['ok']:
            if (what, loc) not in seen:
                seen.add((what, loc))
                ck.good(what, loc)
        for loc in r['direct']:
            if loc not in seen:
                seen.add(loc)
                ck.good('report', loc)
        for n in range(r['sites'] - len({x[2] for x in r['used']})):
            ck.good('used', prog)
        for n in range(r['sites'] - len({x[2] for x in r['kept']})):
            ck.good('tested', prog)
        ck.notes.append('%s: %d functions, %d allocations and opens' % (prog, r['fns'], r['sites']))
        for n, callee, loc, uloc, w in r['used']:
            ck.bad('used', 'used %s>%s %s' % (n, callee, uloc.split(' (')[-1]), uloc, 'the NULL of a failing %s() (%s) is %s' % (callee, loc, w))
        for n, callee, loc in r['kept']:
            ck.bad('tested', 'tested %s>%s' % (n, callee), loc, 'the result of %s() is kept without having been compared with NULL' % callee)
        for n in range(r['sites'] - len({x[2] for x in r['exit']})):
            ck.good('exit', prog)
        for n, callee, loc, uloc, e in r['exit']:
            ck.bad('exit', 'exit %s>%s' % (n, callee), loc, 'the NULL of a failing %s() (%s) left behind in a global variable is used by %s() at exit (%s)' % (callee, loc, e, uloc))
        for n, callee, loc, so, msg, mloc, what in r['bad']:
            t = 'after "%s" (%s) %s() can go on with outcome %s' % (msg, mloc, n, ', '.join(so))
            ck.bad(what, '%s %s>%s' % (what, n, callee) + (' ' + msg if what == 'report' else ''), loc, t)
    return ck.finish('All calls of malloc, calloc, realloc, strdup, fopen and tmpfile, and of the functions that hand on their NULL, in all assemblers, wlalink and wlab.', [
        'two different access paths are different memory cells'])
