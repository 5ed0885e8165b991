"""P10: freed memory and closed files are not used again."""
import concurrent.futures as cf
import ir, freed
from common import Check


def analyse(prog):
    m = ir.load(prog)
    x = freed.Freed(m)
    r, n = x.run()
    sites = sorted({i.loc() for f in x.F.values() for i in f.calls() if x.freed_arg(i)})
    return prog, len(x.F), n, sites, {k: sorted(v) for k, v in x.frees.items()}, sorted({(f.name, i.callee, i.loc(), u.loc(), u.callee or u.op, w) for f, i, u, w in r})


def run():
    ck = Check('P10', 'Freed memory and closed files are never used again')
    ck.rule('freed', 'behind a call that frees a pointer or closes a file, neither the pointer nor a variable that still holds it is used or freed again')
    progs = [p for p in ir.programs() if p.startswith('wla') and not p.startswith('gen')]
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs))
    seen, badsites = set(), set()
    for prog, nf, n, sites, frees, res in rs:
        if n < {'wlab': 2, 'wlalink': 150}.get(prog, 150):
            raise ir.AnalysisBroken('%s: only %d calls that free found' % (prog, n))
        ck.notes.append('%s: %d functions, %d calls that free or close; functions that free their argument: %s' % (prog, nf, n, ', '.join(sorted(frees)) or 'none'))
        for fn, callee, loc, uloc, what, w in res:
            badsites.add(loc)
            ck.bad('freed', '%s>%s %s' % (fn, callee, what), uloc, 'what %s() released (%s) is %s' % (callee, loc, w))
        for loc in sites:
            if loc not in seen:
                seen.add(loc)
                if loc not in badsites:
                    ck.good('freed', loc)
    return ck.finish('All calls of free, realloc and fclose, and of the functions that free their argument on every path, in all assemblers, wlalink and wlab: where the pointer and the variables that hold it go.', [
        'two different access paths are different memory cells', 'a cell whose address is computed from something that was written is forgotten'])
