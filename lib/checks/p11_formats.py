"""P11: formats and their arguments agree."""
import concurrent.futures as cf
import ir, formats, failcheck
from common import Check

# formats composed at run time, with the reason why they fit
COMPOSED = {('expand_variables_inside_string', 'snprintf_'): 'the source gives the precision and x, X, d or i, every character is tested'}


def analyse(prog):
    m = ir.load(prog)
    x = formats.Formats(m)
    return prog, sorted(k for k in set(x.pf) & set(m.names())), [(f.name, i.loc(), r, k, msg) for f, i, r, k, msg in x.check()]


def run():
    ck = Check('P11', 'Every format string matches the arguments it is used with')
    ck.rule('constant', 'the format is a constant of the program, never text of a source or object file')
    ck.rule('print', 'a printf-like format takes exactly the arguments given, each of the type it is converted as')
    ck.rule('scan', 'a scanf-like format reads exactly as many values as it is given places, into objects of the type and size it stores')
    progs = [p for p in ir.programs() if p.startswith('wla') and not p.startswith('gen')]
    ir.load_many(progs)
    base = set(failcheck.lines('baseline_functions.txt'))
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs))
    seen = set()
    for prog, fns, res in rs:
        n = len(res)
        if n < {'wlab': 60, 'wlalink': 1000}.get(prog, 3000):
            raise ir.AnalysisBroken('%s: only %d formats found' % (prog, n))
        if prog != 'wlab' and not {'print_text'} <= set(fns):
            raise ir.AnalysisBroken('%s: print_text() is not seen to take a format' % prog)
        ck.notes.append('%s: %d obligations; functions that take a format: %s' % (prog, n, ', '.join(fns)))
        for fn, loc, r, k, msg in res:
            if msg is None:
                if (loc, r, k) not in seen:
                    seen.add((loc, r, k))
                    ck.good(r, loc)
            elif r == 'constant' and ((fn, k) in COMPOSED or fn not in base and k in {c for _, c in COMPOSED}):
                continue
            else:
                ck.bad(r, '%s %s' % (fn, k), loc, msg)
    for (fn, c), why in COMPOSED.items():
        ck.notes.append('not judged: the format %s() composes for %s() (%s)' % (fn, c, why))
    return ck.finish('All calls of the printf and scanf families and of the functions that hand their format on to them (print_text, print_error, the instruction writer), in all assemblers, wlalink and wlab.', [
        'a pointer given to %s points to a terminated string'])
