"""Failure discipline: after a program has reported an error, every continuation ends in a failing outcome.

R1  behind every error report the reporting function can only return a failing value (0/FAILED/NULL or negative) or exit
    with a non-zero status;
R2  at every call of a function that can return such a value after a report, the continuations on which it did return it
    end in a failing outcome of the caller (which propagates the obligation up to main);
R3  main returns non-zero.
A function that reports an error but whose result does not say so (void, or a new helper) passes the obligation to its callers."""
import os, concurrent.futures as cf
import ir, fail
from common import Check

# the options that ask for going on after an error (-c) are off
fail.ASSUME.update({'g_continue_parsing_after_an_error': 0, 'g_allow_duplicate_labels_and_definitions': 0})
DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data')


def lines(name):
    return [l.rstrip('\n') for l in open(os.path.join(DATA, name)) if l.strip() and not l.startswith('##')]


def strval(m, v):
    if isinstance(v, list) and v[0] == 's':
        return v[1]
    return None


def is_stderr(fn, v):
    if isinstance(v, list) and v[0] == 'i':
        d = fn.defs[v[1]]
        return d.op == 'load' and d.ops[0] == ['g', 'stderr']
    return False


def report(fn, i, soft):
    """message of an error report, or None"""
    c = i.callee
    if c == 'print_error':
        if i.args[0] == 9:
            return None
        k = strval(fn.mod, i.args[1]) or '(computed)'
    elif c == 'print_text':
        if i.args[0] != 0:
            return None
        k = strval(fn.mod, i.args[1])
        if k is None:
            k = '(computed)'
    elif c == 'fprintf' and is_stderr(fn, i.args[0]) and fn.mod.name == 'wlab':
        k = strval(fn.mod, i.args[1]) or '(computed)'
    else:
        return None
    k = k.replace('\n', '\\n')
    return None if k in soft else k


def failing(fn, v):
    if isinstance(v, tuple):
        return v[0] == 'exit' and v[1] != 0
    if fn.name == 'main':
        return v != 0
    return v == 0 or v == -1 or (isinstance(v, int) and v < 0)


def analyse(prog, soft, ex_callee, ex_pair, base, trigger=None):
    bound = {(c, g): int(k[1]) for c, g, *ks in ex_pair for k in [x.split(':') for x in ks] if k[0] in (prog, 'all')}
    ex_pair = {(c, g) for c, g, *ks in ex_pair if not ks}
    m = ir.load(prog)
    F = {f.name: f for f in m.functions()}
    callers = {}
    for n, f in F.items():
        for i in f.calls():
            if i.callee in F:
                callers.setdefault(i.callee, []).append((n, i))
    noret = {n for n, f in F.items() if not any(b[-1].op == 'ret' for b in f.blocks)}
    ok, bad, work, done, exempt = [], [], [], set(), []
    fails = {n: set() for n in F}
    if trigger is not None:
        trigger = trigger(m)
    why = {}

    def give(n, vals, reason):
        for v in vals:
            if v not in fails[n]:
                fails[n].add(v)
                why[(n, v)] = reason
                work.append((n, v))

    def settle(f, at, out, what, reason):
        n = f.name
        soft_out = [v for v in out if not failing(f, v)]
        vals = {v for v in out if not isinstance(v, tuple)}
        if not soft_out:
            ok.append((what, at.loc()))
            give(n, vals, reason)
        elif n != 'main' and (set(soft_out) == {('void',)}):
            ok.append((what, at.loc()))
            give(n, vals | {None}, reason)            # the callers must fail, whatever it returns
        elif n != 'main' and n not in base and ('again',) not in soft_out and not any(isinstance(v, tuple) and v[0] == '?' for v in soft_out) \
                and all(not isinstance(v, tuple) for v in soft_out):
            ok.append((what, at.loc()))
            give(n, vals, reason)
        else:
            bad.append((n, at, sorted(map(str, soft_out)), reason, what))

    for n, f in F.items():
        if n in ('print_error', 'print_text'):
            continue
        for i in f.calls():
            if trigger is not None:
                trigger(f, i, lambda at, v, what: settle(f, at, fail.outcomes(f, at, v, noret), 'report', what), lambda v, what: give(f.name, {v}, what))
                continue
            k = report(f, i, soft)
            if k is not None:
                settle(f, i, fail.outcomes(f, i, None, noret), 'report', (k, i.loc()))
    pairs_callee = {c for _, c in ex_pair} | {g for _, g in bound}
    while work:
        g, v = work.pop()
        if g == 'main':
            continue
        for n, i in callers.get(g, []):
            if (n, i.id, v) in done:
                continue
            done.add((n, i.id, v))
            if g in ex_callee or (n, g) in ex_pair or (n not in base and g in pairs_callee):
                exempt.append((n, g))
                continue
            f = F[n]
            direct = getattr(trigger, 'ends', {}).get((n, i.id)) if v == 0 else None
            if direct:
                ok.append(('call', i.loc()))
                give(n, direct, why[(g, v)])
                continue
            settle(f, i, fail.outcomes(f, i, v, noret), 'call', why[(g, v)])
    res = {'ok': ok, 'exempt': len(exempt), 'fns': len(F), 'bad': []}
    sites = {}
    for n, at, so, (msg, loc), what in bad:
        if what == 'call':
            sites.setdefault((n, at.callee), set()).add(at.id)
    for n, at, so, (msg, loc), what in bad:
        if what == 'call' and len(sites[(n, at.callee)]) <= bound.get((n, at.callee), 0):
            exempt.append((n, at.callee))
            continue
        res['bad'].append((n, at.callee or at.op, at.loc(), so, msg, loc, what))
    return prog, res


def run(prop, title, progs, floor_reports, floor_calls, explanation, assumptions):
    ck = Check(prop, title)
    soft = set(lines('soft_messages.txt'))
    ex_callee, ex_pair = set(), set()
    for l in lines('fail_exempt.txt'):
        p = l.split('#')[0].split()
        if p[0] == '*':
            ex_callee.add(p[1])
        else:
            ex_pair.add(tuple(p))
    base = set(lines('baseline_functions.txt'))
    ck.rule('report', 'behind an error report the function can only return a failing value or exit with a failing status')
    ck.rule('call', 'when a callee returns the failing value of a reported error, every continuation of the caller is failing (main: non-zero)')
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs, *[[x] * len(progs) for x in (soft, ex_callee, ex_pair, base)]))
    seen = set()
    for prog, r in rs:
        nr = nc = 0
        for what, loc in r['ok']:
            nr += what == 'report'
            nc += what == 'call'
            if (what, loc) not in seen:
                seen.add((what, loc))
                ck.good(what, loc)
        if nr < floor_reports.get(prog, 0) or nc < floor_calls.get(prog, 0):
            raise ir.AnalysisBroken('%s: only %d error reports and %d propagating calls found' % (prog, nr, nc))
        ck.notes.append('%s: %d functions, %d error reports, %d propagating call/value pairs, %d exempted call sites' % (prog, r['fns'], nr, nc, r['exempt']))
        for n, callee, loc, so, msg, mloc, what in r['bad']:
            t = 'after the error "%s" (reported at %s) %s() can go on with outcome %s' % (msg.strip(), mloc, n, ', '.join(so))
            if what == 'call':
                t = 'the failure of %s() does not make %s() fail: %s' % (callee, n, t)
            ck.bad(what, '%s>%s %s' % (n, callee, msg[:60]) if what == 'report' else '%s>%s' % (n, callee), loc, t)
    return ck.finish(explanation, assumptions)
