"""Output typestate: every handle that is written, from the call that opens it to the end of the run.

state    None (not open) or a set of obligations: F - data may still be in the buffer; E - the error flag may be set.
write    {E, F};  fflush: F goes, a failure sets E;  ferror, tested: E goes;  fclose, tested: F goes, and the handle is closed
A result is "tested" when every outcome of the function with the failing result is a failing one."""
import ir, fail, failcheck, absint

WRITES = {'fprintf', 'vfprintf', 'fputc', 'fputs', 'putc', 'fwrite'}
READS = {'fscanf', '__isoc99_fscanf', '__isoc23_fscanf', 'fread', 'fgetc', 'getc', 'fgets'}
SEEKS = {'fseek', 'rewind', 'fsetpos'}
CHECKS = {'ferror': 1, 'fclose': -1, 'fflush': -1}
STD = {'stdout', 'stderr', 'stdin'}
CLEAN = frozenset()
POS = {'fwrite': 3, 'fread': 3, 'fputc': 1, 'putc': 1, 'fputs': 1, 'fgets': 2}


def handle_arg(i):
    return i.args[POS.get(i.callee, 0)]


class Out:
    def __init__(s, m, base):
        s.m = m
        s.base = base
        s.F = {f.name: f for f in m.functions()}
        s.noret = {n for n, f in s.F.items() if not any(b[-1].op == 'ret' for b in f.blocks)}
        s.tab = {}              # (function, key) -> {entry: {(exit state, returned value)}}
        s.rtab = {}
        s.memo = {}
        s.viol = {}
        s.untested = set()
        s.tested_checks = {}
        # globals that hold a handle that is written
        s.keys = {}
        s.globals = set()
        s.locals = []
        s.params = set()
        todo = [(f, i, handle_arg(i)) for f in s.F.values() for i in f.calls() if i.callee in WRITES]
        s.nwrites = 0
        seen = set()
        for f, i, v in todo:
            ks = s.origins(f, v)
            s.nwrites += not ks <= {('g', x) for x in STD}
            for k in ks:
                if k[0] == 'g' and k[1] not in STD:
                    s.globals.add(k[1])
                elif k[0] == 'a':
                    s.param(f, k[1], seen, todo)
                elif k[0] == 'c':
                    if (f.name, k[1]) not in s.locals:
                        s.locals.append((f.name, k[1]))
        s.touch = {g: s.touching(g) for g in s.globals}

    def param(s, f, n, seen, todo):
        if (f.name, n) in seen:
            return
        seen.add((f.name, n))
        s.params.add((f.name, n))
        for g in s.F.values():
            for i in g.calls(f.name):
                for k in s.origins(g, i.args[n]):
                    if k[0] == 'g' and k[1] not in STD:
                        s.globals.add(k[1])
                    elif k[0] == 'a':
                        s.param(g, k[1], seen, todo)
                    elif k[0] == 'c' and (g.name, k[1]) not in s.locals:
                        s.locals.append((g.name, k[1]))

    def origins(s, f, v, seen=()):
        """where a handle comes from: {('g', global) | ('a', parameter) | ('c', call)}"""
        if isinstance(v, list) and v:
            if v[0] == 'a':
                return {('a', v[1])}
            if v[0] == 'i' and v[1] not in seen:
                d = f.defs[v[1]]
                if d.op == 'phi':
                    return set().union(*[s.origins(f, x, seen + (v[1],)) for x, _ in d.ops])
                if d.op == 'select':
                    return set().union(*[s.origins(f, x, seen + (v[1],)) for x in d.ops[1:]])
                if d.op in ('bitcast', 'freeze'):
                    return s.origins(f, d.ops[0], seen)
                if d.op == 'load' and isinstance(d.ops[0], list) and d.ops[0][0] == 'g':
                    return {('g', d.ops[0][1])}
                if d.op == 'call':
                    return {('c', v[1])}
        return set()

    def touching(s, g):
        t = {n for n, f in s.F.items() if any(i.op in ('load', 'store', 'call') and ['g', g] in (i.ops if i.op != 'call' else i.args) for i in f.instrs())}
        callers = {}
        for n, f in s.F.items():
            for i in f.calls():
                callers.setdefault(i.callee, set()).add(n)
        todo = list(t)
        while todo:
            for c in callers.get(todo.pop(), ()):
                if c not in t:
                    t.add(c)
                    todo.append(c)
        return t

    def tested(s, f, i, v):
        """does the failing result v make the function fail?"""
        k = (f.name, i.id, v)
        if k not in s.memo:
            o = fail.outcomes(f, i, v, s.noret)
            soft = [x for x in o if not failcheck.failing(f, x)]
            s.memo[k] = not soft or f.name not in s.base and f.name != 'main' and all(not isinstance(x, tuple) for x in soft) and \
                not set(soft) & {x for x in fail.outcomes(f, i, 0, s.noret)}
        return s.memo[k]

    def run(s, rounds=40):
        """the typestate of all handles; s.viol: {(where, message)}"""
        for n, c in s.locals:
            s.flow(s.F[n], ('c', c), None)
        for g in sorted(s.globals):
            s.ask('main', ('g', g), None)
        for r in range(rounds):
            before = repr(sorted((k, sorted((str(a), sorted(map(str, b))) for a, b in v.items())) for k, v in s.tab.items()))
            s.viol = {}
            for (n, k), t in list(s.tab.items()):
                for e in list(t):
                    t[e] = s.flow(s.F[n], k, e)
            for n, c in s.locals:
                s.flow(s.F[n], ('c', c), None)
            if before == repr(sorted((k, sorted((str(a), sorted(map(str, b))) for a, b in v.items())) for k, v in s.tab.items())):
                break
        else:
            raise ir.AnalysisBroken('%s: the output states do not settle' % s.m.name)
        for g in sorted(s.globals):
            for st, v in s.ask('main', ('g', g), None):
                if st and not failcheck.failing(s.F['main'], v):
                    s.bad(s.F['main'], None, 'end %s' % g, 'the run can succeed although %s' % s.why(st))

    def ask(s, n, k, e):
        return s.tab.setdefault((n, k), {}).setdefault(e, set())

    def why(s, st):
        return ' and '.join(([] if 'E' not in st else ['no ferror() was tested behind the last write']) + ([] if 'F' not in st else ['no fflush() or fclose() was tested behind the last write']))

    def bad(s, f, i, key, msg):
        s.viol[(f.name, key)] = (i.loc() if i is not None else f.where(), msg)

    def is_handle(s, f, key, v):
        if key[0] == 'g':
            return key in s.origins(f, v)
        return key in s.origins(f, v)

    def flow(s, f, key, entry):
        """{(state, returned value)} at the returns; for a call the handle starts there"""
        rets = {i.ops[0][1] for i in f.instrs() if i.op == 'ret' and i.ops and isinstance(i.ops[0], list) and i.ops[0][0] == 'i'}
        out = set()
        seen = set()
        if key[0] == 'c':
            d = f.defs[key[1]]
            work = [(d.bb, f.blocks[d.bb].index(d) + 1, CLEAN, None)]
        else:
            work = [(0, 0, entry, None)]
        while work:
            b, k, st, rv = work.pop()
            if k == 0:
                if (b, st, rv) in seen:
                    continue
                seen.add((b, st, rv))
            states = {st}
            for i in f.blocks[b][k:]:
                if i.op == 'store' and key[0] == 'g' and i.ops[1] == ['g', key[1]]:
                    o = s.origins(f, i.ops[0])
                    if o:
                        states = {CLEAN}
                elif i.op == 'call' and i.callee:
                    states = set().union(*[s.call(f, i, key, x) for x in states])
                if not states:
                    break
            t = f.blocks[b][-1]
            if not states or t.op == 'unreachable':
                continue
            if t.op == 'ret':
                v = rv
                if v is None and t.ops:
                    v = s.const(f, t.ops[0])
                for x in states:
                    if key[0] == 'c' and not failcheck.failing(f, '?' if v is None else v) and (x or x is not None and x):
                        s.bad(f, f.defs[key[1]], 'local %s' % f.defs[key[1]].callee, 'the file opened here is left although %s' % s.why(x))
                    out.add((x, '?' if v is None else v))
                continue
            only = None
            if t.op == 'br' and len(t.ops) == 3 and key[0] == 'c':
                only = s.null_test(f, t.ops[0], key)
            for x in f.succ[b]:
                if only is not None and x == (t.ops[1] if only else t.ops[2]):
                    continue
                r2 = rv
                for i in f.blocks[x]:
                    if i.op != 'phi':
                        break
                    if i.id in rets:
                        for v, p in i.ops:
                            if p == b:
                                r2 = rv if isinstance(v, list) and v[0] == 'i' and v[1] in rets and f.defs[v[1]].op == 'phi' else s.const(f, v)
                for y in states:
                    work.append((x, 0, y, r2))
        return out

    def const(s, f, v):
        if isinstance(v, int):
            return int(v)
        if isinstance(v, list) and v and v[0] == 'null':
            return 0
        if isinstance(v, list) and v and v[0] == 'i':
            d = f.defs[v[1]]
            if d.op == 'call' and d.callee in s.F:
                rs = {i.ops[0] if isinstance(i.ops[0], int) else None for i in s.F[d.callee].instrs() if i.op == 'ret' and i.ops}
                if len(rs) == 1:
                    return rs.pop()
        return None

    def null_test(s, f, c, key):
        """truth of the branch condition when the handle is NULL"""
        if isinstance(c, list) and c[0] == 'i':
            d = f.defs[c[1]]
            if d.op == 'icmp' and d.ops[0] in ('eq', 'ne'):
                a, b = d.ops[1], d.ops[2]
                if isinstance(a, list) and a and a[0] == 'null':
                    a, b = b, a
                if isinstance(b, list) and b and b[0] == 'null' and s.origins(f, a) == {key}:
                    return d.ops[0] == 'eq'
        return None

    def call(s, f, i, key, st):
        c = i.callee
        if c in WRITES | READS | SEEKS | set(CHECKS) | {'ftell', 'clearerr'}:
            if c == 'fflush' and i.args[0] == ['null']:
                return {st}
            if key not in s.origins(f, handle_arg(i)):
                return {st}
            if c in WRITES:
                return {frozenset('EF')}
            if c in READS:
                if st:
                    s.bad(f, i, 'read %s' % (key[1],), 'the data is read back although %s' % s.why(st))
                return {st}
            if st is None:
                return {st}
            if c in ('rewind', 'clearerr') and ('E' in st or c == 'rewind' and 'F' in st):
                s.bad(f, i, 'clear %s' % (key[1],), '%s() forgets the error flag although %s' % (c, s.why(st)))
                return {st - {'E', 'F'} if c == 'rewind' else st - {'E'}}
            if c in SEEKS:
                return {frozenset('E') if 'F' in st else st}
            if c == 'clearerr':
                return {st}
            if c == 'ftell':
                return {st}
            ok = s.tested(f, i, CHECKS[c])
            (s.tested_checks.setdefault((f.name, i.id), (f, i)) if ok else s.untested.add(i.loc()))
            if c == 'ferror':
                return {st - {'E'} if ok else st}
            if c == 'fflush':
                return {st - {'F'} if ok or 'F' not in st else st - {'F'} | {'E'}}
            n = st - {'F'} if ok else st
            return {n if n else None}
        if c in s.F and c != f.name or c == f.name:
            if c not in s.F:
                return {st}
            res = set()
            hit = False
            for n, a in enumerate(i.args):
                if key[0] == 'g' and a == ['g', key[1]]:
                    # the address of the global: the callee opens it
                    return {CLEAN}
                if (c, n) in s.params and key in s.origins(f, a):
                    hit = True
                    res |= s.returned(f, i, s.ask(c, ('a', n), st))
            if hit:
                return res
            if key[0] == 'g' and c in s.touch[key[1]]:
                return s.returned(f, i, s.ask(c, key, st))
        elif c == 'exit' and st and i.args[0] == 0:
            s.bad(f, i, 'exit %s' % (key[1],), 'the run ends successfully although %s' % s.why(st))
            return set()
        elif c in ('exit', 'abort', '_exit'):
            return set()
        return {st}

    def returned(s, f, i, exits):
        g = s.F[i.callee]
        soft = {(st, v) for st, v in exits if not (isinstance(v, int) and (failcheck.failing(g, v) or i.callee not in s.base))}
        res = {st for st, v in soft}
        for st, v in exits - soft:
            # a state with the same obligations that goes on in any case settles the question; otherwise: does the caller fail, too?
            if st not in res and not (st is not None and any(x is not None and st <= x for x in res)) and not s.tested(f, i, v):
                res.add(st)
        return res
