"""P13: source that is skipped is skipped as a whole, and only that."""
import concurrent.futures as cf, itertools
import ir, skips, failcheck
from checks.p12_directives import manual
from common import Check

CONDITION = 'ENDIF'
REPEAT = ('REPT', 'REPEAT', 'WHILE')
SUCCESS = 1
OTHER = ['DB', 'SECTION', 'ENDS', 'MACRO', 'ENDM', 'INCLUDE', 'ENDST', 'STRUCT', 'BANK', 'ENDASM']


def family(words):
    """closer -> the words that open what it closes"""
    return {'ENDIF': tuple(w for w in words if w.startswith('IF')), 'ENDR': REPEAT, 'ASM': ('ENDASM',)}


def sequences(closer, openers, others):
    """[(words, 'end' | 'inside' | 'error', why)]"""
    out = [([closer], 'end', 'the block ends at .%s' % closer), (['E'], 'error' if closer != 'ASM' else 'end', 'the end of the file ends the scan')]
    for o in openers:
        out += [([o, closer], 'inside', 'the .%s of a nested .%s does not end the outer block' % (closer, o)),
                ([o, closer, closer], 'end', 'the .%s behind a nested .%s block ends the outer one' % (closer, o)),
                ([o, o, closer, closer], 'inside', 'two nested .%s blocks do not end the outer one' % o),
                ([o, o, closer, closer, closer], 'end', 'the .%s behind two nested .%s blocks ends the outer one' % (closer, o))]
        if closer == 'ENDIF':
            out += [([o, 'ELSE', closer], 'inside', 'the .ELSE of a nested .%s does not end the outer block' % o),
                    ([o, 'ELSE', closer, closer], 'end', 'nor keeps it open'),
                    ([o, 'ELIF', closer], 'inside', 'the .ELIF of a nested .%s does not end the outer block' % o),
                    ([o, 'ELIF', 'ELSE', closer, closer], 'end', 'nor keeps it open')]
    for w in others:
        out += [([w], 'inside', '.%s has no part in it' % w), ([w, closer], 'end', '.%s has no part in it' % w)]
    return out


def judge(got, want):
    """is the outcome of the loop the wanted one"""
    ends = {g for g in got if g[0] in ('ret', 'out')}
    good = {g for g in ends if g != ('ret', 0)}
    if ('unknown',) in got:
        return False
    if want == 'end':
        return ('inside',) not in got and bool(good)
    if want == 'inside':
        return ('inside',) in got and not good
    return ('inside',) not in got and not good


def analyse(prog):
    m = ir.load_norm(prog)
    S = skips.Skips(m)
    S.success = SUCCESS
    old = S.old = frozenset(failcheck.lines('baseline_functions.txt'))
    table, _ = manual()
    words = sorted({d for g, d in table if g == 'ALL'})
    fam = family(words)
    res = []
    known_rec = set()
    found = {c: 0 for c in fam}
    readers = {'get_next_token', 'skip_next_token'}
    for n, f in S.F.items():
        if n not in old and n not in readers and any(i.callee in readers for i in f.calls()):
            readers.add(n)
    for f in m.functions():
        ls = S.loops_of(f, set(fam))
        for h, body in ls:
            where = next((i.loc() for i in f.blocks[h] + [i for b in sorted(body) for i in f.blocks[b]] if i.op == 'call' and i.callee), f.where())
            cl = [c for c in fam if any(judge(S.simulate(f, h, body, [c]), 'end') for _ in (0,))]
            if len(cl) != 1:
                # the closer is not seen to end it: take the one it is compared with
                ws = set().union(*(S.compared(f, i) for b in body for i in f.blocks[b] if i.op == 'call' and i.callee))
                cl = [c for c in fam if c in ws][:1]
            c = cl[0]
            found[c] += 1
            # .ELSE and .ELIF may end a false branch, but not the scan to .ENDIF behind a true one
            others = [w for w in OTHER + [x for k in fam if k != c for x in fam[k][:2] + (k,)] if w != c and w not in fam[c]]
            if c != 'ASM':
                others = [w for w in others if w != 'ASM']
            for seq, want, why in sequences(c, fam[c], others):
                got = S.simulate(f, h, body, seq)
                if c == 'ENDIF' and 'ELSE' in seq and not judge(S.simulate(f, h, body, ['ELSE']), 'inside'):
                    pass
                res.append(('nesting', f.name, where, ' '.join(seq), judge(got, want), '%s, but after %s the scan %s' % (why, ' '.join('.' + w for w in seq), state(got))))
            if c == 'ENDIF':
                first = S.simulate(f, h, body, ['ELSE'])
                if ('inside',) not in first:
                    # the scan of a branch that is not taken: .ELSE of this block ends it
                    res.append(('nesting', f.name, where, 'ELSE', any(g != ('ret', 0) for g in first), 'the .ELSE of the block ends a false branch'))
                    el = S.simulate(f, h, body, ['ELIF'])
                    res.append(('nesting', f.name, where, 'ELIF', any(g[0] == 'ret' and g != ('ret', 0) for g in el), 'the .ELIF of the block ends a false branch'))
            at = S.modes(f)
            mode = at.get((h, 0), {})
            for g, name in ((skips.SUBST, 'string substitution'), (skips.MACRO, 'the decoding of macro arguments')):
                v = set(mode.get(g, ('?',)))
                if v & {'O', '?'} and f.name not in old:
                    v = set().union(*callers_mode(S, f.name, g)) or v
                res.append(('mode', f.name, where, g, v == {0}, '%s is not switched off while the block is skipped' % name))
        if S.sets_mode(f):
            at = S.modes(f)
            for g, name, good in ((skips.SUBST, 'string substitution', {1, 'O'}), (skips.MACRO, 'the active macro', {'O'})):
                if not any(i.op == 'store' and i.ops[1] == ['g', g] and i.ops[0] == 0 for i in f.instrs()):
                    continue
                if g == skips.MACRO and not ls:
                    continue
                if f.name not in old and not ls:
                    continue
                bad = []
                for v, b in skips.returns(f):
                    if v == 0:
                        continue
                    # a value that is another call's result: that call judges itself
                    a = set(end_mode(S, f, at, b, g))
                    if a - good:
                        bad.append((f.blocks[b][-1].loc(), a))
                res.append(('restore', f.name, f.where(), g, not bad, '%s is not restored on the way out (%s)' % (name, bad[0][0] if bad else '')))
        for st, why, ok in skips.rewinds(m, f, readers):
            res.append(('lines', f.name, st.loc(), why, ok, 'g_source_index goes back to a position that %s, but line_current does not' % why))
    return prog, found, res


def end_mode(S, f, at, b, g):
    """the value of a mode variable at the end of block b"""
    blk = f.blocks[b]
    v = at.get((b, len(blk) - 1), {}).get(g, ())
    return v


def callers_mode(S, n, g):
    out = []
    for f in S.F.values():
        cs = [(b, j) for b, blk in enumerate(f.blocks) for j, i in enumerate(blk) if i.op == 'call' and i.callee == n]
        if cs:
            at = S.modes(f)
            out += [set(at[c][g]) for c in cs if c in at]
    return out


def state(got):
    a = []
    if ('inside',) in got:
        a.append('goes on')
    if any(g == ('ret', 0) for g in got):
        a.append('fails')
    if any(g[0] in ('ret', 'out') and g != ('ret', 0) for g in got):
        a.append('ends')
    return ' or '.join(a) or 'is not decided'


def run():
    ck = Check('P13', 'Skipped source has no effect, and the block that is skipped ends where it should')
    ck.rule('nesting', 'the scan over a block ends at the directive that closes this block, not at one of a nested block, and at the end of the file')
    ck.rule('mode', 'while a block is skipped no string is substituted and no macro argument is expanded')
    ck.rule('restore', 'after the block substitution and macro arguments work as before')
    ck.rule('lines', 'where the reading position is set back the line number is set back with it')
    progs = [p for p in ir.programs() if p.startswith('wla-')]
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = list(ex.map(analyse, progs))
    seen = set()
    for prog, found, res in rs:
        if found['ENDIF'] < 1 or found['ENDR'] < 1 or found['ASM'] < 1:
            raise ir.AnalysisBroken('%s: the scans over skipped blocks are not found: %s' % (prog, found))
        for rule, fn, where, what, ok, msg in res:
            if ok:
                if (rule, fn, where, what) not in seen:
                    seen.add((rule, fn, where, what))
                    ck.good(rule, '%s: %s' % (where, what))
            else:
                ck.bad(rule, '%s %s %s' % (rule, fn, what), where, '%s: %s' % (prog, msg))
    ck.floor('nesting', 150)
    ck.floor('mode', 8)
    ck.floor('lines', 6)
    return ck.finish('Every loop of the assemblers that reads tokens up to .ENDIF, .ENDR or .ASM, run abstractly over the sequences of words that distinguish nesting; the parser modes at its entry and at the returns behind it; every assignment that sets the reading position back.', [
        'get_next_token() returns the next word of the source; blocks nest, so one and two levels of every opener decide the counting'])
