"""P12: directives mean what the manual says."""
import concurrent.futures as cf, json, os, re
import ir, directives
from common import Check

DATA = os.path.join(os.path.dirname(__file__), '..', 'data', 'directives.json')
GROUPS = {'GB': ['gb'], 'GB8': ['gb', '65816'], 'Z80': ['z80'], '658': ['65816'], '68K': ['68000'], '680': ['6800', '6801', '6809'], '800': ['8008'],
          '808': ['8080'], 'SPC': ['spc700'], 'SFX': ['superfx'], '65x': ['6502', '65c02', '65ce02', '65816', 'huc6280']}
# words that are no directives of the user: written by the preprocessor or inside blocks, or kept for old sources
INTERNAL = {'CHANGEFILE', 'E', 'M', 'IND', 'INDLUDE'}
EXTRA = {'BYTE': 'BYT', 'BANKSIZE': None, 'COMPUTECHECKSUM': 'COMPUTEGBCHECKSUM', 'COMPUTECOMPLEMENTCHECK': 'COMPUTEGBCOMPLEMENTCHECK', '16BIT': None, '8BIT': None}
# words that only have a meaning inside the block another directive opens
INNER = {'ENDA': 'ASCIITABLE', 'ENDE': 'ENUM', 'ENDME': 'MEMORYMAP', 'ENDRO': 'ROMBANKMAP', 'ENDST': 'STRUCT', 'ENDU': 'ENUM', 'NEXTU': 'ENUM', 'UNION': 'ENUM',
         'ENDEMUVECTOR': 'SNESEMUVECTOR', 'ENDNATIVEVECTOR': 'SNESNATIVEVECTOR', 'ENDSNES': 'SNESHEADER', 'ENDGB': 'GBHEADER', 'ENDSMS': 'SMSHEADER',
         'ENDSMD': 'SMDHEADER', 'ENDHEX': 'HEX'}
# aliases that the manual declares and then distinguishes
NOT_SAME = {'ASC'}
COMMON = ['input_number', 'get_next_token', 'skip_next_token', 'print_error', 'next_line', 'find_next_point', 'compare_next_token']
NOT_FOUND = 9


def manual():
    t = open(os.path.join(ir.REPO, 'doc', 'asmdiv.rst')).read()
    table = re.findall(r'^(\S{2,3})\s+``\.([A-Z0-9]+)', t, re.M)
    table = [(g, d) for g, d in table if g in GROUPS or g in ('ALL', '!GB')]
    al = [(a, b) for a, b in re.findall(r'``\.?([A-Z0-9]+)`` is an alias for ``\.?([A-Z0-9]+)``', t) if a not in NOT_SAME]
    if len(table) < 150 or len(al) < 12:
        raise ir.AnalysisBroken('doc/asmdiv.rst: only %d directives and %d aliases found' % (len(table), len(al)))
    return table, al


def literals(S):
    out = set()
    for n in S.users:
        f = S.F[n]
        for i in f.calls():
            if i.callee in directives.EQ or i.callee in S.F and S.reads_text(i.callee):
                for a in i.args[:3]:
                    if isinstance(a, list) and a and a[0] == 's' and re.match(r'[A-Za-z0-9]+$', a[1]):
                        out.add(a[1].upper())
    return out


def enc(e):
    if e[0] == 'record':
        if e[1] == '*':
            return {'record *'}
        m = re.match(r'\s*([A-Za-z<>])', e[1])
        return {'record ' + x for x in re.findall(r'(?:^|(?<= ))([A-Za-z])', re.sub(r'%\S+', '', e[1]))} if m else set()
    return {'%s=%s' % (e[1], e[2])}


def analyse(prog):
    m = ir.load_norm(prog)
    S = directives.Spec(m)
    table, al = manual()
    cpu = prog[4:]
    doc = {d for g, d in table if g == 'ALL' or g == '!GB' and cpu != 'gb' or cpu in GROUPS.get(g, ())}
    words = {d for g, d in table} | set(INTERNAL) | set(EXTRA) | {x for p in al for x in p}
    lits = {w for w in literals(S) if len(w) < 24}
    S.word, S.called = '', set()
    com = S.closure(COMMON)
    res, det = {}, {}
    for w in sorted(words | lits):
        r, a, c, mt = S.word_effects(w)
        res[w] = sorted({str(v) for v, k in r})
        det[w] = (sorted(set().union(*(enc(e) for e in a - com)) - {directives.CUR + '=*'}), sorted(mt), sorted(c))
    rec = {w for w in res if res[w] != [str(NOT_FOUND)]}
    up = S.always_upper()
    bad = {}
    tried = {}
    for w in sorted(rec):
        for v in variants(w):
            if v not in rec and v not in tried:
                tried[v] = w
                r, a, c, mt = S.word_effects(v)
                x = {str(q) for q, k in r}
                if x != {str(NOT_FOUND)}:
                    bad[v] = (w, sorted(mt)[:1])
        for v in () if up else (w.lower(), w.capitalize()):
            r, a, c, mt = S.word_effects(v)
            x = sorted({str(q) for q, k in r})
            e = sorted(set().union(*(enc(e) for e in a - com)) - {directives.CUR + '=*'})
            if (x, e) != (res[w], det[w][0]):
                bad[v] = (w, None)
    # comparisons with the words that close or divide blocks
    dotted = {}
    for f in m.functions():
        for i in f.calls():
            if i.callee in directives.EQ:
                for a in i.args[:2]:
                    if isinstance(a, list) and a and a[0] == 's' and re.match(r'\.[A-Za-z0-9]{2,}$', a[1]):
                        dotted.setdefault(a[1][1:].upper(), []).append((f.name, i.callee, i.loc()))
    calls = {f.name: {i.callee for i in f.calls() if i.callee} for f in m.functions()}
    comc = sorted(set().union(*(enc(e) for e in com)))
    return prog, dict(doc=doc, res=res, det=det, rec=rec, bad=bad, ntried=len(tried), dotted=dotted, calls=calls, com=comc, al=al, up=up, globals=set(m.globals), entry=S.F['parse_directive'].where())


def variants(w):
    out = {w + 'X', 'X' + w, w + '1', w[:-1], w[1:], w + w[-1]}
    if len(w) > 3:
        out.add(w[:1] + w[2:])
        out.add(w[:-2] + w[-1] + w[-2])
    return {v for v in out if v}


def reach(calls, start):
    todo, seen = list(start), set(start)
    while todo:
        for c in calls.get(todo.pop(), ()):
            if c not in seen:
                seen.add(c)
                todo.append(c)
    return seen


def run():
    ck = Check('P12', 'Every directive is recognised, spelt as documented, and does its own job')
    ck.rule('known', 'a directive the manual lists for an assembler is recognised by it, or, when it closes a block, by the code that reads the block')
    ck.rule('only', 'nothing else is recognised: a misspelt directive, a prefix or an extension of one gives "not identified"')
    ck.rule('case', 'a directive is compared without regard to case, also where it ends a block')
    ck.rule('alias', 'a directive the manual calls an alias does exactly what the other one does')
    ck.rule('effects', 'a directive writes the records and sets the parser state that belong to it, and no other')
    progs = [p for p in ir.programs() if p.startswith('wla-')]
    ir.load_many(progs)
    with cf.ProcessPoolExecutor(8) as ex:
        rs = dict(ex.map(analyse, progs))
    base = json.load(open(DATA)) if os.path.exists(DATA) else {}
    got = {}
    for p in progs:
        r = rs[p]
        cpu = p[4:]
        if len(r['rec']) < 120:
            raise ir.AnalysisBroken('%s: only %d directives are recognised' % (p, len(r['rec'])))
        for w in sorted(r['doc']):
            if w in r['rec']:
                ck.good('known', '%s .%s' % (p, w))
            elif w in INNER:
                opener = r['det'].get(INNER[w])
                if INNER[w] not in r['rec']:
                    ck.bad('known', 'known %s' % w, r['entry'], '%s: .%s, which opens the block .%s closes, is not recognised' % (p, INNER[w], w))
                    continue
                fs = reach(r['calls'], opener[2])
                if any(fn in fs or fn == 'parse_directive' or 'parse_enum_token' in fn for fn, c, l in r['dotted'].get(w, ())):
                    ck.good('known', '%s .%s' % (p, w))
                else:
                    ck.bad('known', 'known %s' % w, r['entry'], '%s: .%s is documented, but nothing the handler of .%s reaches compares with it' % (p, w, INNER[w]))
            else:
                ck.bad('known', 'known %s' % w, r['entry'], '%s: .%s is documented for this assembler and ends in "not identified"' % (p, w))
        for w in sorted(r['rec'] - r['doc'] - INTERNAL - set(EXTRA)):
            if any(w == d for d in INNER) or w in base:
                # another assembler's directive or a block word
                if p in base.get(w, {}).get('progs', ()):
                    continue
            ck.bad('only', 'only %s' % w, (r['det'][w][1] or [r['entry']])[0], '%s: .%s is recognised though the manual does not list it for this assembler' % (p, w))
        for v, (w, l) in sorted(r['bad'].items()):
            if v.upper() == w:
                ck.bad('case', 'case %s' % w, r['entry'], '%s: .%s is not treated like .%s' % (p, v, w))
            else:
                ck.bad('only', 'misspelt %s' % v, (l or [r['entry']])[0], '%s: .%s is not refused (.%s is)' % (p, v, w))
        for n in range(r['ntried']):
            ck.good('only', p)
        if r['up']:
            ck.good('case', '%s: the word is put together from toupper() characters only' % p)
        for n in range(0 if r['up'] else 2 * len(r['rec'])):
            ck.good('case', p)
        for w, l in sorted(r['dotted'].items()):
            if w == 'E':
                continue
            for fn, c, loc in l:
                if directives.EQ[c]:
                    ck.bad('case', 'case .%s in %s' % (w, fn), loc, '%s: .%s is compared with %s(), which distinguishes upper and lower case' % (p, w, c))
                else:
                    ck.good('case', loc)
        for a, b in r['al'] + [(x, y) for x, y in EXTRA.items() if y]:
            if a not in r['rec'] or b not in r['rec']:
                continue
            ea, eb = r['det'][a][0], r['det'][b][0]
            if ea == eb and r['res'][a] == r['res'][b]:
                ck.good('alias', '%s .%s = .%s' % (p, a, b))
            else:
                ck.bad('alias', 'alias %s' % a, (r['det'][a][1] or [r['entry']])[0], '%s: .%s is an alias for .%s, but they differ: %s' % (p, a, b, ', '.join(sorted(set(ea) ^ set(eb))) or 'result'))
        for w in sorted(r['rec']):
            got.setdefault(w, {'progs': [], 'effects': {}})
            got[w]['progs'].append(p)
            k = ' '.join(r['det'][w][0])
            got[w]['effects'].setdefault(k, []).append(p)
            b = base.get(w)
            if not b:
                continue
            want = next((k.split() if k else [] for k, ps in b['effects'].items() if p in ps), None)
            if want is None:
                continue
            want = toks(want)
            have = toks(k.split())
            cm = toks(' '.join(r['com']).split())
            msg = diff(want, have, cm, r['globals'], set(base.get('', {}).get('globals', ())))
            if msg:
                ck.bad('effects', 'effects %s' % w, (r['det'][w][1] or [r['entry']])[0], '%s: .%s %s' % (p, w, msg))
            else:
                ck.good('effects', '%s .%s' % (p, w))
    if 'P12_RECORD' not in os.environ:
        ck.floor('effects', 2000)
    else:
        got[''] = {'globals': sorted(set().union(*(r['globals'] for r in rs.values())))}
        json.dump(got, open(DATA, 'w'), indent=0, sort_keys=True)
    ck.floor('known', 2000)
    return ck.finish('parse_directive() of every assembler, partially evaluated for every directive of the manual and of the code, for its lower-case and misspelt forms, and everything the matching branch calls.', [
        'the effects of a directive are the records it may write and the assembler variables it may set, with the value where it is constant, not the order or the condition'])


def toks(l):
    """['record', 'd', 'g=1'] -> {('record d',), ('g', '1')}"""
    out = set()
    it = iter(l)
    for x in it:
        if x == 'record':
            out.add(('record ' + next(it), ''))
        else:
            out.add(tuple(x.split('=')))
    return out


def diff(want, have, common, globs, oldglobs):
    lost, new = [], []
    if ('record *', '') in have and ('record *', '') not in want:
        # the letters of records are put together at run time: not compared
        want, have = ({x for x in y if not x[0].startswith('record')} for y in (want, have))
    want, have = want - {('record *', '')}, have - {('record *', '')}
    hn, wn, cn = {x for x, _ in have}, {x for x, _ in want}, {x for x, _ in common}
    for x in sorted(wn):
        if x not in hn and x not in cn and (x.startswith('record') or x in globs):
            lost.append(x)
    for x in sorted(hn):
        if x not in wn and (x.startswith('record') or x in oldglobs):
            new.append(x)
        elif x in wn:
            w, h = {v for n, v in want if n == x}, {v for n, v in have if n == x}
            if '*' not in w and '*' not in h and w != h:
                new.append('%s := %s instead of %s' % (x, '/'.join(sorted(h)), '/'.join(sorted(w))))
    out = []
    if lost:
        out.append('no longer sets or writes ' + ', '.join(lost))
    if new:
        out.append('now sets or writes ' + ', '.join(new))
    return ' and '.join(out)
