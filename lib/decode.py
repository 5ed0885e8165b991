"""What evaluate_token() makes of a line that matches an entry of the instruction table.

The function is abstractly interpreted for one entry and a source line that spells it, every operand being one marker character at which
input_number() finds an unknown number, a label, a calculation or anything else.  The source text and the entry are constants, everything else
(the number, the sizes in force, the hints) is a symbol; the emissions of each accepting path are recorded."""
import re
import ir, absint, pathsum
from absint import TOP, State, add, sym, parts, ex
from pathsum import at, key_of, iv
from serial import Ser
from ir import AnalysisBroken

SUCCEEDED, EOL, LABEL, STRING, STACK, FLOAT = 1, 2, 3, 4, 5, 6
MARK = 1            # the operand marker of the source line
END = 0x0A
TABLE = ('g', 'g_instructions_table')
SRC, TOK, STR = ('buf', 'source line'), ('buf', 'token'), ('buf', 'entry')


def placeholder(c):
    return c.islower() or c in '?&~*'


def line(text):
    """(first token, rest of the line with operand markers and the end of the line)"""
    i = text.find(' ')
    if i < 0:
        return text, [END]
    return text[:i], [MARK if placeholder(c) else ord(c) for c in text[i:]] + [END]


class Bad(Exception):
    pass


class Conc(Ser):
    def step(s, i, st):
        if i.op == 'zext':
            v = s.val(i.ops[0], st)
            if isinstance(v, int) and v < 0 and isinstance(i.ops[0], list) and i.ops[0][0] == 'i':
                t = s.fn.defs[i.ops[0][1]].ty
                if t[0] == 'i' and t[1:].isdigit():
                    return v & ((1 << int(t[1:])) - 1)
        return super().step(i, st)


class Dec(Conc):
    def __init__(s, fn, entry, fields, handlers, script=None):
        super().__init__(fn, handlers, None, {})
        s.entry, s.fieldnames, s.script = entry, fields, script
        s.text = entry['string']
        tok, rest = line(s.text)
        if script is not None:
            rest = rest[:rest.index(MARK)] + [MARK] * len(script) + [END]
        s.tok = [ord(c) for c in tok] + [0]
        s.rest = rest
        s.short = False
        s.label = {}

    # ---- constant memory: the table entry, the token and the source line
    def load(s, addr, st):
        p = s.pointer(addr, st)
        if p is TOP:
            return TOP
        k = key_of(p)
        if k[0] == 'f' and k[2] == 'struct.instruction':
            return at(STR) if k[3] == 'string' else s.entry.get(k[3], TOP)
        if k == TABLE:
            return at(STR)
        if k not in st.mem:
            pp = parts(p)
            if pp and len(pp[1]) == 1:
                (x, c), = pp[1]
                if c == 1 and isinstance(x, tuple) and x[0] == 'at':
                    if x[1] == SRC:
                        return s.rest[pp[0]] if 0 <= pp[0] < len(s.rest) else sym(('past', pp[0]))
                    if x[1] == TOK:
                        return s.tok[pp[0]] if 0 <= pp[0] < len(s.tok) else sym(('past', pp[0]))
                    if x[1] == STR:
                        t = s.text
                        if pp[0] < 0:
                            raise Bad('a character before the entry is read')
                        return ord(t[pp[0]]) if pp[0] < len(t) else 0
        return super().load(addr, st)

    # a symbol of the path that is pinned to one value is that value
    def val(s, v, st):
        r = super().val(v, st)
        if isinstance(r, tuple) and r[0] == 'L' and st.facts:
            lo, hi = iv(st.facts, r, s.single)
            if lo is not None and lo == hi:
                return lo
        return r

    def run(s, b, st, idx=0, until=(), region=None):
        done, work, n = [], [(b, idx, st)], 0
        while work:
            b, idx, st = work.pop()
            n += 1
            if n > 40000:
                raise absint.TooBig('%s: too many steps' % s.text)
            for t, x in s.block(b, st, idx):
                if isinstance(t, tuple):
                    done.append((t, x))
                else:
                    work.append((t, 0, x))
        s.nstates += n
        return done


def h_toupper(it, i, st):
    v = it.val(i.args[0], st)
    if isinstance(v, int) and 97 <= v <= 122:
        v -= 32
    return [(v, st)]


def h_input(it, i, st):
    """input_number() at the current source position"""
    gi = st.mem[('g', 'g_source_index')]
    if not isinstance(gi, int) or not 0 <= gi < len(it.rest):
        raise Bad('%s: input_number() beyond the line' % i.loc())
    if it.script is not None:
        # a list of words; then the end of the line
        n = st.mem.get('words', 0)
        t = st.copy()
        t.mem['words'] = n + 1
        t.mem[('g', 'g_source_index')] = gi + 1
        t.mem[('id', ('g', 'g_label'))] = ('word', it.script[n]) if n < len(it.script) else ('junk', n)
        return [(LABEL if n < len(it.script) else EOL, t)]
    k = gi
    while k < len(it.rest) and it.rest[k] in (ord('+'), ord('-'), ord(' ')):
        k += 1
    out = []
    if it.rest[k] != MARK:
        return [(0, st.copy())]      # there is no operand here: any reading of the text other than as this entry is not our concern
    n = sum(1 for c in it.rest[:k] if c == MARK)
    seen = st.mem.get(('read', n), 0)
    for kind in (SUCCEEDED, LABEL, STACK, 0, EOL, STRING, FLOAT):
        t = st.copy()
        t.mem[('read', n)] = seen + 1
        t.mem[('kind', n)] = kind
        t.mem[('g', 'g_source_index')] = k + 1
        t.mem[('sign', n)] = k > gi and it.rest[gi] in (ord('+'), ord('-'))
        for g in ('g_operand_hint', 'g_operand_hint_type'):
            t.mem[('g', g)] = sym((g, n))
        t.facts[('iv', ('g_operand_hint', n))] = (0, 4)
        t.facts[('iv', ('g_operand_hint_type', n))] = (0, 2)
        t.mem[('g', 'g_parsed_int')] = st.mem.get('pin', sym(('N', n))) if kind == SUCCEEDED else sym(('junk', n, 'int', kind))
        t.mem[('id', ('g', 'g_label'))] = ('label', n) if kind == LABEL else ('junk', n)
        t.mem[('g', 'g_latest_stack')] = sym(('S', n)) if kind == STACK else sym(('junk', n, 'stack', kind))
        if kind == STACK:
            t.mem[('g', 'g_last_stack_id')] = add(t.mem[('g', 'g_last_stack_id')], 1)
        t.ev = t.ev + (('operand', n, kind),)
        out.append((kind, t))
    return out


def ident(it, v, st):
    p = st.mem.get(('id', key_of(v))) if v is not TOP else None
    return p


def h_strcpy(it, i, st):
    n = st.copy()
    d, v = it.val(i.args[0], st), it.val(i.args[1], st)
    n.mem[('id', key_of(d))] = ident(it, v, st)
    return [(d, n)]


SPEC = re.compile(r'%(\d*)(l*)([dsixuXfc])')


def h_emit(argno):
    def h(it, i, st):
        f = i.args[argno]
        if not (isinstance(f, list) and f[0] == 's'):
            raise Bad('%s: the format is not constant' % i.loc())
        args = list(i.args[argno + 1:])
        ev = []
        for w in f[1].split():
            m = re.match(r'(.)(?:%(d|s)|(-?\d+))$', w)
            if w in ('%d', '%s'):
                # a further field of the record before
                v = it.val(args.pop(0), st)
                ev.append(('emit', '+', v if w == '%d' else ident(it, v, st), i.line))
                continue
            if not m:
                if w in ('.', ):
                    ev.append(('emit', '.', None, i.line))
                    continue
                raise Bad('%s: cannot interpret the record "%s"' % (i.loc(), w))
            if m.group(2) == 'd':
                ev.append(('emit', m.group(1), it.val(args.pop(0), st), i.line))
            elif m.group(2) == 's':
                ev.append(('emit', m.group(1), ident(it, it.val(args.pop(0), st), st), i.line))
            else:
                ev.append(('emit', m.group(1), int(m.group(3)), i.line))
        if args:
            raise Bad('%s: %d arguments more than conversions' % (i.loc(), len(args)))
        n = st.copy()
        n.ev = n.ev + tuple(e for e in ev)
        return [(len(ev), n)]
    return h


def h_find(it, i, st):
    v = it.val(i.args[0], st)
    n = st.copy()
    p = ('stackobj', v)
    n.facts[('ne', p)] = frozenset([0])
    return [(sym(p), n)]


def h_caseless(it, i, st):
    w, f = ident(it, it.val(i.args[0], st), st), i.args[1]
    if not (isinstance(w, tuple) and w[0] == 'word' and isinstance(f, list) and f[0] == 's'):
        raise Bad('%s: what is compared is not known' % i.loc())
    return [(0 if w[1].upper() == f[1].upper() else 1, st.copy())]


def quiet(it, i, st):
    return [(0, st)]


def h_delete(it, i, st):
    v = it.val(i.args[0], st)
    x = next(iter(v[2]))[0] if isinstance(v, tuple) and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1 else None
    n = st.copy()
    n.ev = n.ev + (('delete', x[1] if isinstance(x, tuple) and x[0] == 'stackobj' else v),)
    return [(0, n)]


HANDLERS = {'toupper': h_toupper, 'input_number': h_input, 'strcpy': h_strcpy, '_output_assembled_instruction': h_emit(1), 'fprintf': h_emit(1), 'find_stack_calculation': h_find, 'get_stack_calculation': h_find, 'print_error': quiet,
            'delete_stack_calculation_struct': h_delete}


def entries(m):
    g = m.globals['g_instructions_table']
    fs = [f[0] for f in m.structs['struct.instruction']['fields']]
    out = []
    for r in g['init'][1:]:
        e = dict(zip(fs, [x[1] if isinstance(x, list) else x for x in r[1:]]))
        out.append(e)
    return out, fs


def prog(cpu):
    name = 'wla-' + cpu
    return ir.load_many([name], None, ir.baseline_functions() - {'_parse_tiny_int', '_parse_push_pull_registers', '_parse_exg_tfr_registers', '_get_register_byte_from_label_exg_tfr'}, ['*'])[name]


def decode(m, fn, entry, fields, extra=None, script=None):
    """accepting paths: [(kinds, facts, emissions, state)]"""
    h = HANDLERS
    if script is not None:
        h = dict(h, strcaselesscmp=h_caseless)
    it = Dec(fn, entry, fields, h, script)
    mem = {('g', 'g_in_enum'): 0, ('g', 'g_in_ramsection'): 0, ('g', 'g_in_struct'): 0, ('g', 'g_source_index'): 0, ('g', 's_parser_source_index'): 0, ('g', 'g_buffer'): at(SRC), ('g', 'g_tmp'): at(TOK),
           ('g', 'g_ss'): len(it.tok) - 1, ('g', 'g_last_stack_id'): 0, ('g', 'g_use_wdc_standard'): 1, ('x', at(('g', 'g_instruction_n')), it.tok[0], 'i32'): 1,
           ('x', at(('g', 'g_instruction_p')), it.tok[0], 'i32'): 0}
    mem.update(extra or {})
    st = State({}, mem, (), {})
    out, no = [], []
    for t, x in it.run(0, st):
        if t[1] == SUCCEEDED:
            out.append(x)
        else:
            no.append((t[1], x))
    return it, out, no


class Gen(Conc):
    """the program that writes the tables by first letter, on the table of instructions"""

    def __init__(s, fn, entries, handlers):
        super().__init__(fn, handlers, None, {})
        s.entries = entries

    def load(s, addr, st):
        p = s.pointer(addr, st)
        if p is not TOP:
            k = key_of(p)
            if k[0] == 'f' and k[2] == 'struct.instruction':
                b = key_of(k[1])
                n = 0 if b == TABLE else b[2] if b[0] == 'x' and key_of(b[1]) == TABLE else None
                if isinstance(n, int) and 0 <= n < len(s.entries):
                    return at(('entry', n)) if k[3] == 'string' else s.entries[n].get(k[3], TOP)
            if k == TABLE:
                return at(('entry', 0))
            if k[0] == 'x' and key_of(k[1]) == TABLE and k[3] == 'struct.instruction' and isinstance(k[2], int) and 0 <= k[2] < len(s.entries):
                return at(('entry', k[2]))
            pp = parts(p)
            if pp and len(pp[1]) == 1:
                (x, c), = pp[1]
                if c == 1 and isinstance(x, tuple) and x[0] == 'at' and isinstance(x[1], tuple) and x[1][0] == 'entry':
                    t = s.entries[x[1][1]]['string']
                    return ord(t[pp[0]]) if pp[0] < len(t) else 0
        return super().load(addr, st)


def g_print(it, i, st):
    n = st.copy()
    f = i.args[1]
    n.ev = n.ev + ((f[1] if isinstance(f, list) and f[0] == 's' else None,) + tuple(it.val(x, st) for x in i.args[2:]),)
    return [(1, n)]


def g_strlen(it, i, st):
    v = it.val(i.args[0], st)
    k = key_of(v) if v is not TOP else None
    return [(len(it.entries[k[1]]['string']) if k and k[0] == 'entry' else TOP, st)]


def g_lower(it, i, st):
    v = it.val(i.args[0], st)
    return [(v + 32 if isinstance(v, int) and 65 <= v <= 90 else v, st)]


def g_open(it, i, st):
    n = st.copy()
    n.facts[('ne', ('file',))] = frozenset([0])
    return [(sym(('file',)), n)]


def tables(cpu):
    """(index of the first entry, number of entries) by letter, as the generator writes them; its source is interpreted on the table of the processor"""
    name = 'gen-' + cpu
    m = ir.load_many([name], None, set(), ['*'])[name]
    es, _ = entries(m)
    fn = m.fn('main')
    quiet1 = lambda it, i, st: [(1, st)]
    it = Gen(fn, es, {'fprintf': g_print, 'strlen': g_strlen, 'tolower': g_lower, 'toupper': h_toupper, 'fopen': g_open, 'strcpy': quiet1, 'printf': quiet1, 'fclose': quiet1})
    st = State({}, {}, (), {})
    out = []
    work, n = [(0, st)], 0
    while work:
        b, st = work.pop()
        n += 1
        if n > 400000:
            raise absint.TooBig('the generator for %s' % cpu)
        for t, x in it.block(b, st, 0):
            if isinstance(t, tuple):
                out.append((t[1], x))
            else:
                work.append((t, x))
    got = []
    for ret, x in out:
        if ret != 0:
            continue
        tab, cur = {}, None
        for e in x.ev:
            w = re.match(r'int (\w+)\[', e[0] or '')
            if w:
                cur = tab.setdefault(w.group(1), [])
            elif cur is not None:
                cur += list(e[1:])
        got.append((tab.get('g_instruction_p'), tab.get('g_instruction_n')))
    return got, [ret for ret, _ in out if ret != 0]
