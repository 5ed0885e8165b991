"""P06: what the linker makes of an object or library file is what the assembler put into it.

The assembler's writer is interpreted abstractly over every kind of record (two records of the kind, every type/status, everything else empty), which
gives the file as a sequence of bytes of named values; the linker's reader is interpreted over that sequence, and the records it builds are
compared field by field with the records written.  A field mismatch, a read past the end, bytes left over, or a rejected file is a violation."""
import os, re
import ir, absint, serial
from absint import TOP, State, sym, parts, add
from common import Check
from ir import AnalysisBroken
from pathsum import at, key_of, iv
import pathsum
from checks.p05_fields import constants

CHAIN = ['check_file_types', 'check_headers', 'obtain_rombanks', 'obtain_rombankmap', 'obtain_memorymap', 'obtain_source_file_names', 'collect_dlr', 'parse_data_blocks']
HEADS = {'g_file_name_info_first': 'file_name_info', 'g_export_first': 'export_def', 'g_labels': 'label_def', 'g_unknown_labels': 'label_def', 'g_unknown_header_labels': 'label_def',
         'g_label_sizeofs': 'label_sizeof', 'g_after_sections': 'after_section', 'g_sections_first': 'section_def'}
COUNTS = ['g_last_stack_id', 'g_rombanks', 'g_slots_amount', 'g_max_address', 'g_global_listfile_items']
FLAGS = ('g_smc_defined g_sramsize_defined g_sramsize g_hirom_defined g_lorom_defined g_exhirom_defined g_exlorom_defined g_fastrom_defined g_snes_mode g_computesneschecksum_defined '
         'g_rombankmap_defined g_listfile_data g_computesmschecksum_defined g_smstag_defined g_smsheader_defined g_smsforcechecksum_defined g_smschecksumsize_defined '
         'g_computechecksum_defined g_computecomplementcheck_defined g_computesmdchecksum_defined').split()
WKEEP = {'find_stack_calculation', 'hashmap_get', 'print_text', 'print_error'}
RKEEP = {'print_text', 'hashmap_get', 'hashmap_new', 'hashmap_put', 'mem_insert', 'is_label_anonymous', 'parse_context_from_name', 'add_pointer_to_a_pointer_array', 'get_file'}
LISTS = ['g_labels_first', 'g_reference_first', 'g_stacks_first', 'g_sec_first', 'g_sec_bankhd_first', 'g_label_sizeofs', 'g_after_sections', 'g_labels_last', 'g_reference_last', 'g_stacks_last', 'g_sec_last']
WRITER = {'object': 'write_object_file', 'library': 'write_library_file'}
OBJ = {n: sym(('obj', 'file', n)) for n in (0, 1)}


FIRST = set()      # (struct, name of its first field)


def wfield(b, struct, f):
    """memory key of a field of a record of the assembler"""
    return key_of(b) if ('w', struct, f) in FIRST else pathsum.field(b, struct, f)


def rfield(b, struct, f):
    """... of the linker"""
    return key_of(b) if ('r', struct, f) in FIRST else pathsum.field(b, struct, f)


def addr(b, struct, f):
    return b if ('w', struct, f) in FIRST else at(wfield(b, struct, f))


def E(head, n):
    return sym(('rec', head, n))


def writer(m, kind, pins, fixed, heads=(), n=2, counts=None, facts=None):
    """all files the writer produces: [(bytes, facts)]"""
    mem = {('g', h): 0 for h in list(HEADS) + COUNTS + FLAGS}
    mem[('g', 'g_little_endian')] = 1
    f = dict(facts or {})
    fx = dict(fixed)
    for k in range((counts or {}).get('g_last_stack_id', 0)):
        f[('iv', ('m', wfield(('e', 'call', 'find_stack_calculation', k, 0), 'stack', 'is_function_body')))] = (0, 1)
    for h in heads:
        mem[('g', h)] = E(h, 0)
        for k in range(n):
            f[('iv', ('m', wfield(E(h, k), 'section_def', 'id')))] = (1, 65535)
            mem[wfield(E(h, k), HEADS[h], 'next')] = E(h, k + 1) if k < n - 1 else 0
            f[('ne', ('rec', h, k))] = frozenset([0])
    mem.update({('g', k): v for k, v in (counts or {}).items()})
    mem.update(pins)
    it, res = serial.write(m, WRITER[kind], None, {'mem': mem, 'facts': f}, fx)
    seen = set()
    for s in res:
        d = [e[1] for e in s.ev if e[0] == 'b']
        k = (tuple(d), frozenset(s.facts.items()))
        if k not in seen:
            seen.add(k)
            yield it, d, s


def reader(L, files, facts, chain=CHAIN):
    data = {('FILE', n): d for n, d in enumerate(files)}
    mem = {('g', 'g_obj_first'): OBJ[0]}
    f = dict(facts)
    for n in range(len(files)):
        o = OBJ[n]
        mem[rfield(o, 'object_file', 'data')] = sym(('FILE', n))
        mem[rfield(o, 'object_file', 'size')] = len(files[n])
        mem[rfield(o, 'object_file', 'next')] = OBJ[n + 1] if n + 1 < len(files) else 0
        f[('ne', ('obj', 'file', n))] = frozenset([0])
    for g in LISTS:
        mem[('g', g)] = 0
    mem[('g', 'g_section_table_table_max')] = -1
    ok = serial.ok

    def tables(it, i, st):
        n = st.copy()
        n.ev = n.ev + (('table', it.val(i.args[0], st), it.val(i.args[1], st)),)
        return [(1, n)]

    def memcpy(it, i, st):
        n = st.copy()
        k = it.val(i.args[2], st)
        lo, hi = iv(st.facts, k, it.single) if k is not TOP else (None, None)
        if lo is None or lo != hi:
            raise serial.Unknown('%s: copy of an unknown amount' % i.loc())
        d, c = it.val(i.args[0], st), it.val(i.args[1], st)
        for j in range(lo):
            n.mem[key_of(add(d, j))] = it.byte_at(add(c, j), st)
        return [(d, n)]
    h = {'is_label_anonymous': lambda it, i, st: [(0, st)], 'add_pointer_to_a_pointer_array': tables, 'memcpy': memcpy, 'llvm.memcpy.p0.p0.i64': memcpy, 'strcmp': lambda it, i, st: [(1, st)],
         'snprintf': serial.skip}
    return serial.read(L, chain, data, State({}, mem, (), f), {}, h)


def run():
    C = constants()
    ck = Check('P06', 'The linker reads object and library files exactly as the assembler wrote them')
    ck.rule('complete', 'The reader accepts every file the writer produces, reads all of it, and never reads past its end')
    ck.rule('records', 'Every record of the file becomes one record of the same kind in the linker')
    ck.rule('fields', 'Every field of a record arrives as it was written')
    ck.rule('header', 'Every property of the project in the header of the file arrives in the setting of the linker it belongs to')
    ck.rule('data', 'The linker writes exactly the used bytes of the ROM image, each to its address')
    jobs = plan(C)
    ms = ir.load_many(['wla-65816', 'wlalink'], ['phase_4.c', 'listfile.c', 'analyze.c', 'check.c'], ir.baseline_functions() - INTO, ['*'])
    firsts(ms['wla-65816'], ms['wlalink'])
    ck.parallel(lambda c, j: one(c, j, ms, C), jobs)
    hs = ir.load_many(HEADER_PROGS, ['phase_4.c', 'listfile.c'], ir.baseline_functions() - INTO, ['*'])
    ck.parallel(lambda c, j: header(c, hs[j], j, ms['wlalink'], C), HEADER_PROGS)
    ck.floor('complete', 100)
    ck.floor('records', 150)
    ck.floor('fields', 1500)
    ck.floor('header', 60)
    ck.floor('data', 8)
    return ck.finish('Abstract interpretation of write_object_file()/write_library_file() over two records of every kind, and of the linker\'s reading functions over the bytes that gives; '
                     'bytes are (value, position) pairs, so every field of every record is compared exactly; header bits for %s.' % ', '.join(HEADER_PROGS),
                     ['strings have one character (terminators are explored)', 'one-byte fields hold values of 0-255', 'fewer than 65536 sections', 'libraries hold no SEMISUPERFREE section (the assembler refuses it)', 'hash maps return what was put into them'], 'other')


INTO = {'export_definitions', 'export_source_file_names', 'listfile_globals_write', 'listfile_block_write', 'listfile_block_read', 'listfile_block_read_global', 'add_label', 'add_reference',
        'add_stack', 'add_section'}
HEADER_PROGS = ['wla-65816', 'wla-z80', 'wla-gb', 'wla-65ce02', 'wla-68000', 'wla-6502']


def firsts(w, r):
    NAMED.update(n.replace('struct.', '') for n, d in w.structs.items() if d['fields'] and not d['fields'][0][0].isdigit())
    for side, m in (('w', w), ('r', r)):
        for n, d in m.structs.items():
            if d['fields']:
                FIRST.add((side, n.replace('struct.', ''), d['fields'][0][0]))


def values(C, prefix, drop=()):
    return sorted({v for k, v in C.items() if k.startswith(prefix) and k not in drop})


def plan(C):
    out = []
    secs = values(C, 'SECTION_STATUS_')
    for kind in ('object', 'library'):
        base = {('label_def', 'alive'): 1, ('section_def', 'alive'): 1, ('after_section', 'alive'): 1}

        def case(name, fixed=None, heads=(), counts=None, n=2, **kw):
            out.append((kind, name, dict(base, **{}) | (fixed or {}), heads, counts or {}, n, kw))
        case('empty')
        case('source', {}, ['g_file_name_info_first'])
        for t in ('VALUE', 'STACK'):
            case('definition', {('definition', 'type'): C['DEFINITION_TYPE_' + t]}, ['g_export_first'])
        for s in (0, 1, 2):
            case('label', {('label_def', 'symbol'): s}, ['g_labels'], n=1 if s == 2 else 2, pair=s == 0)
        case('label', {('label_def', 'symbol'): 0, ('label_def', 'alive'): 0}, ['g_labels'], dead=True)
        for t in values(C, 'REFERENCE_TYPE_'):
            case('reference', {('label_def', 'type'): t}, ['g_unknown_labels'], pair=t == 0)
            if kind == 'object':
                case('reference', {('label_def', 'type'): t}, ['g_unknown_header_labels'], header=True)
        for t in values(C, 'STACK_TYPE_'):
            for rel in (0, 1):
                if not (rel and t == C['STACK_TYPE_BITS']):
                    case('calculation', {('stack', 'type'): t, ('stack', 'relative_references'): rel, ('stack', 'stacksize'): 1, ('stack_item', 'type'): C['STACK_ITEM_TYPE_VALUE']}, (),
                         {'g_last_stack_id': 1}, pair=t == 0 and rel == 0)
        for t in values(C, 'STACK_ITEM_TYPE_'):
            case('calculation', {('stack', 'type'): C['STACK_TYPE_16BIT'], ('stack', 'relative_references'): 0, ('stack', 'stacksize'): 2, ('stack_item', 'type'): t}, (), {'g_last_stack_id': 1})
        case('calculation', {('stack', 'type'): C['STACK_TYPE_16BIT'], ('stack', 'relative_references'): 0, ('stack', 'stacksize'): 1, ('stack_item', 'type'): C['STACK_ITEM_TYPE_VALUE']}, (),
             {'g_last_stack_id': 2})
        case('sizeof', {}, ['g_label_sizeofs'])
        case('after', {}, ['g_after_sections'])
        case('after', {('after_section', 'alive'): 0}, ['g_after_sections'], dead=True)
        for s in secs:
            if kind == 'library' and s == C['SECTION_STATUS_SEMISUPERFREE']:
                continue        # refused by the assembler
            for size in (0, 2):
                case('section', {('section_def', 'status'): s, ('section_def', 'size'): size, ('section_def', 'listfile_items'): 0}, ['g_sections_first'], n=1, pair=s == secs[0] and size == 2)
            case('section', {('section_def', 'status'): s, ('section_def', 'size'): 1, ('section_def', 'listfile_items'): 2, ('section_def', 'nspace'): 0}, ['g_sections_first'],
                 {'g_listfile_data': 1}, n=1)
        case('section', {('section_def', 'status'): secs[0], ('section_def', 'size'): 2, ('section_def', 'listfile_items'): 0}, ['g_sections_first'], n=2)
        case('section', {('section_def', 'status'): secs[0], ('section_def', 'alive'): 0, ('section_def', 'size'): 1, ('section_def', 'listfile_items'): 0}, ['g_sections_first'], dead=True)
        case('listing', {}, (), {'g_global_listfile_items': 2, 'g_listfile_data': 1})
        if kind == 'object':
            case('data', {}, (), {'g_max_address': 3})
            case('banks', {}, (), {'g_rombanks': 2, 'g_rombankmap_defined': 0})
            case('banks', {}, (), {'g_rombanks': 2, 'g_rombankmap_defined': 1})
            case('slots', {}, (), {'g_slots_amount': 2})
    return out


class Job:
    def __init__(s, ck, kind, name, fixed, it, wst, st, kw, C, base, files):
        s.ck, s.kind, s.name, s.fixed, s.it, s.w, s.r, s.kw, s.C, s.base, s.files = ck, kind, name, fixed, it, wst, st, kw, C, base, files

    def what(s):
        f = ', '.join('%s.%s=%s' % (a, b, v) for (a, b), v in sorted(s.fixed.items()) if b not in ('alive',) or v == 0)
        return '%s file, %s%s' % (s.kind, s.name, ' (%s)' % f if f else '')

    def bad(s, rule, key, text):
        s.ck.bad(rule, '%s %s %s' % (s.kind, s.name, key), s.what(), text)

    def good(s, rule):
        s.ck.good(rule, s.what())

    def written(s, e, struct, f):
        return s.fixed.get((struct, f), s.w.mem.get(wfield(e, struct, f), sym(('m', wfield(e, struct, f)))))

    def cell(s, k):
        v = s.r.mem.get(k)
        return 0 if v is None else v

    def read(s, o, struct, f):
        return s.cell(rfield(o, struct, f))

    def objects(s, struct):
        """records of the reader: base values of fields of the struct"""
        o = {}
        for k in s.r.mem:
            if k[0] == 'f' and k[2] == 'struct.' + struct:
                p = parts(k[1])
                if p and len(p[1]) == 1:
                    (x, c), = p[1]
                    if isinstance(x, tuple) and x[0] == 'new':
                        o[x[2]] = k[1]
        return [o[k] for k in sorted(o)]

    def same(s, rec, f, got, want, byte=False):
        ok = got == want
        if byte and not ok:
            ok = serial.strip(got) == (want, 0) or (isinstance(want, int) and isinstance(got, int) and (got & 255) == (want & 255))
        if not ok:
            s.bad('fields', '%s' % f, 'field %s of the %s arrives as %s, written was %s' % (f, s.name, show(got), show(want)))
        else:
            s.good('fields')
        return ok

    def text(s, f, key, want):
        """key: cell of the first character; want: the string (value of the char array or pointer) written"""
        p = sym(('at', key)) if key[0] != 'p' else key[1]
        a, b = s.cell(key_of(p)), s.cell(key_of(add(p, 1)))
        ok = serial.strip(a) == (sym(('chr', want)), 0) and b == 0
        if not ok:
            s.bad('fields', f, 'the text %s of the %s arrives as %s %s, written was %s' % (f, s.name, show(a), show(b), show(want)))
        else:
            s.good('fields')


def show(v):
    v = str(v)
    for a in ("frozenset", "struct."):
        v = v.replace(a, '')
    return v if len(v) < 160 else v[:160] + '...'


def one(ck, job, ms, C):
    kind, name, fixed, heads, counts, n, kw = job
    m, L = ms['wla-65816'], ms['wlalink']
    j0 = Job(ck, kind, name, fixed, None, None, None, kw, C, 0, None)
    try:
        empty = [d for it, d, s in writer(m, 'object', {}, {})]
        if len(empty) != 1:
            raise AnalysisBroken('write_object_file(): %d empty files' % len(empty))
        files = list(writer(m, kind, {}, fixed, heads, n, counts))
    except serial.Unknown as e:
        j0.bad('complete', 'write', 'the file written cannot be followed: %s' % e)
        return
    if not files:
        j0.bad('complete', 'none', 'no file is written')
    for it, d, w in files:
        alone = kind == 'object' and not kw.get('pair')
        fl = [d] if alone else [empty[0], d]
        who = len(fl) - 1
        base = 0 if alone else 0x10000
        try:
            ends = list(reader(L, fl, w.facts))
        except serial.PastEnd as e:
            j0.bad('complete', 'past the end', 'the linker reads past the end of the file at %s' % e.i.loc())
            continue
        except serial.Unknown as e:
            j0.bad('complete', 'unknown', 'the linker takes bytes for a count or a length which are none: %s' % show(e))
            continue
        if not ends:
            j0.bad('complete', 'no end', 'the reader never ends')
        for fn, r, st in ends:
            j = Job(ck, kind, name, fixed, it, w, st, kw, C, base, fl)
            j.o = OBJ[who]
            if fn:
                j.bad('complete', 'rejected', '%s() rejects the file' % fn)
                continue
            j.good('complete')
            compare(j, heads, counts, n, who)


def compare(j, heads, counts, n, who):
    C, name, kind = j.C, j.name, j.kind
    kinds = {'label': [], 'reference': [], 'stack': [], 'section': [], 'after_section': [], 'label_sizeof': [], 'source_file_name': []}
    for k in kinds:
        kinds[k] = j.objects(k)
    want = {k: 0 for k in kinds}
    want.update({'definition': {'label': n}, 'label': {'label': n}, 'reference': {'reference': n}, 'sizeof': {'label_sizeof': n}, 'after': {'after_section': n}, 'section': {'section': n},
                 'source': {'source_file_name': n}}.get(name, {}) if not j.kw.get('dead') else {})
    calcs = []
    if name == 'calculation':
        for k in range(counts['g_last_stack_id']):
            st = ('e', 'call', 'find_stack_calculation', k, 0)
            live, nul = known(j.w.facts, sym(('m', wfield(st, 'stack', 'is_function_body')))), isnull(j.w.facts, st)
            if not nul and live == 0:
                calcs.append(st)
        want['stack'] = len(calcs)
    if name == 'definition':
        # unknown definitions are not exported
        want['label'] = sum(1 for k in range(n) if not isnull(j.w.facts, definition(heads[0], k)))
    for k, v in want.items():
        if len(kinds[k]) != v:
            j.bad('records', k, '%d records of the kind %s arrive, %d were written' % (len(kinds[k]), k, v))
            return
    j.good('records')
    o = kinds
    obj = j.o
    F = lambda f: j.cell(rfield(obj, 'object_file', f))
    fid = sym(('m', rfield(obj, 'object_file', 'id')))
    own = {f: sym(('m', rfield(obj, 'object_file', f))) for f in ('bank', 'slot', 'base', 'base_defined')}

    def pick(recs, namef, elems, wname):
        """pair the records of the reader with those of the writer by the text"""
        out = []
        left = list(elems)
        for r in recs:
            c = serial.strip(j.cell(namef(r)))
            e = [x for x in left if (sym(('chr', wname(x))), 0) == c]
            if not e:
                j.bad('fields', 'name', 'the name of a %s arrives as %s, which was not written' % (name, show(c)))
                return []
            left.remove(e[0])
            out.append((r, e[0]))
        return out

    def section_id(r, struct, wid, zero):
        got, stt = j.read(r, struct, 'section'), j.read(r, struct, 'section_status')
        v = known(j.r.facts, wid)
        if zero and v == 0:
            j.same(r, 'section_status', stt, C['OFF'])
        else:
            j.same(r, 'section', got, add(wid, j.base))
            j.same(r, 'section_status', stt, C['ON'])
    if name == 'source' and not j.kw.get('dead'):
        for r, e in pick(o['source_file_name'], lambda r: key_of(j.read(r, 'source_file_name', 'name')), [E(heads[0], k) for k in range(n)], lambda e: j.written(e, 'file_name_info', 'name')):
            j.text('name', key_of(j.read(r, 'source_file_name', 'name')), j.written(e, 'file_name_info', 'name'))
            j.same(r, 'id', j.read(r, 'source_file_name', 'id'), j.written(e, 'file_name_info', 'id'))
            c = j.read(r, 'source_file_name', 'checksum')
            w = j.written(e, 'file_name_info', 'checksum')
            j.same(r, 'checksum', low32(c), low32(w))
        # the list of names keeps them all
        first = j.cell(rfield(obj, 'object_file', 'source_file_names_list'))
        seen = []
        while first in o['source_file_name'] and first not in seen:
            seen.append(first)
            first = j.read(first, 'source_file_name', 'next')
        if len(seen) != n:
            j.bad('records', 'list', 'the list of source files holds %d of %d names' % (len(seen), n))
    elif name == 'definition':
        ds = [definition(heads[0], k) for k in range(n) if not isnull(j.w.facts, definition(heads[0], k))]
        for r, e in pick(o['label'], lambda r: rfield(r, 'label', 'name'), ds, lambda e: j.written(e, 'definition', 'alias')):
            j.text('name', rfield(r, 'label', 'name'), j.written(e, 'definition', 'alias'))
            for f in ('address', 'rom_address'):
                j.same(r, f, j.read(r, 'label', f), j.written(e, 'definition', 'value'))
            t = j.fixed[('definition', 'type')]
            j.same(r, 'status', j.read(r, 'label', 'status'), C['LABEL_STATUS_DEFINE' if t == C['DEFINITION_TYPE_VALUE'] else 'LABEL_STATUS_STACK'])
            j.same(r, 'file', j.read(r, 'label', 'file_id'), fid)
            j.same(r, 'section_status', j.read(r, 'label', 'section_status'), C['OFF'])
    elif name == 'label' and not j.kw.get('dead'):
        sy = j.fixed[('label_def', 'symbol')]
        es = [E(heads[0], k) for k in range(n)]
        prs = list(zip(o['label'], es)) if sy == 2 else pick(o['label'], lambda r: rfield(r, 'label', 'name'), es, lambda e: addr(e, 'label_def', 'label'))
        for r, e in prs:
            if sy != 2:
                j.text('name', rfield(r, 'label', 'name'), addr(e, 'label_def', 'label'))
            j.same(r, 'status', j.read(r, 'label', 'status'), C[{0: 'LABEL_STATUS_LABEL', 1: 'LABEL_STATUS_SYMBOL', 2: 'LABEL_STATUS_BREAKPOINT'}[sy]])
            j.same(r, 'file_id_source', j.read(r, 'label', 'file_id_source'), j.written(e, 'label_def', 'filename_id'))
            j.same(r, 'file', j.read(r, 'label', 'file_id'), fid)
            j.same(r, 'address', j.read(r, 'label', 'address'), ('e', 'sitofp', j.written(e, 'label_def', 'address')))
            j.same(r, 'linenumber', j.read(r, 'label', 'linenumber'), j.written(e, 'label_def', 'linenumber'))
            j.same(r, 'alive', j.read(r, 'label', 'alive'), 1)
            place(j, r, e, 'label', 'label_def', own)
            section_id(r, 'label', j.written(e, 'label_def', 'section_id'), kind == 'object')
    elif name == 'reference':
        es = [E(heads[0], k) for k in range(n)]
        for r, e in pick(o['reference'], lambda r: rfield(r, 'reference', 'name'), es, lambda e: addr(e, 'label_def', 'label')):
            j.text('name', rfield(r, 'reference', 'name'), addr(e, 'label_def', 'label'))
            j.same(r, 'type', j.read(r, 'reference', 'type'), j.fixed[('label_def', 'type')], True)
            if not j.kw.get('header'):
                j.same(r, 'special_id', j.read(r, 'reference', 'special_id'), j.written(e, 'label_def', 'special_id'), True)
            j.same(r, 'file_id_source', j.read(r, 'reference', 'file_id_source'), j.written(e, 'label_def', 'filename_id'))
            j.same(r, 'file', j.read(r, 'reference', 'file_id'), fid)
            if j.fixed[('label_def', 'type')] == C['REFERENCE_TYPE_BITS']:
                for f in ('bits_position', 'bits_to_define'):
                    j.same(r, f, j.read(r, 'reference', f), j.written(e, 'label_def', f), True)
            j.same(r, 'linenumber', j.read(r, 'reference', 'linenumber'), j.written(e, 'label_def', 'linenumber'))
            j.same(r, 'address', j.read(r, 'reference', 'address'), j.written(e, 'label_def', 'address'))
            place(j, r, e, 'reference', 'label_def', own)
            section_id(r, 'reference', j.written(e, 'label_def', 'section_id'), kind == 'object')
    elif name == 'calculation':
        for r, e in zip(o['stack'], calcs):
            W = lambda f: j.written(e, 'stack', f)
            R = lambda f: j.read(r, 'stack', f)
            for f, g in (('id', 'id'), ('file_id_source', 'filename_id'), ('address', 'address'), ('linenumber', 'linenumber')):
                j.same(r, f, R(f), W(g))
            for f in ('type', 'special_id', 'position', 'stacksize', 'relative_references'):
                j.same(r, f, R(f), W(f), True)
            j.same(r, 'file', R('file_id'), fid)
            if W('type') == C['STACK_TYPE_BITS']:
                for f in ('bits_position', 'bits_to_define'):
                    j.same(r, f, R(f), W(f), True)
            place(j, r, e, 'stack', 'stack', own)
            section_id(r, 'stack', W('section_id'), True)
            if not [x for x in j.r.ev if x[0] == 'table' and x[1] == r and x[2] == W('id')]:
                j.bad('fields', 'table', 'a calculation is not entered into the table of calculations under its number')
            for k in range(W('stacksize')):
                wi = item(W('stack_items'), k)
                ri = item(R('stack_items'), k)
                t = j.fixed[('stack_item', 'type')]
                j.same(r, 'item type', j.read(ri, 'stack_item', 'type'), t, True)
                j.same(r, 'item sign', j.read(ri, 'stack_item', 'sign'), j.written(wi, 'stack_item', 'sign'), True)
                if t in (C['STACK_ITEM_TYPE_LABEL'], C['STACK_ITEM_TYPE_STRING']):
                    j.text('item string', rfield(ri, 'stack_item', 'string'), addr(wi, 'stack_item', 'string'))
                else:
                    for f in ('value_ram', 'value_rom'):
                        j.same(r, 'item ' + f, j.read(ri, 'stack_item', f), j.written(wi, 'stack_item', 'value'))
    elif name == 'sizeof':
        for r, e in pick(o['label_sizeof'], lambda r: rfield(r, 'label_sizeof', 'name'), [E(heads[0], k) for k in range(n)], lambda e: addr(e, 'label_sizeof', 'name')):
            j.text('name', rfield(r, 'label_sizeof', 'name'), addr(e, 'label_sizeof', 'name'))
            j.same(r, 'size', j.read(r, 'label_sizeof', 'size'), j.written(e, 'label_sizeof', 'size'))
            j.same(r, 'file', j.read(r, 'label_sizeof', 'file_id'), fid)
    elif name == 'after' and not j.kw.get('dead'):
        for r, e in pick(o['after_section'], lambda r: rfield(r, 'after_section', 'after'), [E(heads[0], k) for k in range(n)], lambda e: addr(e, 'after_section', 'after')):
            s = j.written(e, 'after_section', 'section')
            j.text('after', rfield(r, 'after_section', 'after'), addr(e, 'after_section', 'after'))
            j.text('section', rfield(r, 'after_section', 'section'), addr(s, 'section_def', 'name'))
            j.same(r, 'section_id', j.read(r, 'after_section', 'section_id'), j.written(s, 'section_def', 'id'))
            j.same(r, 'is_appendto', j.read(r, 'after_section', 'is_appendto'), j.written(e, 'after_section', 'is_appendto'), True)
            j.same(r, 'file', j.read(r, 'after_section', 'file_id'), fid)
            j.same(r, 'alive', j.read(r, 'after_section', 'alive'), 1)
    elif name == 'section' and not j.kw.get('dead'):
        for r, e in pick(o['section'], lambda r: rfield(r, 'section', 'name'), [E(heads[0], k) for k in range(n)], lambda e: addr(e, 'section_def', 'name')):
            section(j, r, e, own, fid)
    elif name == 'listing':
        listing(j, obj, 'object_file', at(('g', 'g_global_listfile_cmds')), sym(('m', ('g', 'g_global_listfile_cmds'))), sym(('m', ('g', 'g_global_listfile_ints'))), 8)
    elif name == 'data':
        used = [k for k in range(counts['g_max_address']) if known(j.w.facts, sym(('m', ('p', add(sym(('m', ('g', 'g_rom_banks_usage_table'))), k))))) != 0]
        got = {}
        for e in j.r.ev:
            if e[0] == 'ins':
                if e[1] in got:
                    j.bad('data', 'twice', 'address %s is written twice' % e[1])
                got[e[1]] = e[2]
        for k in range(counts['g_max_address']):
            w = sym(('m', ('p', add(sym(('m', ('g', 'g_rom_banks'))), k))))
            if (k in got) != (k in used) or (k in got and serial.strip(got[k]) != (w, 0)):
                j.bad('data', 'bytes', 'used bytes %s: address %d receives %s' % (used, k, show(got.get(k))))
            else:
                j.good('data')
    elif name == 'banks':
        j.same(None, 'number of banks', j.cell(('g', 'g_rombanks')), 2)
        wb, rb, ra = sym(('m', ('g', 'g_banks'))), sym(('m', ('g', 'g_banksizes'))), sym(('m', ('g', 'g_bankaddress')))
        mp = counts['g_rombankmap_defined']
        size = [sym(('m', index(wb, k, 'i32'))) if mp else sym(('m', ('g', 'g_banksize'))) for k in range(2)]
        for k in range(2):
            j.same(None, 'bank size', j.cell(index(rb, k, 'i32')), size[k])
        j.same(None, 'bank address', j.cell(index(ra, 0, 'i32')), 0)
        j.same(None, 'bank address', j.cell(index(ra, 1, 'i32')), size[0])
    elif name == 'slots':
        order = struct_order('slot', 'defines.h')
        for k in range(2):
            w, r = elem(at(('g', 'g_slots')), k, 'struct.slot'), elem(at(('g', 'g_slots')), k, 'struct.slot')

            def W(f):
                # phase_4.c sees the array through an extern declaration only: no names of fields
                key = wfield(w, 'slot', f) if 'slot' in NAMED or order.index(f) == 0 else pathsum.field(w, 'slot', str(order.index(f)))
                return key_of(w) if order.index(f) == 0 else key
            for f in ('address', 'size'):
                j.same(None, 'slot ' + f, j.read(r, 'slot', f), sym(('m', W(f))))
            c = serial.strip(j.cell(rfield(r, 'slot', 'name')))
            first = known(j.w.facts, sym(('m', W('name'))))
            if c != ((0, 0) if first == 0 else (sym(('chr', w)), 0)):
                j.bad('fields', 'slot name', 'the name of slot %d arrives as %s' % (k, show(c)))
            else:
                j.good('fields')
            j.same(None, 'slot usage', j.read(r, 'slot', 'usage'), C['ON'])


NAMED = set()


def struct_order(name, header):
    t = open(os.path.join(ir.REPO, header), errors='replace').read()
    m = re.search(r'struct\s+%s\s*\{(.*?)\n\}' % name, t, re.S)
    if not m:
        raise AnalysisBroken('struct %s not found in %s' % (name, header))
    return re.findall(r'(\w+)\s*(?:\[[^\]]*\])?\s*;', m.group(1))


def place(j, r, e, rs, ws, own):
    for f in ('bank', 'slot', 'base'):
        j.same(r, f, j.read(r, rs, f), j.written(e, ws, f) if j.kind == 'object' else own[f], f == 'slot')


def section(j, r, e, own, fid):
    C = j.C
    R = lambda f: j.read(r, 'section', f)
    W = lambda f: j.written(e, 'section_def', f)
    j.text('name', rfield(r, 'section', 'name'), addr(e, 'section_def', 'name'))
    for f in ('status', 'keep'):
        j.same(r, f, R(f), W(f), True)
    j.same(r, 'id', R('id'), add(W('id'), j.base))
    j.same(r, 'file_id_source', R('file_id_source'), W('filename_id'))
    j.same(r, 'file', R('file_id'), fid)
    for f in ('size', 'alignment', 'offset', 'priority', 'bitwindow', 'window_start', 'window_end'):
        j.same(r, f, R(f), W(f))
    if j.kind == 'object':
        for f in ('address', 'bank', 'base'):
            j.same(r, f, R(f), W(f))
        j.same(r, 'slot', R('slot'), W('slot'), True)
        j.same(r, 'library_status', R('library_status'), C['OFF'])
    else:
        ram = W('status') in [C['SECTION_STATUS_RAM_' + x] for x in ('FREE', 'FORCE', 'SEMIFREE', 'SEMISUBFREE')]
        for f in ('bank', 'slot'):
            j.same(r, f, R(f), -1 if ram else own[f])
        j.same(r, 'base', R('base'), own['base'])
        j.same(r, 'library_status', R('library_status'), C['ON'])
        j.same(r, 'base_defined', R('base_defined'), own['base_defined'])
    if W('status') == C['SECTION_STATUS_SEMISUPERFREE']:
        j.text('banks', rfield(r, 'section', 'banks'), addr(e, 'section_def', 'banks'))
    ns = W('nspace')
    got = R('nspace')
    key = [x for x in j.r.ev if x[0] == 'key' and serial.strip(x[1]) == (sym(('chr', addr(ns, 'namespace_def', 'name'))), 0)]
    if isnull(j.w.facts, ns):
        j.same(r, 'namespace', got, 0)
    elif got == 0 or not key:
        j.bad('fields', 'namespace', 'the namespace of a section arrives as %s' % show(got))
    else:
        j.good('fields')
    if W('size') == 0:
        pass
    else:
        for k in range(W('size')):
            v = j.cell(key_of(add(R('data'), k)))
            if serial.strip(v) != (sym(('m', key_of(add(W('data'), k)))), 0):
                j.bad('fields', 'data', 'byte %d of the section arrives as %s' % (k, show(v)))
            else:
                j.good('fields')
    t = [x for x in j.r.ev if x[0] == 'table']
    listing(j, r, 'section', None, W('listfile_cmds'), W('listfile_ints'), 5, W('status') if W('listfile_items') else None, e)


def listing(j, r, struct, _, wc, wi, stride, status=0, e=None):
    """listing data: commands and their integers"""
    C = j.C
    R = lambda f: j.read(r, struct, f)
    ram = status in [C['SECTION_STATUS_RAM_' + x] for x in ('FREE', 'FORCE', 'SEMIFREE', 'SEMISUBFREE')] and struct == 'section'
    if status is None or ram:
        j.same(r, 'listing items', R('listfile_items'), 0)
        return
    j.same(r, 'listing items', R('listfile_items'), 2)
    for k in range(2):
        c = sym(('m', key_of(add(wc, k))))
        cmd = known(j.w.facts, c)
        got = j.cell(key_of(add(R('listfile_cmds'), k)))
        j.same(r, 'listing command', serial.strip(got), (cmd, 0) if serial.strip(got)[0] == cmd else (c, 0))
        n = {ord('k'): stride, ord('f'): 1}.get(cmd)
        if n is None:
            j.bad('fields', 'listing command', 'unknown command %s written' % cmd)
            continue
        for x in range(n):
            j.same(r, 'listing integer %d' % x, j.cell(index(R('listfile_ints'), k * stride + x, 'i32')), sym(('m', index(wi, k * stride + x, 'i32'))))


def elem(b, k, ty):
    return b if k == 0 else at(('x', b, k, ty))


def item(b, k):
    return elem(b, k, 'struct.stack_item')


def index(b, k, ty):
    return key_of(elem(b, k, ty))


def low32(v):
    while isinstance(v, tuple) and v[0] == 'e' and v[1] == 'trunc':
        v = v[3]
    return v


def definition(h, k):
    return ('e', 'call', 'hashmap_get', sym(('m', ('g', 'g_defines_map'))), addr(E(h, k), 'export_def', 'name'))


def known(facts, v):
    if isinstance(v, int):
        return v
    p = parts(v)
    y = v if isinstance(v, tuple) and v[0] == 'e' else list(p[1])[0][0]
    lo, hi = facts.get(('iv', y), (None, None))
    return lo if lo is not None and lo == hi else None


def isnull(facts, v):
    return known(facts, v) == 0


# ---------------------------------------------------------------- header
# flag of the assembler -> settings of the linker that become true
CARRY = {'g_smc_defined': ['g_smc_status']}
CARRY_OF = {
    'wla-z80': {'g_computesmschecksum_defined': ['g_sms_checksum'], 'g_smstag_defined': ['g_smstag_defined'], 'g_smsheader_defined': ['g_sms_header'],
                'g_smsforcechecksum_defined': ['g_sms_checksum_already_written'], 'g_smschecksumsize_defined': ['g_sms_checksum_size_defined']},
    'wla-gb': {'g_computechecksum_defined': ['g_gb_checksum'], 'g_computecomplementcheck_defined': ['g_gb_complement_check']},
    'wla-68000': {'g_computesmdchecksum_defined': ['g_smd_checksum']}}
TRUTHS = ['g_sms_checksum', 'g_snes_mode', 'g_snes_rom_speed', 'g_gb_checksum', 'g_gb_complement_check', 'g_snes_checksum', 'g_smc_status', 'g_smstag_defined', 'g_sms_header',
          'g_sms_checksum_already_written', 'g_sms_checksum_size_defined', 'g_smd_checksum']
SNES = {'g_hirom_defined': 'HIROM', 'g_lorom_defined': 'LOROM', 'g_exhirom_defined': 'EXHIROM', 'g_exlorom_defined': 'EXLOROM'}
BASE, SIZE = sym('base'), sym('size')


def header(ck, m, prog, L, C):
    """every setting alone, in the first, the only and the last of two objects"""
    cases = [({}, {})]
    flags = dict(CARRY, **CARRY_OF.get(prog, {}))
    for f in FLAGS:
        if f in SNES or f in ('g_rombankmap_defined', 'g_listfile_data', 'g_snes_mode', 'g_sramsize', 'g_sramsize_defined'):
            continue
        # a setting of another machine has no effect
        cases.append(({f: 1}, {t: 1 for t in flags.get(f, [])}))
    own = sorted(flags)
    cases += [({f: 1, h: 1}, {t: 1 for t in flags[f] + flags[h]}) for f in own for h in own if f < h]
    cases += [({f: 1 for f in own if f != g}, {t: 1 for f in own if f != g for t in flags[f]}) for g in own + [None]]
    if prog == 'wla-65816':
        for f, mode in SNES.items():
            base = {'g_snes_mode': 1, f: 1}
            want = {'g_snes_mode': 1, 'g_snes_rom_mode': C['SNES_ROM_MODE_' + mode]}
            cases.append((base, want))
            for x, y in (('g_fastrom_defined', 'g_snes_rom_speed'), ('g_computesneschecksum_defined', 'g_snes_checksum')):
                cases.append((dict(base, **{x: 1}), dict(want, **{y: 1})))
        for v in (1, 2, 3):
            cases.append(({'g_sramsize_defined': 1, 'g_sramsize': v}, {'g_snes_sramsize': v}))
    cases.append(({'g_little_endian': 0}, {'endian': 0}))
    z80 = prog == 'wla-z80'
    plain = one_file(m, 'object', {'g_romheader_baseaddress': -1} if z80 else {})
    if plain is None:
        ck.bad('header', prog, prog, 'an empty object file is written in several ways')
        return
    for pins, want in cases:
        text = '%s, %s' % (prog, ', '.join('%s=%d' % x for x in sorted(pins.items())) or 'defaults')
        if z80:
            pins = dict(pins, g_romheader_baseaddress=BASE, g_smschecksumsize=SIZE)
        d = one_file(m, 'object', pins)
        if d is None:
            ck.bad('header', text, text, 'the file is written in several ways')
            continue
        for order, files in (('only', [d]), ('first', [d, plain]), ('last', [plain, d])):
            check_header(ck, L, C, prog, text + ', ' + order + ' object', files, files.index(d), want, order, pins)
        d = one_file(m, 'library', pins)
        check_header(ck, L, C, prog, text + ', library', [plain, d], 1, {'endian': want.get('endian', 1)}, 'library', pins)


def one_file(m, kind, pins):
    fs = list(writer(m, kind, {('g', k): v for k, v in pins.items()}, {}))
    return fs[0][1] if len(fs) == 1 else None


def check_header(ck, L, C, prog, text, files, who, want, order, pins):
    def bad(key, msg):
        ck.bad('header', '%s %s' % (text, key), text, msg)
    try:
        ends = list(reader(L, files, {('iv', 'base'): (0, 0x7fffffff), ('iv', 'size'): (0, 0x7fffffff)}, CHAIN[:2]))
    except (serial.PastEnd, serial.Unknown) as e:
        bad('unreadable', 'the file cannot be read: %s' % (e,))
        return
    if not ends:
        bad('none', 'the reader never ends')
    for fn, r, st in ends:
        if fn:
            bad('rejected', '%s() rejects the file' % fn)
            continue
        G = lambda g: st.mem.get(('g', g), 0)
        O = lambda f: st.mem.get(rfield(OBJ[who], 'object_file', f), 0)
        for g, v in (('little_endian', C['YES'] if want.get('endian', 1) else C['NO']), ('cpu_65816', C['YES' if prog == 'wla-65816' else 'NO']), ('cpu_65ce02', C['YES' if prog == 'wla-65ce02' else 'NO'])):
            if O(g) != v:
                bad(g, 'the %s of the object is %s, not %s' % (g, show(O(g)), v))
            else:
                ck.good('header', text)
        for g in TRUTHS:
            v = G(g)
            if g == 'g_snes_rom_speed' and order == 'first':
                # the speed of the last 65816 object is taken, with a warning
                want = dict(want, **{g: 0})
            if not isinstance(v, int) or bool(v) != bool(want.get(g, 0)):
                bad(g, 'the setting %s of the linker is %s, expected %s' % (g, show(v), want.get(g, 0)))
            else:
                ck.good('header', text)
        for g in ('g_snes_rom_mode', 'g_snes_sramsize'):
            if G(g) != want.get(g, 0):
                bad(g, 'the setting %s of the linker is %s, expected %s' % (g, show(G(g)), want.get(g, 0)))
            else:
                ck.good('header', text)
        if prog == 'wla-z80' and order != 'library':
            for g, w in (('g_romheader_baseaddress', BASE), ('g_sms_checksum_size', SIZE)):
                if g == 'g_sms_checksum_size' and not want.get('g_sms_checksum_size_defined'):
                    continue
                if G(g) != w:
                    bad(g, 'the setting %s of the linker is %s' % (g, show(G(g))))
                else:
                    ck.good('header', text)
        if order == 'only':
            fill = serial.strip(G('g_emptyfill'))
            if fill != (sym(('m', ('g', 'g_emptyfill'))), 0):
                bad('g_emptyfill', 'the empty fill of the linker is %s' % show(fill))
            else:
                ck.good('header', text)
            if prog != 'wla-z80' and low32(G('g_romheader_baseaddress')) not in (-1, 0xffffffff):
                bad('g_romheader_baseaddress', 'a file without a ROM header places it at %s' % show(G('g_romheader_baseaddress')))
            elif prog != 'wla-z80':
                ck.good('header', text)
