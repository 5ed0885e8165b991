"""printf and scanf formats against the arguments they are given."""
import re
import ir, objsize

VF = {'_vsnprintf': 3, 'vsnprintf_': 2, 'vprintf_': 0, 'vprintf': 0, 'vfprintf': 1, 'vsprintf': 1, 'vsnprintf': 2}
PF = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2}
SF = {'scanf': 0, 'fscanf': 1, 'sscanf': 1, '__isoc99_scanf': 0, '__isoc99_fscanf': 1, '__isoc99_sscanf': 1, '__isoc23_scanf': 0, '__isoc23_fscanf': 1, '__isoc23_sscanf': 1}
CONV = re.compile(r'%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+)?)?(hh|h|ll|l|L|j|z|t)?(.)', re.S)
INT = {'d', 'i', 'u', 'x', 'X', 'o', 'b'}
SCAN = re.compile(r'%(\*)?(\d+)?(hh|h|ll|l|L|j|z|t)?(\[\^?\]?[^\]]*\]|.)', re.S)


def printf_args(fmt):
    """argument types a printf format takes, or a message"""
    out, pos = [], 0
    while True:
        k = fmt.find('%', pos)
        if k < 0:
            return out
        m = CONV.match(fmt, k)
        if not m:
            return 'ends in an unfinished conversion'
        flags, width, prec, ln, c = m.groups()
        pos = m.end()
        if c == '%':
            continue
        if width == '*':
            out.append('i32')
        if prec == '*':
            out.append('i32')
        if c in INT:
            out.append('i64' if ln in ('l', 'll', 'j', 'z', 't') else 'i32')
        elif c == 'c':
            out.append('i32')
        elif c in 'feEgGF':
            out.append('double')
        elif c in 'sp':
            out.append('ptr')
        else:
            return 'has the unknown conversion %%%s' % c


class Formats:
    def __init__(s, m):
        s.m = m
        s.S = objsize.Sizes(m)
        s.vf, s.pf = dict(VF), dict(PF)
        ch = True
        while ch:
            ch = False
            for f in m.functions():
                for i in f.calls():
                    k = s.vf.get(i.callee)
                    if k is None or k >= len(i.args):
                        continue
                    a = i.args[k]
                    if isinstance(a, list) and a and a[0] == 'a':
                        t = s.pf if any(j.callee and j.callee.startswith('llvm.va_start') for j in f.calls()) else s.vf
                        if f.name not in t:
                            t[f.name] = a[1]
                            ch = True

    def name_size(s):
        return s.m.glob('g_label')['size']

    def consts(s, f, v, seen=()):
        """the constant strings a pointer can be, or None"""
        if not isinstance(v, list) or not v:
            return None
        if v[0] == 's':
            return {v[1]}
        if v[0] == 'null':
            return set()
        if v[0] == 'g':
            g = s.m.globals.get(v[1])
            if g and isinstance(g.get('init'), list) and g['init'][0] == 's' and not s.written(v[1]):
                return {g['init'][1].rstrip('\0')}
            return None
        if v[0] == 'gep' and all(st[0] == 'x' and st[1] == 0 for st in v[2]):
            return s.consts(f, v[1], seen)
        if v[0] == 'i' and v[1] not in seen:
            d = f.defs[v[1]]
            seen = seen + (v[1],)
            if d.op in ('phi', 'select'):
                out = set()
                for x in ([x for x, _ in d.ops] if d.op == 'phi' else d.ops[1:]):
                    if isinstance(x, list) and x and x[0] == 'i' and x[1] in seen:
                        continue
                    c = s.consts(f, x, seen)
                    if c is None:
                        return None
                    out |= c
                return out
            if d.op == 'getelementptr' and all(st[0] == 'x' and st[1] == 0 for st in d.ops[1]):
                return s.consts(f, d.ops[0], seen)
            if d.op == 'alloca':
                return s.local(f, d)
        if v[0] == 'i' and v[1] in seen:
            return set()
        if v[0] == 'a' and f.name not in ('main',) and len(seen) < 12:
            # what the callers hand over
            out = set()
            for g, c in s.calls_of(f.name):
                x = s.consts(g, c.args[v[1]], seen + (('a', f.name, v[1]),)) if v[1] < len(c.args) and ('a', f.name, v[1]) not in seen else set()
                if x is None:
                    return None
                out |= x
            return out or None
        return None

    def calls_of(s, n):
        if not hasattr(s, '_calls'):
            s._calls = {}
            for g in s.m.functions():
                for c in g.calls():
                    if c.callee:
                        s._calls.setdefault(c.callee, []).append((g, c))
        return s._calls.get(n, [])

    def written(s, g):
        for f in s.m.functions():
            for i in f.instrs():
                if i.op == 'store' and i.ops[1] == ['g', g]:
                    return True
        return False

    def local(s, f, al):
        """a local array that is only initialised with a constant string"""
        ptrs, todo, out = {al.id}, [al.id], set()
        while todo:
            x = todo.pop()
            for i in f.instrs():
                v = ['i', x]
                if i.op in ('getelementptr', 'bitcast') and i.ops[0] == v and i.id not in ptrs:
                    ptrs.add(i.id)
                    todo.append(i.id)
                elif i.op == 'store' and i.ops[1] == v:
                    return None
                elif i.op == 'call' and v in i.args:
                    if i.callee.startswith('llvm.memcpy') and i.args[0] == v and isinstance(i.args[1], list) and i.args[1][0] == 's':
                        out.add(i.args[1][1])
                    elif i.callee.startswith('llvm.lifetime') or i.callee in s.pf:
                        pass
                    else:
                        return None
        return out or None

    def check(s):
        """[(function, call, rule, key, message or None)]"""
        out = []
        for f in s.m.functions():
            for i in f.calls():
                c = i.callee
                if c in s.pf:
                    k = s.pf[c]
                    fs = s.consts(f, i.args[k])
                    if fs is None:
                        out.append((f, i, 'constant', c, 'the format of %s() is not a constant' % c))
                        continue
                    out.append((f, i, 'constant', c, None))
                    for t in sorted(fs):
                        want = printf_args(t)
                        have = list(i.x.get('at', []))[k + 1:]
                        msg = None
                        if isinstance(want, str):
                            msg = 'the format "%s" %s' % (t.strip(), want)
                        elif len(want) != len(have):
                            msg = 'the format "%s" takes %d arguments and %s() is given %d' % (t.strip(), len(want), c, len(have))
                        else:
                            for n, (w, h) in enumerate(zip(want, have)):
                                if w != h:
                                    msg = 'argument %d of the format "%s" is taken as %s and is of type %s' % (n + 1, t.strip(), w, h)
                                    break
                        out.append((f, i, 'print', c + ' ' + t[:40], msg))
                elif c in SF:
                    k = SF[c]
                    fs = s.consts(f, i.args[k])
                    if fs is None:
                        out.append((f, i, 'constant', c, 'the format of %s() is not a constant' % c))
                        continue
                    out.append((f, i, 'constant', c, None))
                    for t in sorted(fs):
                        out.append((f, i, 'scan', c + ' ' + t[:40], s.scan(f, i, t, i.args[k + 1:])))
        return out

    def scan(s, f, i, t, args):
        convs = []
        for m in SCAN.finditer(t):
            sup, width, ln, c = m.groups()
            if c != '%' and not sup:
                convs.append((width, ln, c))
        if len(convs) != len(args):
            return 'the format "%s" reads %d values and is given %d places' % (t.strip(), len(convs), len(args))
        for (width, ln, c), a in zip(convs, args):
            n, ty = s.S.cap(f, a)
            if c in INT or c == 'n':
                w = {'hh': 1, 'h': 2, 'l': 8, 'll': 8, 'j': 8, 'z': 8, 't': 8}.get(ln, 4)
                if ty is not None and ty.startswith('i') and ty[1:].isdigit() and int(ty[1:]) // 8 != w or n is not None and n < w:
                    return 'the format "%s" stores %d bytes into an object of %s' % (t.strip(), w, '%s bytes' % n if n is not None else ty)
            elif c in 'feEgG':
                w = 8 if ln == 'l' else 4
                if ty is not None and ty != {8: 'double', 4: 'float'}[w]:
                    return 'the format "%s" stores %d bytes of a number into an object of type %s' % (t.strip(), w, ty)
            elif c == 'c':
                if n is not None and n < int(width or 1) or ty is not None and ty[:1] == 'i' and ty != 'i8':
                    return 'the format "%s" stores %s characters into an object of type %s' % (t.strip(), width or 1, ty)
            elif c == 's' or c[0] == '[':
                if width is None:
                    # the strings of the internal data stream are names, which fit into g_label
                    if n is not None and n >= s.name_size():
                        continue
                    return 'the format "%s" reads a string of any length into an object of %s bytes' % (t.strip(), '?' if n is None else n)
                if n is not None and n < int(width) + 1:
                    return 'the format "%s" stores %d bytes into an object of %d' % (t.strip(), int(width) + 1, n)
            else:
                return 'the format "%s" has the unknown conversion %%%s' % (t.strip(), c)
        return None
