"""Values of tables that are never written."""


class Consts:
    def __init__(s, m):
        s.m = m
        s.written = None

    @staticmethod
    def parts(f, p):
        """(global, steps) of the address p"""
        steps = []
        while isinstance(p, list) and p:
            if p[0] == 'i' and f.defs[p[1]].op == 'getelementptr':
                steps = list(f.defs[p[1]].ops[1]) + steps
                p = f.defs[p[1]].ops[0]
            elif p[0] == 'gep':
                steps = list(p[2]) + steps
                p = p[1]
            else:
                break
        return (p[1], steps) if isinstance(p, list) and p and p[0] == 'g' else (None, steps)

    def scan(s):
        s.written = set()
        for f in s.m.functions():
            for i in f.instrs():
                if i.op == 'store':
                    s.written.add(s.parts(f, i.ops[1])[0])
                    s.written.add(s.parts(f, i.ops[0])[0])
                elif i.op == 'call':
                    for a in i.args:
                        s.written.add(s.parts(f, a)[0])

    def at(s, f, p, val):
        """the initial value at the address p; val(operand) evaluates an index"""
        g, steps = s.parts(f, p)
        if g is None or g not in s.m.globals:
            return None
        d = s.m.globals[g]
        if 'init' not in d or d.get('decl'):
            return None
        if s.written is None:
            s.scan()
        if g in s.written:
            return None
        cur, size = d['init'], d['size']
        for st in steps:
            if st[0] == 'x':
                k = val(st[1])
                if not isinstance(k, int) or k < 0:
                    return None
                if isinstance(cur, list) and cur and cur[0] == 'l':
                    n = len(cur) - 1
                    if k == 0 and st[3] >= size:
                        continue
                    if k >= n:
                        return None
                    cur, size = cur[1 + k], st[3]
                elif isinstance(cur, list) and cur and cur[0] == 's':
                    cur = ['s', cur[1][k:]] if k <= len(cur[1]) else None
                elif cur == ['zero']:
                    continue
                else:
                    return None
            elif st[0] == 'f':
                if isinstance(cur, list) and cur and cur[0] == 'l' and isinstance(st[2], int) and st[2] + 1 < len(cur):
                    cur = cur[1 + st[2]]
                    size = 0
                elif cur != ['zero']:
                    return None
            else:
                return None
        return cur

    def load(s, f, i, val):
        """int, ('str', text) or None"""
        c = s.at(f, i.ops[0], val)
        while isinstance(c, list) and len(c) > 1 and c[0] == 'l':
            # the first element lies at the address of the whole
            c = c[1]
        if isinstance(c, int):
            return c
        if c in (['zero'], ['null']):
            return 0
        if isinstance(c, list) and c and c[0] == 's':
            return (ord(c[1][0]) if c[1] else 0) if i.ty == 'i8' else ('str', c[1])
        return None

    def every(s, f, p):
        """the values an element of the table at the address p may have, whatever the index; None: not known"""
        g, steps = s.parts(f, p)
        if g is None or g not in s.m.globals:
            return None
        d = s.m.globals[g]
        if 'init' not in d or d.get('decl'):
            return None
        if s.written is None:
            s.scan()
        if g in s.written:
            return None
        curs, size = [d['init']], d['size']
        for st in steps:
            nxt = []
            for c in curs:
                if c == ['zero']:
                    nxt.append(c)
                elif not isinstance(c, list) or not c or c[0] != 'l':
                    return None
                elif st[0] == 'f':
                    if not isinstance(st[2], int) or st[2] + 1 >= len(c):
                        return None
                    nxt.append(c[1 + st[2]])
                elif st[3] >= size:
                    nxt.append(c)
                else:
                    nxt += c[1:]
            if st[0] == 'x' and st[3] < size:
                size = st[3]
            elif st[0] == 'f':
                size = 0
            curs = nxt
        out = set()
        for c in curs:
            while isinstance(c, list) and len(c) > 1 and c[0] == 'l':
                c = c[1]
            if isinstance(c, int):
                out.add(c)
            elif c in (['zero'], ['null']):
                out.add(0)
            else:
                return None
        return out


def of(m):
    if not hasattr(m, '_consts'):
        m._consts = Consts(m)
    return m._consts


def letters(m, f, v, depth=0, tables=True):
    """the constants an integer may be, or None"""
    if isinstance(v, int):
        return {v}
    if not isinstance(v, list) or not v or v[0] != 'i' or depth > 6:
        return None
    d = f.defs[v[1]]
    if d.op in ('sext', 'zext', 'trunc', 'freeze'):
        return letters(m, f, d.ops[0], depth + 1, tables)
    if d.op == 'load':
        return of(m).every(f, d.ops[0]) if tables else None
    vs = d.ops[1:] if d.op == 'select' else [x for x, p in d.ops] if d.op == 'phi' else None
    if d.op == 'call' and d.callee in m.names():
        g = m.fn(d.callee)
        rs = [letters(m, g, i.ops[0], depth + 1, tables) for i in g.instrs() if i.op == 'ret' and i.ops]
    elif vs is not None:
        rs = [letters(m, f, x, depth + 1, tables) for x in vs]
    else:
        return None
    return None if not rs or None in rs else set().union(*rs)
