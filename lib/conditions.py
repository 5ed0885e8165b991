"""What a conditional directive decides: parse_if_directive() run abstractly for a known word and a known order of what it compares."""
import skips

SIGN = {'<': -1, '=': 0, '>': 1}
PRED = {'eq': lambda x: x == 0, 'ne': lambda x: x != 0, 'slt': lambda x: x < 0, 'sgt': lambda x: x > 0, 'sle': lambda x: x <= 0, 'sge': lambda x: x >= 0,
        'ult': lambda x: x < 0, 'ugt': lambda x: x > 0, 'ule': lambda x: x <= 0, 'uge': lambda x: x >= 0}


class Conditions(skips.Skips):
    """case: kinds = results of the calls of input_number(), order = sign of first - second, zero = the value is 0,
    found = hashmap_get()/fopen() finds something, args = sign of supplied arguments - the number asked for, active = inside a macro, skip = s_skip_elifs"""

    def decide(s, f, word, skip_fns, skip_var, **case):
        s.case = case
        s.skip_fns, s.skip_var = skip_fns, skip_var
        s.memo, s.visited, s.called, s.matched, s.acts = {}, set(), set(), set(), set()
        s.frames = [()]
        s.word = word
        out = set()
        # state: block, previous block, values, number of inputs read, skipping begun, last value kept for .ELIF
        work = [(0, None, (), 0, False, None)]
        seen = set()
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > 4000:
                return {('unknown', None)}
            b, pb, envt, n, sk, el = st
            env = dict(envt)
            new = {}
            for i in f.blocks[b]:
                if i.op != 'phi':
                    break
                for v, p in i.ops:
                    if p == pb:
                        new[i.id] = s.val2(f, v, env)
            for q, v in new.items():
                env.pop(q, None)
                if v is not None:
                    env[q] = v
            states = [(env, n, sk, el)]
            for i in f.blocks[b]:
                nx = []
                if i.op == 'phi':
                    continue
                for e, n2, sk2, el2 in states:
                    nx += s.one(f, i, e, n2, sk2, el2)
                states = nx
            t = f.blocks[b][-1]
            for env, n2, sk2, el2 in states:
                if t.op == 'ret':
                    v = s.val2(f, t.ops[0], env) if t.ops else None
                    if sk2:
                        out.add(('skip', el2))
                    elif v == 0:
                        out.add(('error', None))
                    elif v == 1:
                        out.add(('take', el2))
                    else:
                        out.add(('other', v))
                    continue
                if t.op == 'br' and len(t.ops) == 3:
                    c = s.val2(f, t.ops[0], env)
                    nb = [t.ops[1], t.ops[2]] if c is None else [t.ops[1] if c else t.ops[2]]
                elif t.op == 'switch':
                    c = s.val2(f, t.ops[0], env)
                    nb = f.succ[b] if not isinstance(c, int) else [next((d for v, d in t.ops[2:] if v == c), t.ops[1])]
                else:
                    nb = f.succ[b]
                for x in nb:
                    work.append((x, b, tuple(sorted((a, v) for a, v in env.items() if v is not None and a != 'x')), n2, sk2, el2))
        return out

    def sign(s, a, b):
        """sign of a - b for the symbols of the case, None when it is open"""
        if a == b:
            return 0
        o, z, g = s.case.get('order'), s.case.get('zero'), s.case.get('args')
        if a == 'V1' and b == 'V2' and o:
            return SIGN[o]
        if a == 'V2' and b == 'V1' and o:
            return -SIGN[o]
        if a == 'V1' and b == 0 and z is not None:
            return 0 if z else ('nz',)
        if b == 'V1' and a == 0 and z is not None:
            return 0 if z else ('nz',)
        if a == 'S' and b == 'P' and g:
            return SIGN[g]
        if a == 'P' and b == 'S' and g:
            return -SIGN[g]
        if a == 'C' and b == 0 and o:
            return SIGN[o]
        if a == '-C' and b == 0 and o:
            return -SIGN[o]
        if a == 'X' and b == 0:
            return ('nz',)
        if b == 'X' and a == 0:
            return ('nz',)
        return None

    def val2(s, f, v, env):
        if isinstance(v, list) and v and v[0] == 'null':
            return 0
        if isinstance(v, list) and v and v[0] == 'i' and v[1] not in env:
            d = f.defs[v[1]]
            if d.op == 'icmp':
                p, a, b = d.ops
                a, b = s.val2(f, a, env), s.val2(f, b, env)
                if a is None or b is None:
                    return None
                if isinstance(a, int) and isinstance(b, int):
                    return int(PRED[p](a - b))
                g = s.sign(a, b)
                if g is None:
                    return None
                if g == ('nz',):
                    return 0 if p == 'eq' else 1 if p == 'ne' else None
                return int(PRED[p](g))
            if d.op in ('sext', 'zext', 'trunc', 'freeze'):
                return s.val2(f, d.ops[0], env)
            if d.op == 'phi':
                return None
        return super().val2(f, v, env) if not isinstance(v, str) else v

    def one(s, f, i, env, n, sk, el):
        e = dict(env)
        e.pop(i.id, None)
        if i.op == 'load':
            p = i.ops[0]
            if p == ['g', 'g_parsed_int']:
                e[i.id] = 'P' if 'args' in s.case else 'V%d' % n
            elif p == ['g', 'g_macro_active'] and 'active' in s.case:
                e[i.id] = 1 if s.case['active'] else 0
            elif s.is_field(f, p, 'supplied_arguments') and 'args' in s.case:
                e[i.id] = 'S'
            elif s.base(f, p) == ('g', s.skip_var) and 'skip' in s.case:
                e[i.id] = s.case['skip']
            elif s.base(f, p) == ('g', 'g_ifdef') or p == ['g', 'g_ifdef']:
                e[i.id] = 5
            elif i.ty == 'ptr' and s.out_of_map(f, p) and 'found' in s.case:
                e[i.id] = 'X' if s.case['found'] else 0
            else:
                t = s.text(f, p, True)
                if t is not None and i.ty == 'i8':
                    e[i.id] = ord(t[0]) if t else 0
            return [(e, n, sk, el)]
        if i.op == 'store':
            if s.base(f, i.ops[1]) == ('g', s.skip_var):
                el = s.val2(f, i.ops[0], env)
                el = 'other' if el is None else el
            return [(env, n, sk, el)]
        if i.op in ('add', 'sub', 'and', 'or'):
            a, b = s.val2(f, i.ops[0], env), s.val2(f, i.ops[1], env)
            if isinstance(a, int) and isinstance(b, int):
                e[i.id] = a + b if i.op == 'add' else a - b if i.op == 'sub' else a & b if i.op == 'and' else a | b
            return [(e, n, sk, el)]
        if i.op == 'call':
            c = i.callee
            if c == 'input_number':
                ks = s.case.get('kinds', ())
                if n < len(ks):
                    e[i.id] = ks[n]
                return [(e, n + 1, sk, el)]
            if c in s.skip_fns:
                e[i.id] = 1
                return [(e, n, True, el)]
            if c == 'fopen' and 'found' in s.case:
                e[i.id] = 'X' if s.case['found'] else 0
                return [(e, n, sk, el)]
            if c in ('strcmp', 'strcaselesscmp') and 'order' in s.case:
                a, b = s.text(f, i.args[0], True), s.text(f, i.args[1], True)
                if a is None and b is None:
                    x, y = s.kept(f, i.args[0]), s.kept(f, i.args[1])
                    if (x, y) in ((1, 2), (2, 1)):
                        e[i.id] = 'C' if x == 1 else '-C'
                        return [(e, n, sk, el)]
            if c in ('get_next_plain_string', 'get_next_token', '_increase_ifdef', '_decrease_ifdef'):
                e[i.id] = 1
                return [(e, n, sk, el)]
            if c in s.quiet:
                e[i.id] = 'X'
                return [(e, n, sk, el)]
            r = s.step(f, i, True, e, None)
            return [(e2, n, sk, el) for _, e2 in r]
        return [(e, n, sk, el)]

    quiet = {'_string_duplicate', 'malloc', 'calloc', 'strdup'}

    def kept(s, f, v):
        """which text is compared: 2 the one in g_label, 1 a local copy of it"""
        b = s.base(f, v)
        if b == ('g', 'g_label'):
            return 2
        if b and b[0] == 'i':
            return 1
        return None

    def is_field(s, f, p, name):
        st = p[2] if p[0] == 'gep' else f.defs[p[1]].ops[1] if p[0] == 'i' and f.defs[p[1]].op == 'getelementptr' else ()
        return any(x[0] == 'f' and x[3] == name for x in st)

    def out_of_map(s, f, p):
        b = s.base(f, p)
        if not b or b[0] != 'i':
            return False
        return any(i.op == 'call' and i.callee == 'hashmap_get' and any(s.base(f, a) == b for a in i.args) for i in f.instrs())
