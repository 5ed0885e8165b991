"""Reporting side shared by all checks: obligations, violations, known findings, evidence."""
import json, os, re, sys, time
from ir import AnalysisBroken, VERIF

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_findings(prop):
    """key -> text of the entries 'known: property=<id> key=<key> :: <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(.*?) :: (.*)$', l.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


_WORK = None


def _job(a):
    f, items = _WORK
    c = Check('x', 'x')
    return f(c, items[a]), c.ok, c.samples, c.viol, c.notes


class Check:
    def parallel(s, f, items, jobs=8):
        """f(check, item) for every item in parallel processes; the findings are merged in order"""
        import multiprocessing as mp
        global _WORK
        _WORK = (f, items)
        out = []
        with mp.get_context('fork').Pool(min(jobs, len(items))) as pool:
            for ret, ok, samples, viol, notes in pool.imap(_job, range(len(items)), 1):
                for r, n in ok.items():
                    s.ok[r] = s.ok.get(r, 0) + n
                for r, l in samples.items():
                    d = s.samples.setdefault(r, [])
                    d += l[:max(0, 12 - len(d))]
                for v in viol:
                    s.bad(v[2], v[0], v[1], v[3])
                s.notes += notes
                out.append(ret)
        return out

    def __init__(s, prop, title):
        s.prop, s.title = prop, title
        s.t0 = time.time()
        s.ok = {}            # rule -> count
        s.samples = {}       # rule -> some instances
        s.viol = []          # (key, where, rule, text)
        s.notes = []
        s.rules = {}
        s.units = set()
        s.floors = {}

    def rule(s, name, text):
        s.rules[name] = text

    def good(s, rule, where=''):
        s.ok[rule] = s.ok.get(rule, 0) + 1
        l = s.samples.setdefault(rule, [])
        if len(l) < 12:
            l.append(str(where))

    def bad(s, rule, key, where, text):
        if any(v[0] == key for v in s.viol):
            return
        s.viol.append((key, str(where), rule, text))

    def floor(s, rule, n):
        """an analysis that suddenly sees far fewer instances than confirmed by hand is broken"""
        s.floors[rule] = n

    def finish(s, explanation, assumptions, level='other'):
        for r, n in s.floors.items():
            c = s.ok.get(r, 0) + sum(1 for v in s.viol if v[2] == r)
            if c < n:
                raise AnalysisBroken('%s: rule %s matched only %d instances (expected at least %d): the anchor moved, the rule no longer sees the code' % (s.prop, r, c, n))
        known = known_findings(s.prop)
        new = [v for v in s.viol if v[0] not in known]
        old = [v for v in s.viol if v[0] in known]
        for v in old:
            print('KNOWN-FINDING: property=%s %s [%s]' % (s.prop, known[v[0]], v[1]))
        nob = sum(s.ok.values()) + len(s.viol)
        rep = None
        if new:
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, s.prop + '.txt')
            with open(rep, 'w') as f:
                f.write('%s: %s\n\n' % (s.prop, s.title))
                for k, w, r, t in new:
                    f.write('[%s] %s\n  at   %s\n  rule %s\n  key  %s\n  %s\n\n' % (s.prop, r, w, s.rules.get(r, r), k, t))
            for k, w, r, t in new[:20]:
                print('  %s: %s: %s' % (w, r, t))
            if len(new) > 20:
                print('  ... %d more in %s' % (len(new) - 20, rep))
            print('VIOLATION property=%s replay=%s' % (s.prop, rep))
        ev = {'property': s.prop, 'tier': os.environ.get('VERIF_TIER', 'quick'), 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
              'coverage': {'explanation': explanation, 'obligations': nob, 'discharged': sum(s.ok.values()), 'known_findings': len(old),
                           'rules': [{'rule': r, 'text': s.rules.get(r, ''), 'instances': s.ok.get(r, 0), 'examples': s.samples.get(r, [])[:6]} for r in sorted(set(s.rules) | set(s.ok))],
                           'notes': s.notes},
              'assumptions': assumptions, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if not new:
            print('%s: holds: %d obligations over %d rules, %d known findings' % (s.prop, nob, len(s.ok), len(old)))
        return 1 if new else 0
