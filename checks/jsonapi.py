"""C13 printed values, C14 value semantics: programs over JSON values."""
import vf
from checks import jsontext


def loc(l):
    return str(l[0]) + ''.join('/k' + jsontext.hexs(s[1]) if s[0] == 'k' else '/i%d' % s[1] for s in l[1])


USES_B = {'cpy', 'mov', 'oarr', 'oobj', 'asg', 'masg', 'aasg', 'oasg', 'put', 'push', 'emp', 'ins', 'nval', 'ncpy', 'nmov', 'nasg', 'nmasg'}


def call(e):
    w = [e['op'], loc(e['a'])]
    if e['op'] in USES_B:
        w.append('@' + loc(e['b']))
    if e['x']:
        w.append('x' + jsontext.hexs(e['x']))
    w.append('#%d' % e['n'])
    return ' '.join(w)


def explore(c, group, decide, ops, nodes):
    b = jsontext.binary(c)
    cfg = 'SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nCONSTANTS\n MaxOps = %d\n MaxNodes = %d\n Group = "%s"\n' % (ops, nodes, group)
    r = c.model('JsonApiMC', cfg, 'programs over JSON values (%s)' % group, deadlock=False)
    tests = [t for t in r.emitted if group != 'print' or t['h'][-1]['op'] == 'print']
    scripts = [';'.join(call(e) for e in t['h']) for t in tests]
    evs = c.run_harness(b, scripts, 'api')
    c.tests += len(tests)
    for t, s, ev in zip(tests, scripts, evs):
        w = decide(t, ev)
        if w:
            ev = c.run_harness(b, [s], 'api', par=1)[0]
            w = decide(t, ev)
            if w:
                raise vf.Violation('program %s: %s' % (s, w), {'script': s, 'expected': t, 'events': ev})
    t = tests[len(tests) // 2]
    c.samples.append({'binding': 'generated program', 'script': scripts[len(tests) // 2], 'expected': t['regs'][:2]})
    c.log('%s: %d generated programs replayed' % (group, len(tests)))


class Shadow:
    """What a random program needs to know to stay meaningful: the shape of the values, nothing the checks rely on."""
    def __init__(self):
        self.r = {}

    def locs(self, want=None):
        out = []

        def walk(p, v, d):
            if want is None or v[0] in want:
                out.append((p, v))
            if d < 4:
                if v[0] == 'arr':
                    for i, x in enumerate(v[1][:12]):
                        walk(p + '/i%d' % i, x, d + 1)
                elif v[0] == 'obj':
                    for k in list(v[1])[:12]:
                        walk(p + '/k' + jsontext.hexs(k), v[1][k], d + 1)
        for i in sorted(self.r):
            walk(str(i), self.r[i], 0)
        return out


def clone(v):
    return [v[0], [clone(x) for x in v[1]]] if v[0] == 'arr' else [v[0], {k: clone(x) for k, x in v[1].items()}] if v[0] == 'obj' else list(v)


def size(v):
    return 1 + (sum(map(size, v[1])) if v[0] == 'arr' else sum(map(size, v[1].values())) if v[0] == 'obj' else 0)


def program(rng, nops, printing):
    s = Shadow()
    out = []
    keys = [k.encode('latin-1') for k in jsontext.KEYS]
    if rng.random() < 0.3:
        keys = [b'k%d' % i for i in range(40)]
    num = lambda: (('-' if rng.random() < 0.4 else '') + (''.join(rng.choice('0123456789') for _ in range(rng.choice([1, 3, 20, 70]))).lstrip('0') or '0')).encode()
    H = jsontext.hexs
    string = lambda: jsontext.rstr(rng).encode('latin-1', 'ignore')
    for _ in range(nops):
        k = rng.random()
        regs = range(4)
        al = s.locs()
        if not al or k < 0.15:
            r = rng.choice(regs)
            op = rng.choice(['new', 'bool', 'int', 'cint', 'str', 'cstr', 'arr', 'obj', 'arr', 'obj', 'arr', 'obj'])
            if op in ('int',):
                out.append('int %d x%s' % (r, H(num()))); s.r[r] = ['int']
            elif op == 'cint':
                out.append('cint %d #%d' % (r, rng.choice([0, 1, -1, 2147483647, -2147483647, 1000]))); s.r[r] = ['int']
            elif op in ('str', 'cstr'):
                x = string(); out.append('%s %d x%s' % (op, r, H(x))); s.r[r] = ['str']
            elif op == 'bool':
                out.append('bool %d #%d' % (r, rng.randrange(2))); s.r[r] = ['bool']
            else:
                out.append('%s %d' % (op, r)); s.r[r] = {'new': ['undef'], 'arr': ['arr', []], 'obj': ['obj', {}]}[op]
            continue
        bl, bv = rng.choice(al)
        if size(bv) > 60:
            continue
        if printing and rng.random() < 0.25:
            out.append('print ' + bl)
            continue
        if k < 0.3:
            r = rng.choice(regs)
            op = rng.choice(['cpy', 'mov', 'cpy'] + (['oarr'] if bv[0] == 'arr' else ['oobj'] if bv[0] == 'obj' else []))
            out.append('%s %d @%s' % (op, r, bl))
            n = clone(bv)
            if op == 'mov':
                del bv[1:]; bv[0] = 'undef'
            s.r[r] = n
            continue
        if k < 0.45:
            l, v = rng.choice(al)
            op = rng.choice(['asg', 'asg', 'masg'])
            if v[0] == bv[0] and v[0] in ('arr', 'obj') and bl[0] != l[0] and rng.random() < 0.5:
                op = 'aasg' if v[0] == 'arr' else 'oasg'
            out.append('%s %s @%s' % (op, l, bl))
            n = clone(bv)
            v[:] = n
            continue
        if k < 0.75:
            cs = s.locs(('arr', 'obj'))
            if not cs:
                continue
            l, v = rng.choice(cs)
            if v[0] == 'obj':
                key = rng.choice(keys)
                op = rng.choice(['put', 'put', 'put', 'put', 'touch', 'erase', 'erase', 'size', 'ork'])
                if op == 'put':
                    # the entry is made first: what is put may be the object itself
                    if key not in v[1]:
                        v[1][key] = ['undef']
                    n = clone(bv)
                    if size(n) > 60: continue
                    v[1][key] = n
                    out.append('put %s @%s x%s' % (l, bl, H(key)))
                elif op == 'touch':
                    v[1].setdefault(key, ['undef']); out.append('touch %s x%s' % (l, H(key)))
                elif op == 'erase':
                    v[1].pop(key, None); out.append('erase %s x%s' % (l, H(key)))
                elif op == 'ork':
                    out.append('ork %s x%s' % (l, H(key)))
                else:
                    out.append('size ' + l)
            else:
                L = len(v[1])
                op = rng.choice(['push', 'push', 'push', 'emp', 'ins', 'ins', 'aera', 'arsz', 'pop', 'clr', 'size', 'ari'])
                if op in ('push', 'emp'):
                    out.append('%s %s @%s' % (op, l, bl)); v[1].append(clone(bv))
                elif op == 'ins':
                    n = rng.choice([0, L, L // 2, L + 1]); out.append('ins %s @%s #%d' % (l, bl, n))
                    if n <= L: v[1].insert(n, clone(bv))
                elif op == 'aera':
                    n = rng.choice([0, L, max(0, L - 1)]); out.append('aera %s #%d' % (l, n))
                    if n < L: del v[1][n]
                elif op == 'arsz':
                    n = rng.choice([0, L, L + 1, L // 2, L + 3]); out.append('arsz %s #%d' % (l, n))
                    v[1][:] = v[1][:n] + [['undef'] for _ in range(n - L)]
                elif op == 'pop':
                    if L: out.append('pop ' + l); v[1].pop()
                elif op == 'clr':
                    if rng.random() < 0.3: out.append('clr ' + l); del v[1][:]
                elif op == 'ari':
                    out.append('ari %s #%d' % (l, rng.choice([0, L, -1, max(0, L - 1)])))
                else:
                    out.append('size ' + l)
            continue
        l, v = rng.choice(al)
        op = rng.choice(['rk', 'rkc', 'ri', 'dint', 'dobj', 'darr', 'edit', 'edit', 'edit', 'del'])
        if op in ('rk', 'rkc'):
            key = rng.choice(keys)
            if op == 'rkc' and 0 in key: op = 'rk'
            out.append('%s %s x%s' % (op, l, H(key)))
        elif op == 'ri':
            out.append('ri %s #%d' % (l, rng.choice([0, 1, -1, 5])))
        elif op in ('dint', 'dobj', 'darr'):
            und = s.locs(('undef',))
            if und and rng.random() < 0.7: l, v = rng.choice(und)
            out.append('%s %s x%s #%d' % (op, l, H(num()), rng.randrange(9)))
            if v[0] == 'undef': v[:] = {'dint': ['int'], 'dobj': ['obj', {}], 'darr': ['arr', [['int']]]}[op]
        elif op == 'edit':
            if v[0] == 'int': out.append('iset %s x%s' % (l, H(num())))
            elif v[0] == 'str': out.append('%s %s x%s' % (rng.choice(['sset', 'sapp']), l, H(string())))
        elif op == 'del' and len(s.r) > 1 and rng.random() < 0.3:
            r = rng.choice(sorted(s.r)); out.append('del %d' % r); del s.r[r]
    return ';'.join(out)


def random_part(c, what, n, ops):
    b = jsontext.binary(c)
    rng = c.rng
    scripts = []
    for i in range(n):
        p = program(rng, ops, what == 'print')
        if what == 'print':
            p = ';'.join('txt %d x%s;print %d' % (j % 3, jsontext.hexs(t), j % 3) for j, t in enumerate(jsontext.texts(c, 3, 1)) if len(t) < 1500) + ';' + p
        scripts.append(p)
    scripts += c.threaded(scripts, c.scale(4, 20), 20)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'api', par=par)
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('JsonApiTrace', items, rerun=lambda it: run([it['script']], 1)[0], consts=' What = "%s"\n' % what, label='random programs (%s)' % what)


def C13(c):
    def decide(t, ev):
        if t['h'][-1]['op'] != 'print':
            return None
        e = ev[-1] if len(ev) == len(t['h']) else {}
        if e.get('op') != 'print' or e.get('exc') != 'none':
            return 'no text: %r' % (ev[-1:],)
        if e['text'] != t['text']:
            return 'printed %r, the specification %r' % (bytes(e['text']), bytes(t['text']))
        reg = t['h'][-1]['a'][0]
        if not any(x[0] == 'undef' for x in t['regs'][reg]) and e['res'] != t['regs'][reg]:
            return 'parses back as %r, the value is %r' % (e['res'], t['regs'][reg])
    explore(c, 'print', decide, c.scale(5, 6), c.scale(7, 8))

    def text(t, e):
        if not t['ok'] or e is None or not e.get('ok') or e['tree'] != t['tree']:
            return None
        if e['print'] != t['print']:
            return 'printed %r, the specification %r' % (bytes(e['print']), bytes(t['print']))
        return None if e['re'] == t['tree'] or len(t['tree']) > 3 and any(x[0] == 'obj' and x[1] > 1 for x in t['tree']) else 'parses back as %r, the value is %r' % (e['re'], t['tree'])
    jsontext.explore(c, text, ('objects', 'strings', 'codes'))
    random_part(c, 'print', c.scale(60, 500), c.scale(60, 120))
    jsontext.random_part(c, 'print', 1, 0)


def C14(c):
    def decide(t, ev):
        if len(ev) != len(t['h']) or ev[-1]['op'] in ('crash', 'hang'):
            return 'crash or hang: %r' % (ev[-1:],)
        e = ev[-1]
        for k in ('exc', 'res', 'regs'):
            if e[k] != t[k]:
                return '%s: %s is %r, the specification %r' % (e['op'], k, e[k], t[k])
        return None if e['types'] else 'the type queries disagree'
    explore(c, 'value', decide, c.scale(4, 5), c.scale(5, 6))
    explore(c, 'note', decide, c.scale(4, 5), c.scale(5, 6))
    random_part(c, 'value', c.scale(100, 1000), c.scale(60, 120))


CHECKS = {'C13': C13, 'C14': C14}
