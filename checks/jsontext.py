"""C11-C13: JSON texts, their values, printed values."""
import re

import vf

T = {  # token sets: name -> (tokens, depth of exploration quick, thorough)
    'structure': (['[', ']', '{', '}', ',', ':', '"a"', '1', ' '], 6, 7),
    'objects': (['{', '}', '"a":', '"b":', '1', 'true', ',', '{"c":2}', '[]', '"a"'], 6, 8),
    'strings': (['"', '\\', 'u', '0', '41', 'b', '/', '\xff', '\x00', 'n'], 6, 7),
    'codes': (['"\\u', '0', 'a', 'F', 'g', '"', '\\'], 7, 8),
    'numbers': (['-', '0', '1', '9', '.', 'e', '[', ',', ']', ' '], 5, 7),
    'words': (['t', 'r', 'u', 'e', 'f', 'al', 's', 'null', '[', ']', ' '], 6, 7),
    # every text of few tokens, whatever is wrong with it: a mistake must not be forgiven because of what follows
    'broken': (['[', ']', '{', '}', ',', ':', '"a"', '1'], 5, 6, 9),
    'broken words': (['"', '\\', 'u', '-', 't', 'rue', '0', '[', ']', '.'], 4, 5, 9),
    'white': ([' ', '\t', '\n', '\r', '\x0b', '[', ']', '"a"', ':', '{', '}', ',', '0'], 5, 6),
}


def lat(t):
    return '<<' + ','.join(str(ord(ch)) for ch in t) + '>>'


def binary(c):
    return c.build('json', ['json.cpp'] + c.repo_lib())


def hexs(s):
    return bytes(s).hex() if len(s) else '-'


def explore(c, decide, names=None):
    """decide(test, event) -> None or what is wrong"""
    b = binary(c)
    for name in names or T:
        toks, q, th = T[name][:3]
        after = T[name][3] if len(T[name]) > 3 else c.scale(1, 2)
        cfg = ('SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT PrintParses\nINVARIANT Emit\n%sCONSTANTS\n MaxTokens = %d\n'
               ' MaxAfterFail = %d\n MaxAfterDone = 1\n MaxDepth = 4\n' % ('INVARIANT WhiteSpaceFree\n' if c.thorough else '', c.scale(q, th), after))
        r = c.model('JsonTextMC', cfg, 'texts over ' + name, deadlock=False, defs={'Tokens': '{' + ', '.join(lat(t) for t in toks) + '}'})
        tests = r.emitted
        groups = [tests[i:i + 200] for i in range(0, len(tests), 200)]
        evs = c.run_harness(b, [';'.join(hexs(t['s']) for t in g) for g in groups], 'text')
        c.tests += len(tests)
        for g, ev in zip(groups, evs):
            for i, t in enumerate(g):
                e = ev[i] if i < len(ev) else None
                w = decide(t, e)
                if w:
                    e = (c.run_harness(b, [hexs(t['s'])], 'text', par=1)[0] or [None])[0]
                    w = decide(t, e)
                    if w:
                        raise vf.Violation('text %r: %s' % (bytes(t['s']), w), {'script': hexs(t['s']), 'expected': t, 'event': e})
        c.log('%s: %d texts replayed' % (name, len(tests)))
    c.samples.append({'binding': 'generated text', 'test': tests[len(tests) // 2]})


# ---------------------------------------------------------------- random texts
KEYS = ['a', 'b', 'ab', 'key', '', 'a\x00b', '\xff\xfe', 'x' * 40, '"', '\\', 'k1', 'k2', 'k3', '\n']


def rstr(rng, n=None):
    n = rng.choice([0, 1, 2, 5, 17, 60]) if n is None else n
    al = rng.choice(['abc', ''.join(map(chr, range(256))), '"\\/\x00\x1f ', 'é\xc3\xa9\x80\xff', '0123'])
    return ''.join(rng.choice(al) for _ in range(n))


def enc(rng, s):
    o = ['"']
    for ch in s:
        x = ord(ch)
        short = {34: '\\"', 92: '\\\\', 47: '\\/', 8: '\\b', 12: '\\f', 10: '\\n', 13: '\\r', 9: '\\t'}
        k = rng.random()
        if k < 0.12:
            h = '%04x' % x
            if rng.random() < 0.5:
                h = h.upper()
            o.append('\\u' + h)
        elif x in (34, 92) or (x in short and k < 0.6):
            o.append(short[x])
        else:
            o.append(ch)
    return ''.join(o) + '"'


def gen(rng, d, big=False):
    k = rng.random()
    if d <= 0 or k < 0.4:
        t = rng.choice('ibsss')
        if t == 'i':
            n = rng.choice([1, 1, 2, 5, 9, 10, 11, 18, 19, 20, 21, 38, 39, 40, 60, 77])
            x = ''.join(rng.choice('0123456789') for _ in range(n)).lstrip('0') or '0'
            if rng.random() < 0.05:
                x = str(2 ** rng.choice([31, 32, 63, 64, 128, 255, 256]) - rng.choice([1, 1, 2]))
            return ('-' if rng.random() < 0.4 else '') + x
        if t == 'b':
            return rng.choice(['true', 'false'])
        return enc(rng, rstr(rng))
    n = rng.choice([0, 1, 2, 3, 6]) if not big else rng.choice([20, 60])
    w = lambda: ''.join(rng.choice(' \t\n\r') for _ in range(rng.choice([0, 0, 0, 1, 3])))
    if k < 0.65:
        return '[' + w() + ','.join(w() + gen(rng, d - 1) + w() for _ in range(n)) + ']'
    pool = KEYS if not big else ['key%d' % i for i in range(40)] + KEYS
    return '{' + w() + ','.join(w() + enc(rng, rng.choice(pool) if rng.random() < 0.8 else rstr(rng)) + w() + ':' + w() + gen(rng, d - 1) + w() for _ in range(n)) + '}'


def mutate(rng, t):
    if rng.random() < 0.5:      # tokens left out, doubled, exchanged or put in
        w = re.findall(r'"(?:[^"\\]|\\.)*"|-?[0-9]+|[a-z]+|\s+|.', t, re.S)
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            if w:
                i, j = rng.randrange(len(w)), rng.randrange(len(w))
                k = rng.randrange(5)
                if k == 0:
                    del w[i]
                elif k == 1:
                    w.insert(i, w[i])
                elif k == 2:
                    w[i], w[j] = w[j], w[i]
                elif k == 3:
                    w.insert(i, w[j])
                else:
                    w[i] = rng.choice(['[', ']', '{', '}', ',', ':', '""', '0', 'true', '-'])
        return ''.join(w)
    t = list(t)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not t:
            return rng.choice(['', '"', '['])
        i = rng.randrange(len(t))
        k = rng.random()
        if k < 0.3:
            del t[i]
        elif k < 0.5:
            t[i] = rng.choice('[]{},:"\\-01 tfu\x00\x7f\xff')
        elif k < 0.7:
            t.insert(i, rng.choice('[]{},:"\\-01 tfu\x00'))
        elif k < 0.85:
            t = t[:i]
        else:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
    return ''.join(t)


def texts(c, n, valid):
    rng = c.rng
    out = []
    for i in range(n):
        big = i % 25 == 0
        t = gen(rng, 1 if big else rng.choice([0, 1, 2, 3, 4]), big)
        if rng.random() > valid:
            t = mutate(rng, t)
        elif rng.random() < 0.2:
            t = rng.choice([' ', '\n\t', '']) + t + rng.choice(['', ' ', ' x', ']', ',1', '\x00'])
        if len(t) < 6000:
            out.append(t.encode('latin-1', 'ignore'))
    return out


def special(c):
    out = []
    for d in c.scale([40, 150, 300], [40, 150, 300, 520]):
        out += [b'[' * d + b']' * d, b'[' * d, b'{"a":' * d + b'1' + b'}' * d, b'[' * d + b']' * (d - 1), b'[{"k":' * (d // 2) + b'"v"' + b'}]' * (d // 2)]
    out += [b'[' * d + b']' * d for d in c.scale([520, 1030], [520, 1030, 1500])]
    out += [b'{"":' * 520 + b'[]' + b'}' * 520, b'[' * 1030]
    out.append(b'[' + b','.join(b'%d' % i for i in range(c.scale(200, 800))) + b']')
    out.append(b'"' + bytes(range(32, 34)) + bytes(range(35, 92)) + bytes(range(93, 256)) + bytes(range(0, 32)) + b'"')
    out.append(b'{' + b','.join(b'"key%d":%d' % (i % 120, i) for i in range(c.scale(150, 400))) + b'}')
    out.append(b'"' + b'ab\\u0041' * c.scale(150, 800) + b'"')
    # past powers of two that a length or a counter may be kept in
    out.append(b'"' + b'abcdefghij' * 6600 + b'"')
    out.append(b' \n\t\r' * 16500 + b'[1' + b' ' * 33000 + b',2]')
    out.append(b'[' + b','.join([b'7', b'true', b'""', b'-12'][i % 4] for i in range(c.scale(4500, 10000))) + b']')
    out.append(b'{' + b','.join(b'"%d":%d' % (i * 7 % 2000, i) for i in range(c.scale(1300, 1900))) + b'}')
    out.append(b'{"' + b'k' * 300 + b'":{"' + b'k' * 299 + b'":1,"' + b'k' * 5000 + b'":2},"' + b'k' * 300 + b'":3}')
    out.append(b'{"' + b'long key' * 8250 + b'":1,"' + b'long key' * 8249 + b'":2}')
    for n in (255, 256):
        for s in (b'', b'-'):
            out.append(s + b'%d' % (2 ** n - 1))
    # numbers around every power of two and of ten: where an intermediate type could be too narrow
    ns = sorted({v for k in range(1, 257) for v in (2 ** k - 2, 2 ** k - 1, 2 ** k, 2 ** k + 1) if v < 2 ** 256}
                | {v for k in range(1, 78) for v in (10 ** k - 1, 10 ** k, 10 ** k + 1, c.rng.randrange(10 ** (k - 1), 10 ** k), int('9' * (k - 1) + '2')) if v < 2 ** 256})
    for s in (b'%d', b'-%d'):
        for i in range(0, len(ns), 40):
            out.append(b'[' + b','.join(s % v for v in ns[i:i + 40]) + b']')
    return out


def random_part(c, what, valid, n):
    b = binary(c)
    ts = special(c) + (texts(c, n, valid) if n else [])
    k = max(1, len(ts) // (12 if n else 2))
    scripts = [';'.join(hexs(t) for t in ts[i::k]) for i in range(k)]
    scripts += c.threaded([';'.join(hexs(t) for t in texts(c, 12, valid) if len(t) < 800) for _ in range(8)], c.scale(4, 8), 100)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'text', par=par)
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('JsonTextTrace', items, rerun=lambda it: run([it['script']], 1)[0], consts=' What = "%s"\n' % what, label='random texts (%s)' % what)


def C11(c):
    def decide(t, e):
        if e is None or e.get('op') != 'parse':
            return 'crash or hang: %r' % (e,)
        if e['ok'] != t['ok']:
            return 'verdict %d, the specification %d' % (e['ok'], t['ok'])
        return None if e['same'] else 'the verdict or value changes with the place of the text in memory'
    explore(c, decide)
    random_part(c, 'verdict', 0.3, c.scale(700, 6000))


def C12(c):
    def decide(t, e):
        if e is None or e.get('op') != 'parse':
            return 'crash or hang: %r' % (e,) if t['ok'] else None
        if not (t['ok'] and e['ok']):
            return None
        return None if e['tree'] == t['tree'] else 'value %r, the specification %r' % (e['tree'], t['tree'])
    explore(c, decide, [n for n in T if n[:6] != 'broken'])
    random_part(c, 'value', 0.95, c.scale(500, 5000))


CHECKS = {'C11': C11, 'C12': C12}
