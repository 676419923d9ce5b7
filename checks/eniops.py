"""C17 (no argument text makes an operation misbehave), C18 (determinism), C25 and C26 (the example operations)."""
import hashlib, base64
import glob
import json as pyjson
import os
import re
import vf
import rsakeys
from checks import jsontext as jt

hexs = lambda b: bytes(b).hex() or '-'


def L(s):
    """text with one character per byte -> bytes"""
    return s.encode('latin-1', 'replace')


def jstr(b):
    """A JSON string for any bytes."""
    out = '"'
    for ch in bytes(b):
        if ch in (34, 92):
            out += '\\' + chr(ch)
        elif ch < 32:
            out += '\\u%04x' % ch
        else:
            out += chr(ch)
    return out + '"'


def builds(c, asan=True, name='ops', opt='-O1', examples=True):
    src = ['ops.cpp'] + c.repo_lib()
    flags = ['-I', vf.REPO + '/tools', '-I', c.work + '/deps', '-DVF_CRYPTO', '-DVF_SCRYPT', '-pthread']
    src += sorted(glob.glob(vf.REPO + '/tools/eni_crypto/*.cpp') + glob.glob(vf.REPO + '/tools/eni_scrypt/*.cpp'))
    if examples:
        os.makedirs(c.work + '/deps/jsmn', exist_ok=True)
        if not os.path.exists(c.work + '/deps/jsmn/jsmn.h'):
            os.symlink('/usr/include/jsmn.h', c.work + '/deps/jsmn/jsmn.h')
        flags.append('-DVF_EXAMPLES')
        src += [vf.REPO + '/examples/eni/reverse/eni_reverse.cpp', vf.REPO + '/examples/eni/json/eni_json.cpp']
    return c.build(name, src, flags=flags, libs=['-lcrypto', '-pthread'], asan=asan, opt=opt)


# ---------------------------------------------------------------- known findings
def findings(prop):
    """op -> set of argument texts listed as known findings of the property."""
    out = {}
    for line in open(vf.VERIF + '/known_findings.txt'):
        m = re.match(r'finding: property=(\w+) op=(\w+) text=(.*?) : ', line)
        if m and m.group(1) == prop:
            out.setdefault(m.group(2), set()).add(m.group(3))
    return out


def known(c, prop, run, cases, keys):
    """cases: (op, text, refused) with arguments the specification refuses. Every one must be refused or be listed."""
    listed = findings(prop)
    scripts = ['call %s %s' % (o, hexs(L(t))) for o, t in cases]
    for (o, t), s, ev in zip(cases, scripts, run(scripts)):
        ok = lambda ev: len(ev) == 1 and ev[0].get('st') == 0 and bytes(ev[0]['gas']) == b'1500' and ev[0]['has'] == 0
        if ok(ev):
            continue
        if t in listed.get(o, ()):
            print('KNOWN-FINDING: property=%s op=%s text=%s is not refused' % (prop, o, t), flush=True)
            continue
        if not ok(run([s], 1)[0]):
            raise vf.Violation('%s with %s is not refused: %r' % (o, t, ev[:1]), {'script': s, 'events': ev})
    c.tests += len(cases)


REVERSE_BAD = ['[]', '[1]', '[true]', '[["a"]]', '[{"a":"b"}]']
JSON_BAD = ['[]', '["parseString"]', '["parseArray","[1]"]', '["parseArray","[1]",0]', '[1,2,3,4]', '["parseArray",1,0,3]',
            '["parseArray","[1]","0","3"]', '["arrayGet","[1]",0,3]', '["arrayGet","[1]",0,3,7]', '["arrayGet","[1]",0,3,"0"]',
            '["objectGet","{}",0,2]', '["objectGet","{}",0,2,1]', '["parseString","\\"a\\"",9,3]', '["parseArray","[1]",2,1]',
            '["parseArray","[1",0,2]', '["parseArray","",0,0]', '["parseArray","[1]",0,99]', '["arrayGet","[1]",0,3,-1]',
            '["parseString","1",0,1]', '["parseArray","[1]",-1,3]']


# ---------------------------------------------------------------- C17
def C17(c):
    b = builds(c)
    keys = rsakeys.load()
    used = ['pub512', 'priv512', 'pub520', 'priv520', 'p8_520', 'enc_512', 'enc_p8', 'ec_priv', 'ec_pub'] + [k for k in keys if k.startswith('odd_')]
    table = rsakeys.table(keys, used)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'ops', par=par)
    rng = c.rng
    # every short list of kinds of arguments
    r = c.model('EniOpsMC', 'SPECIFICATION Spec\nINVARIANT ExtraIgnored\nINVARIANT Enough\nINVARIANT Charged\nINVARIANT Emit\n'
                'CONSTANTS\n MaxArgs = %d\n' % c.scale(2, 3), 'argument lists', deadlock=False)
    kind = {'hex': '"0Ab9"', 'odd': '"7f3"', 'text': '"gh"', 'long': '"' + '0' * 161 + '"', 'empty': '""', 'int': '12', 'bool': 'true',
            'arr': '["0"]', 'obj': '{}', 'pub': jstr(keys['pub512']['pem'].encode()), 'priv': jstr(keys['priv512']['pem'].encode())}
    text = lambda t: '[' + ','.join(kind[k] for k in t['kinds']) + ']'
    scripts = ['call %s %s %s %s' % (t['name'], hexs(L(text(t))), hexs(b'abcd\n'), 'bcopq'[k % 5]) for k, t in enumerate(r.emitted)]
    evs = run(scripts)
    bad = lambda t, ev: len(ev) != 1 or ev[0].get('st') != 0 or (bytes(ev[0]['gas']) != b'1500') != t['ok'] or (ev[0]['has'] and not t['ok'])
    for t, s, ev in zip(r.emitted, scripts, evs):
        if bad(t, ev) and bad(t, run([s], 1)[0]):
            raise vf.Violation('%s with arguments %s: %r, the specification %s' % (t['name'], t['kinds'], ev[:1], 'accepts' if t['ok'] else 'refuses'),
                               {'script': s, 'expected': t, 'events': ev})
    c.tests += len(scripts)
    c.samples.append({'binding': 'generated argument list', 'test': r.emitted[len(r.emitted) // 2]})
    c.log('%d argument lists replayed' % len(scripts))
    # texts: with the specification reading the raw text
    ops = ['rsa_encrypt', 'rsa_decrypt', 'scrypt']
    pems = [keys[k]['pem'].encode() for k in used]

    def arg(op, i):
        k = rng.random()
        if k < 0.45 and op != 'scrypt' and i == 0:
            p = rng.choice(pems if rng.random() < 0.4 else pems[:2] if op == 'rsa_encrypt' else pems[1:4:2])
            return jstr(p)
        if k < 0.75:
            n = rng.choice([0, 1, 2, 3, 63, 64, 65, 66, 126, 127, 128, 129, 130, 159, 160, 161, 162, 200])
            al = rng.choice([b'0123456789abcdef', b'0123456789ABCDEFabcdef', b'0f', b'00000000000000001', b'0123456789abcdefg', bytes(range(256))])
            return jstr(bytes(rng.choice(al) for _ in range(n)))
        if k < 0.8:
            return rng.choice(['12', '-1', 'true', '[]', '{}', '["00"]', '{"a":"00"}', '"\\u0030\\u0030"', '"0\\u0000"', '"G0"', '"0x"', '" 0"', '"0-"'])
        return jt.gen(rng, 2)

    def good(op):
        args = [arg(op, i) for i in range(rng.choice([0, 1, 2, 2, 2, 2, 3, 4]))]
        return '[' + rng.choice([',', ' , ', ',\n']).join(args) + ']'
    scripts = []
    for _ in range(c.scale(60, 900)):
        seq = []
        for _ in range(16):
            op = rng.choice(ops)
            k = rng.random()
            t = good(op)
            if k < 0.12:
                t = rng.choice(['', ' ', 'x', '[', '["00"', '"00"', '{"a":"00"}', '0', 'true', '[]x', '["00"] trailing', '{}', '[1,]', '["00",]', '["\\x"]'])
            elif k < 0.2:
                t = jt.mutate(rng, t)
                # a changed key may be a key as well: only the kind of outcome is known
                if 'BEGIN' in t and not any(jstr(p) in t for p in pems):
                    seq.append('fuzz %s %s' % (op, hexs(L(t).replace(b'\0', b'0'))))
                    continue
            op = op if rng.random() < 0.93 else 'reverse'
            if op == 'reverse':  # its only documented argument: a string (bad arguments are known findings)
                t = '[' + jstr(bytes(rng.randrange(256) for _ in range(rng.randrange(20)))) + ',1' * rng.randrange(2) + ']'
            seq.append('call %s %s %s %s' % (op, hexs(L(t).replace(b'\0', b'0')), hexs(b'abcd\n'), rng.choice('bcopq')))
        scripts.append(';'.join(seq))
    items = [{'script': s, 'ev': e, 'keys': table} for s, e in zip(scripts, run(scripts))]
    c.validate('EniOpsTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='raw argument texts')
    # damaged keys: nothing but the listed kinds of outcome
    scripts = []
    base = [keys[k]['pem'] for k in keys if k.startswith(('priv5', 'odd_', 'pub5'))]
    for _ in range(c.scale(60, 2000)):
        seq = []
        for _ in range(10):
            p = rng.choice(base)
            if rng.random() < 0.7:
                lines = p.strip().split('\n')
                der = bytearray(base64.b64decode(''.join(lines[1:-1])))
                for _ in range(rng.choice([1, 1, 2, 4])):
                    i = rng.randrange(len(der))
                    der[i] = rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256), der[i] ^ (1 << rng.randrange(8))])
                if rng.random() < 0.2:
                    der = der[:rng.randrange(len(der))]
                p = lines[0] + '\n' + base64.encodebytes(bytes(der)).decode() + lines[-1] + '\n'
            else:
                i = rng.randrange(len(p))
                p = p[:i] + rng.choice(['', '\n', 'A', '-', '\x01', '=']) + p[i + rng.randrange(3):]
            op = 'rsa_encrypt' if 'PUBLIC' in p else 'rsa_decrypt'
            t = '[%s,%s]' % (jstr(L(p)), rng.choice(['""', '"01"', '"' + '00' * 40 + '"', '"' + 'ff' * 64 + '"', '"7f' + 'a5' * 63 + '"']))
            seq.append('fuzz %s %s' % (op, hexs(L(t))))
        scripts.append(';'.join(seq))
    items = [{'script': s, 'ev': [{k: v for k, v in x.items() if k != 'text'} for x in e], 'keys': []} for s, e in zip(scripts, run(scripts))]
    c.validate('EniOpsTrace', items, rerun=lambda it: [{k: v for k, v in x.items() if k != 'text'} for x in run([it['script']], 1)[0]], label='damaged keys')
    known(c, 'C17', run, [('reverse', t) for t in REVERSE_BAD] + [('json', t) for t in JSON_BAD], table)


# ---------------------------------------------------------------- C26
def C26(c):
    b = builds(c)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'ops', par=par)
    rng = c.rng
    scripts = []
    # every byte alone, in the middle and twice; then random strings
    one = [[x] for x in range(256)] + [[65, x, 66] for x in range(256)] + [[x, x] for x in range(256)] + [[]]
    two = [[x, y] for x in (0, 10, 34, 92, 117, 127, 128, 255) for y in (0, 31, 34, 47, 92, 110, 128, 255)]
    lists = one + two
    for _ in range(c.scale(600, 8000)):
        al = rng.choice([range(256), range(32), [34, 92, 47, 117, 48], range(32, 127), range(128, 256)])
        lists.append([rng.choice(al) for _ in range(rng.choice([1, 2, 3, 5, 8, 20, 100, 300]))])
    groups = [lists[i:i + 20] for i in range(0, len(lists), 20)]
    groups += [[[rng.randrange(256) for _ in range(n)]] for n in c.scale([4096, 65537], [4095, 32767, 32769, 65535, 65536, 65537, 70000, 131072, 150001])]
    for group in groups:
        seq = []
        for s in group:
            t = '[' + rng.choice(['', ' ', '\n']) + jstr(s) + rng.choice(['', '', ' ,1', ',"x",[]']) + ']'
            if 0 not in L(t):
                seq.append('here reverse %s' % hexs(L(t)))
        scripts.append(';'.join(seq))
    evs = run(scripts)
    items = [{'script': s, 'ev': e, 'keys': []} for s, e in zip(scripts, evs)]
    c.validate('EniOpsTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='reversals')
    # twice is the identity: the answer is itself an argument text
    again, first = [], []
    for e in evs:
        seq = []
        for x in e:
            if x.get('has') and 0 not in x['res']:
                seq.append('here reverse %s' % hexs(x['res']))
                first.append(x)
        again.append(';'.join(seq))
    ev2 = run(again)
    items = [{'script': s, 'ev': e, 'keys': []} for s, e in zip(again, ev2) if s]
    c.validate('EniOpsTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='reversals of the answers')
    known(c, 'C26', run, [('reverse', t) for t in REVERSE_BAD], [])


# ---------------------------------------------------------------- C25
class Doc:
    """A JSON text with the places of its values."""

    def __init__(self, rng):
        self.rng, self.out, self.arrays, self.objects, self.strings = rng, '', [], [], []

    def ws(self):
        self.out += ''.join(self.rng.choice(' \t\r\n') for _ in range(self.rng.choice([0, 0, 0, 1, 3])))

    def text(self):
        n = self.rng.choice([0, 1, 2, 5, 12])
        al = self.rng.choice(['ab', '[]{},:" \\', 'xyz"\\/\n', ''.join(map(chr, range(32, 256)))])
        s = ''
        for _ in range(n):
            ch = self.rng.choice(al)
            k = self.rng.random()
            if ch == '\n':
                s += '\\n'
            elif ch in '"\\' or (ch == '/' and k < 0.5):
                s += '\\' + ch
            elif k < 0.1:
                s += '\\u00%02x' % self.rng.randrange(1, 256)
            else:
                s += ch
        return '"' + s + '"'

    def string(self):
        a = len(self.out)
        self.out += self.text()
        self.strings.append((a, len(self.out)))

    def value(self, depth):
        k = self.rng.random()
        if depth <= 0 or k < 0.3:
            k = self.rng.random()
            if k < 0.5:
                self.string()
            else:
                self.out += self.rng.choice(['1', '0', '-12', 'true', 'false', 'null', '3.25', '1e9', '-0.5E-3', '12345678901234567890'])
        elif k < 0.65:
            a = len(self.out)
            self.out += '['
            n = self.rng.choice([0, 1, 2, 3, 6])
            for i in range(n):
                self.ws()
                self.value(depth - 1)
                self.ws()
                self.out += ',' if i < n - 1 else ''
            self.ws()
            self.out += ']'
            self.arrays.append((a, len(self.out), n))
        else:
            a = len(self.out)
            self.out += '{'
            n = self.rng.choice([0, 1, 2, 3, 6])
            names = []
            for i in range(n):
                self.ws()
                nm = self.rng.choice(names) if names and self.rng.random() < 0.15 else self.text()
                names.append(nm)
                self.out += nm
                self.ws()
                self.out += ':'
                self.ws()
                self.value(depth - 1)
                self.ws()
                self.out += ',' if i < n - 1 else ''
            self.ws()
            self.out += '}'
            self.objects.append((a, len(self.out), names))


def C25(c):
    b = builds(c)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'ops', par=par)
    rng = c.rng
    scripts = []
    for _ in range(c.scale(260, 4000)):
        d = Doc(rng)
        d.out += rng.choice(['', ' ', '[1] ', '"x"'])
        d.value(rng.choice([1, 2, 3, 4]))
        d.out += rng.choice(['', ' ', '[2]', '}', '"'])
        data = jstr(L(d.out))
        seq = []
        for a, e, n in d.arrays[:4]:
            seq.append(('"parseArray"', a, e, None))
            for i in sorted({0, n - 1, rng.randrange(n)} if n else ()):
                seq.append(('"arrayGet"', a, e, str(i)))
        for a, e, names in d.objects[:4]:
            for nm in set(names[:3]) | {'"no"', '""'}:
                seq.append(('"objectGet"', a, e, nm))
                if rng.random() < 0.3:  # the same key written in another way
                    v = pyjson.loads(nm, strict=False)
                    seq.append(('"objectGet"', a, e, '"' + ''.join('\\u%04X' % ord(ch) for ch in v) + '"'))
        for a, e in d.strings[:4]:
            seq.append(('"parseString"', a, e, None))
        rng.shuffle(seq)
        line = []
        for q, a, e, x in seq[:10]:
            line.append('here json %s' % hexs(L('[%s,%s,%d,%d%s]' % (q, data, a, e, '' if x is None else ',' + x))))
        if rng.random() < 0.1:
            line.append('here json %s' % hexs(L('[%s,%s,0,1]' % (rng.choice(['"parse"', '""', '"parsearray"', '"arrayGet "']), data))))
        if line:
            scripts.append(';'.join(line))
    for n in c.scale([250, 4000], [250, 255, 256, 4000, 4096, 16000]):   # positions that need more digits
        pad = ''.join(rng.choice('[{"]} x,') for _ in range(n - 8))
        arr, obj = '[1, "ab",[true]]', '{"a":1,"b":[2],"":"c"}'
        front = '"%s"' % pad.replace('"', "'") if rng.random() < 0.5 else ' ' * n
        inner = front.strip() or '1' + ' ' * 9
        data = front + arr + obj + '[' + inner + ',7, ' + inner + ' ,8]'
        a, o, z = len(front), len(front) + len(arr), len(front) + len(arr) + len(obj)
        q = [('parseArray', a, o, ''), ('arrayGet', a, o, ',2'), ('objectGet', o, z, ',"b"'), ('objectGet', o, z, ',""'), ('objectGet', o, z, ',"x"'),
             ('parseArray', z, len(data), ''), ('arrayGet', z, len(data), ',3')] + ([('parseString', 0, a, '')] if front[0] == '"' else [])
        scripts.append(';'.join('here json %s' % hexs(L('["%s",%s,%d,%d%s]' % (f, jstr(L(data)), x, y, w))) for f, x, y, w in rng.sample(q, min(len(q), 5))))
    items = [{'script': s, 'ev': e, 'keys': []} for s, e in zip(scripts, run(scripts))]
    c.validate('EniOpsTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='structural queries')
    known(c, 'C25', run, [('json', t) for t in JSON_BAD], [])


# ---------------------------------------------------------------- C18
def C18(c):
    asan = builds(c)
    plain = builds(c, asan=False, name='plain', opt='-O2')
    keys = rsakeys.load()
    rng = c.rng
    P = lambda k: jstr(keys[k]['pem'].encode())
    obj = '{' + ','.join('"k%d":%s' % (i * 7 % 23, rng.choice(['1', '"v"', 'true', '[]', '{"a":1,"b":2,"c":3}'])) for i in range(23)) + '}'
    fixed = [('rsa_encrypt', '[%s,"a message"]' % P('pub520')), ('rsa_decrypt', '[%s,"%s"]' % (P('priv512'), '3a' * 64)),
             ('rsa_decrypt', '[%s,"zz"]' % P('priv512')), ('scrypt', '["00ff7"]'), ('scrypt', '[]'), ('reverse', '["drawer"]'),
             ('json', '["objectGet",%s,0,%d,"k5"]' % (jstr(L(obj)), len(obj))), ('echo', '[%s,-1234567,"x",true]' % obj),
             ('rsa_decrypt', '[%s,"%s"]' % (P('odd_wrong_e'), '3a' * 64))]
    queries = list(fixed)
    for k in ('pub512', 'pub515', 'pub520', 'pub1024', 'pub768e3', 'ec_pub', 'repo_pub'):
        queries.append(('rsa_encrypt', '[%s,%s]' % (P(k), jstr(bytes(rng.randrange(256) for _ in range(rng.choice([0, 5, 40, 64])))))))
    for k in [k for k in keys if k.startswith(('priv', 'p8', 'odd', 'enc', 'ec_priv'))]:
        size = max(1, (keys[k]['n'].bit_length() + 7) // 8)
        for t in ('3a' * size, '00' * size, '02', ''):
            queries.append(('rsa_decrypt', '[%s,"%s"]' % (P(k), t)))
    for _ in range(12):
        queries.append(('scrypt', '["%s"]' % ''.join(rng.choice('0123456789abcdefABCDEF') for _ in range(rng.choice([0, 1, 31, 80, 159, 160])))))
    for _ in range(10):
        queries.append(('reverse', '[%s]' % jstr(bytes(rng.randrange(1, 256) for _ in range(rng.choice([0, 1, 50, 1000]))))))
        queries.append(('echo', '[%s]' % ','.join(jt.gen(rng, 3) for _ in range(4))))
    same = {}       # texts that differ and are equally long: their copies may come to lie at the same place
    for o, n in [('reverse', n) for n in (10, 40, 300, 1500, 6000, 40000)] + [('echo', n) for n in (40, 1500, 6000)] + [('scrypt', n) for n in (10, 160)]:
        same[o, n] = [(o, '["%s"]' % ''.join(rng.choice('0123456789abcdef') for _ in range(n))) for _ in range(3)]
        queries += same[o, n]
    queries += [('scrypt', 'x'), ('echo', '{'), ('reverse', '["abc'), ('echo', '7'), ('echo', '[123456,12345678901234567890,-1000000]')]
    queries = [(o, t.replace('\0', '0')) for o, t in queries]
    dies = {i for i, (o, t) in enumerate(queries) if t in ('x', '{', '["abc')}

    def ask(i, order='b', form='here', inp='-'):
        o, t = queries[i]
        if i in dies or form == 'call':
            return 'call %s %s %s %s' % (o, hexs(L(t)), inp, order)
        return 'here %s %s %s' % (o, hexs(L(t)), order)
    number = {(o, L(t)): i + 1 for i, (o, t) in enumerate(queries)}

    def flat(evs, who):
        out = []
        for e in evs:
            for x in e.get('got', [e]):
                if 'text' not in x:
                    out.append(x)
                    continue
                q = number[(x['name'], bytes(x['text']))]
                res = bytes(x['res'])
                res = res.hex() if len(res) < 100 else '%d bytes, SHA-256 %s' % (len(res), hashlib.sha256(res).hexdigest())
                out.append({'op': 'ask', 'q': q, 'ans': '%s %s %d %s' % (x.get('st', 0), bytes(x['gas']).decode(), x['has'], res), 'who': who})
        return out

    def execute(runs):
        """runs: (build, environment, script)"""
        out = []
        groups = {}
        for i, (b, env, s, who) in enumerate(runs):
            groups.setdefault((b, tuple(sorted(env.items())), who), []).append((i, s))
        res = {}
        for (b, env, who), l in groups.items():
            for (i, _), ev in zip(l, c.run_harness(b, [s for _, s in l], 'det', par=min(vf.NCPU, len(l)), env=dict(env))):
                res[i] = flat(ev, who)
        for i in range(len(runs)):
            out += res[i]
        return out
    # every short history of calls in one process
    r = c.model('EniDetMC', 'SPECIFICATION Spec\nINVARIANT Function\nINVARIANT Emit\nCONSTANTS\n Queries = %d\n Length = %d\n' %
                (len(fixed), c.scale(2, 3)), 'histories of calls', deadlock=False)
    base = [(asan, {}, ';'.join(ask(i, form='call') for i in range(len(queries))), 'alone')]
    hist = [[x - 1 for x in t['h']] for t in r.emitted]
    c.tests += len(hist)
    runs = base + [(asan, {}, ';'.join(ask(i, rng.choice('bcopq')) for i in h), 'history %d' % k) for k, h in enumerate(hist)]
    items = [{'script': 'every history of %d calls' % c.scale(2, 3), '_runs': runs, 'nq': len(queries), 'ev': execute(runs)}]
    # very many calls in one process
    few = lambda ops, n: ' '.join('%s %s' % (o, hexs(L(t))) for o, t in [q for i, q in enumerate(queries) if q[0] in ops and i not in dies and len(q[1]) < 1200][:n])
    lots = [(few(('reverse',), 4), c.scale(70000, 140000)), (few(('echo', 'json'), 5), c.scale(6000, 12000)), (few(('rsa_encrypt',), 4), 3000),
            (few(('rsa_decrypt',), 4), 2000), (few(('scrypt',), 2), c.scale(600, 1500))]
    lots += [(' '.join('%s %s' % (o, hexs(L(t))) for o, t in l), 60 if o == 'scrypt' else max(30, min(2000, 600000 // n))) for (o, n), l in same.items()]
    runs = base + [(plain, {}, 'many %d %s' % (n, t), 'call after call') for t, n in lots]
    items.append({'script': 'very many calls', '_runs': runs, 'nq': len(queries), 'ev': execute(runs)})
    # other processes, environments, layouts and threads
    envs = [({}, 'plain'), ({'MALLOC_PERTURB_': '85', 'LC_ALL': 'C.UTF-8', 'TZ': 'Asia/Tokyo'}, 'perturbed'),
            ({'MALLOC_PERTURB_': '254', 'LANG': 'de_DE.UTF-8', 'PAD': 'x' * 4000, 'HOME': '/'}, 'big environment'),
            ({'MALLOC_ARENA_MAX': '1', 'MALLOC_TOP_PAD_': '1', 'MALLOC_MMAP_THRESHOLD_': '64', 'LC_ALL': 'POSIX'}, 'small pages')]
    for rep in range(c.scale(2, 20)):
        runs = list(base)
        order = list(range(len(queries)))
        for env, who in envs:
            rng.shuffle(order)
            runs.append((plain, env, 'heap %d;' % rng.randrange(1, 3000) + ';'.join(ask(i, rng.choice('bcopq')) for i in order), who))
        rng.shuffle(order)
        runs.append((plain, {}, 'locale;' + ';'.join(ask(i, rng.choice('bcopq')) for i in order), 'other locale'))
        for inp in ('abcd\n', 'abcd', 'x\ny\n'):
            rng.shuffle(order)
            runs.append((plain, {}, ';'.join(ask(i, 'b', 'call', L(inp).hex()) for i in order if 'KEY' in queries[i][1]), 'standard input %r' % inp))
        live = [i for i in range(len(queries)) if i not in dies]
        for b, who in ((plain, 'threads'), (asan, 'threads under ASan')):
            for _ in range(3):
                some = rng.sample(live, 24)
                runs.append((b, {}, 'threads 8 ' + ' '.join('%s %s' % (queries[i][0], hexs(L(queries[i][1]))) for i in some), who))
            for i in rng.sample(live, 6):  # eight threads on the same operation with two texts
                j = rng.choice([j for j in live if queries[j][0] == queries[i][0]])
                pair = ' '.join('%s %s' % (queries[k][0], hexs(L(queries[k][1]))) for k in (i, j, i, j, i, j))
                runs.append((b, {}, 'threads 8 ' + pair, who))
        items.append({'script': 'environments %d' % rep, '_runs': runs, 'nq': len(queries), 'ev': execute(runs)})
    c.validate('EniDetTrace', items, rerun=lambda it: execute(it['_runs']), label='one answer per question')
    c.extra['questions'] = len(queries)


CHECKS = {'C17': C17, 'C18': C18, 'C25': C25, 'C26': C26}
