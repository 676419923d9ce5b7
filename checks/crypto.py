"""C19 (scrypt operation), C20 (scrypt and PBKDF2 primitives), C21 (RSA), C22 (hexadecimal coding)."""
import math
import vf
import rsakeys
from checks import jsontext as jt
from checks.eniops import builds, hexs, jstr, L

SALSA = ('7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e',
         'a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81')
MIX = ('f7ce0b653d2d72a4108cf5abe912ffdd777616dbbb27a70e8204f3ae2d0f6fad89f68f4811d1e87bcc3bd7400a9ffd29094f0184639574f39ae5a1315217bcd7'
       '894991447213bb226c25b54da86370fbcd984380374666bb8ffcb5bf40c254b067d27c51ce4ad5fed829c90b505a571b7f4d1cad6a523cda770e67bceaaf7e89',
       'a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81'
       '20edc975323881a80540f64c162dcd3c21077cfe5f8d5fe2b1a4168f953678b77d3b3d803b60e4ab920996e59b4d53b65d2a225877d5edf5842cb9f14eefe425')
VECTORS = ['e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855', 'ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad',
           '248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1', 'b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7',
           '773ea91e36800e46854db8ebd09181a72959098b3ef8c122d9635514ced565fe', '60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54',
           '55ac046e56e3089fec1691c22544b605f94185216dde0465e68b9d57c20dacbc'
           '49ca9cccf179b645991664b39d77ef317c71b845b1e30bd509112041d3a19783', 'ae4d0c95af6b46d32d0adff928f06dd02a303f8ef3c251dfd6e2d85a95474c43', SALSA[0], SALSA[1], MIX[0], MIX[1]]


def vectors(c):
    """The specification itself against the published vectors."""
    tup = lambda b: '<<' + ','.join(str(x) for x in b) + '>>'
    c.model('Sha256MC', 'SPECIFICATION Spec\nINVARIANT Agrees\nINVARIANT SalsaAgrees\nINVARIANT MixAgrees\n', 'published test vectors',
            deadlock=False, defs={'Vectors': '<<' + ','.join(tup(v.encode()) for v in VECTORS) + '>>'})


def C22(c):
    b = builds(c, examples=False)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'hex', par=par)
    rng = c.rng
    r = c.model('HexCodeMC', 'SPECIFICATION Spec\nINVARIANT Inverse\nINVARIANT Strict\nINVARIANT Emit\nCONSTANTS\n MaxLen = %d\n' % c.scale(3, 4),
                'short texts', deadlock=False)
    tests = r.emitted
    groups = [tests[i:i + 50] for i in range(0, len(tests), 50)]
    scripts = [';'.join('dec ' + hexs(t['s']) for t in g) for g in groups]
    for g, s, ev in zip(groups, scripts, run(scripts)):
        c.tests += len(g)
        for i, t in enumerate(g):
            bad = lambda e: len(e) <= i or e[i].get('ok') != t['ok'] or (t['ok'] and e[i]['out'] != t['out'])
            if bad(ev) and bad(run([s], 1)[0]):
                raise vf.Violation('decoding %r: %r, the specification %r' % (bytes(t['s']), ev[i:i + 1], t), {'script': s, 'expected': t})
    c.samples.append({'binding': 'generated text', 'test': tests[len(tests) // 2]})
    seqs = ['enc ' + hexs([x]) for x in range(256)] + ['dec ' + hexs([x, 48]) for x in range(256)] + ['dec ' + hexs([48, x]) for x in range(256)]
    seqs += ['enc -', 'dec -']
    for _ in range(c.scale(1500, 20000)):
        n = rng.choice([1, 2, 3, 4, 7, 16, 33, 80, 256])
        data = bytes(rng.randrange(256) for _ in range(n))
        seqs.append('enc ' + hexs(data))
        t = bytearray(''.join(rng.choice([ch, ch.upper()]) for ch in data.hex()).encode())
        k = rng.random()
        if k < 0.25:
            t[rng.randrange(len(t))] = rng.choice(b' gGzZ:@`/-+x\x00\xff\n.')
        elif k < 0.4:
            t = t[:-1] if rng.random() < 0.5 else t + b'0'
        elif k < 0.5:
            t[rng.randrange(len(t))] = rng.randrange(256)
        seqs.append('dec ' + hexs(t))
    scripts = [';'.join(seqs[i:i + 25]) for i in range(0, len(seqs), 25)]
    scripts += c.threaded(scripts, c.scale(6, 30), 200)
    for n in [255, 256, 4096, 32767, 32768, 65535, 65536, 65537, 70001] + c.scale([], [131072, 200003]):
        data = bytes(rng.randrange(256) for _ in range(n))
        t = ''.join(rng.choice([ch, ch.upper()]) for ch in data.hex()).encode()
        wrong = bytearray(t)
        wrong[-rng.randrange(1, 3)] = rng.choice(b'gG:@`/')
        scripts.append(';'.join(['enc ' + hexs(data), 'dec ' + hexs(t), 'dec ' + hexs(wrong), 'dec ' + hexs(t + b'0')]))
    items = [{'script': s, 'ev': e, 'decide': 0, 'keys': []} for s, e in zip(scripts, run(scripts))]
    c.validate('CryptoTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='codings')


def C20(c):
    b = builds(c, examples=False)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'prim', par=par)
    rng = c.rng
    vectors(c)
    rb = lambda n: hexs([rng.randrange(256) for _ in range(n)])
    scripts = []
    # lengths around the block boundaries of the hash, of the key and of the output
    lens = [0, 1, 31, 32, 33, 55, 56, 63, 64, 65, 80, 100, 119, 120, 127, 128, 129, 200]
    for p in lens:
        scripts.append('pbk %s %s 1 32 %d' % (rb(p), rb(rng.choice(lens)), rng.randrange(8)))
    for s in lens:
        scripts.append('pbk %s %s 1 %d %d' % (rb(rng.choice(lens)), rb(s), rng.choice([32, 40]), rng.randrange(8)))
    for d in [0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 129]:
        scripts.append('pbk %s %s 1 %d %d' % (rb(rng.choice([5, 64, 65, 80])), rb(rng.choice([4, 80])), d, rng.randrange(8)))
    for n in [2, 3, 4, 5, 8, 17] + c.scale([], [32, 64, 100, 257]):
        scripts.append('pbk %s %s %d %d %d' % (rb(rng.choice([8, 65])), rb(8), n, rng.choice([20, 32, 33, 64]), rng.randrange(8)))
    # block numbers of more than one byte
    for d in [8160, 8193, 8224] + c.scale([], [16385, 20000]):
        scripts.append('pbk %s %s 1 %d %d' % (rb(rng.choice([3, 64, 80])), rb(rng.choice([0, 8])), d, rng.randrange(8)))
    for p, s, n in [(256, 8, 2), (300, 300, 1), (128, 257, 3), (127, 8, 2), (129, 5, 2)]:
        scripts.append('pbk %s %s %d 40 %d' % (rb(p), rb(s), n, rng.randrange(8)))
    # lengths and counts of more than one and two bytes
    for p, t, n in [(65537, 5, 1), (9, 65536 + 70, 1), (40, 8, 258)] + c.scale([], [(131072, 3, 1), (7, 140000, 1), (3, 4, 1030), (65536, 65536, 1)]):
        scripts.insert(0, 'pbk %s %s %d 32 %d' % (rb(p), rb(t), n, rng.randrange(8)))
    for _ in range(c.scale(60, 1500)):
        scripts.append('pbk %s %s %d %d %d' % (rb(rng.randrange(150)), rb(rng.randrange(150)), rng.choice([1, 1, 1, 2, 3]), rng.randrange(1, 140), rng.randrange(64)))
    scripts += c.threaded([';'.join(x) for x in zip(scripts[3::3], scripts[4::3])], c.scale(6, 30), 100)
    items = [{'script': s, 'ev': e, 'decide': 0, 'keys': []} for s, e in zip(scripts, run(scripts))]
    c.validate('CryptoTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='derived keys')
    # scrypt: the specification computes the first hash of every trace, the other calls have other places in memory
    ins = [[0] * 80, [255] * 80, list(range(80)), [i * 37 % 256 for i in range(80)]]
    ins += [[rng.randrange(256) for _ in range(80)] for _ in range(c.scale(12, 200))]
    scripts = []
    for x in ins:
        seq = []
        for i in range(c.scale(30, 100)):
            form = rng.choice(['own', 'pad', 'generic', 'generic'])
            seq.append('scr %s %s %d %d %d' % (hexs(x), form, rng.randrange(8), rng.randrange(8), rng.choice([0, 1, 16, 31, 32, 47, 48, 49, 63, rng.randrange(64)])))
        scripts.append(';'.join(seq))
    scripts += c.threaded([';'.join('scr %s %s 0 1 2' % (hexs(rng.choice(ins)), rng.choice(['own', 'pad', 'generic'])) for _ in range(1)) for _ in range(4)], 3, 20)
    items = [{'script': s, 'ev': e, 'decide': 1, 'keys': []} for s, e in zip(scripts, run(scripts))]
    c.validate('CryptoTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='scrypt hashes')


def C19(c):
    b = builds(c, examples=False)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'scrypt', par=par)
    rng = c.rng
    D = '0123456789abcdef'
    rh = lambda n: ''.join(rng.choice(D) for _ in range(n))
    mixcase = lambda t: ''.join(rng.choice([ch, ch.upper()]) for ch in t)

    def form(t):
        t = mixcase(t)
        s = ''.join('\\u00%02x' % ord(ch) if rng.random() < 0.1 else ch for ch in t)
        return 'here scrypt ' + hexs(L('[%s"%s"%s]' % (rng.choice(['', ' ']), s, rng.choice(['', ',1', ',"00"'])))) + ' ' + rng.choice('bcopq')

    def same(t):
        """Texts for the same 80 bytes."""
        out = [t, mixcase(t), t.upper()]
        even = '0' + t if len(t) % 2 else t
        out.append(even)
        if len(even) < 160:
            out += [even + '00' * rng.randrange(1, (160 - len(even)) // 2 + 1), even + '0' * (160 - len(even))]
        if even[:1] == '0':
            out.append(even[1:])
        e = even
        while e.endswith('00'):
            e = e[:-2]
        out.append(e)
        return out

    def raw(t):
        even = '0' + t if len(t) % 2 else t
        return 'scr %s %s 0 0 0' % (hexs(bytes.fromhex(even) + bytes(80 - len(even) // 2)), rng.choice(['own', 'generic']))
    scripts, decide = [], []
    texts = ['', '0', 'f', '00', 'a1', 'F0e', 'ab' * 80, rh(159), '0' * 159 + '1', '80' + '0' * 157, rh(160), rh(158), rh(80), rh(81), rh(3), rh(30)]
    for t in texts[:c.scale(16, 16)] + [rh(rng.randrange(161)) for _ in range(c.scale(0, 150))]:
        scripts.append(';'.join([form(t)] + [form(x) for x in same(t)] + [raw(t)]))
        decide.append(1)
    for _ in range(c.scale(150, 2500)):
        seq = []
        t = rh(rng.choice([rng.randrange(161), 160, 159, 1, 2, 79]))
        seq += [form(x) for x in rng.sample(same(t), 3)] + [raw(t)]
        u = list(t or '0')
        u[rng.randrange(len(u))] = rng.choice(D)
        seq += [form(''.join(u)), raw(''.join(u))]
        v = list(rh(rng.choice([0, 1, 40, 159, 160, 161, 162, 170, 256, 257, 320, 416])))
        if v and rng.random() < 0.7:
            v[rng.randrange(len(v))] = rng.choice('gGxX-+.:@`/ zZ_"'.replace('"', ''))
        seq.append('here scrypt ' + hexs(L('["%s"]' % ''.join(v))) + ' ' + rng.choice('bcopq'))
        seq.append('here scrypt ' + hexs(L('[%s]' % jstr(bytes(rng.choice([rng.randrange(256), 48]) for _ in range(rng.randrange(1, 6)))).replace('\0', '0'))) + ' ' + rng.choice('bcopq'))
        scripts.append(';'.join(seq))
        decide.append(0)
    for n in c.scale([1000, 65537, 65536 + 160], [1000, 65535, 65536, 65537, 65538, 65536 + 160, 131072, 131073, 131072 + 100, 262144 + 2]):   # much too long
        scripts.append('here scrypt ' + hexs(L('["%s"]' % rh(n))) + ' ' + rng.choice('bcopq'))
        decide.append(0)
    items = [{'script': s, 'ev': e, 'decide': d, 'keys': []} for s, e, d in zip(scripts, run(scripts), decide)]
    c.validate('CryptoTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='scrypt operation')


def phi(key):
    n, _, _, p, q = rsakeys.numbers(key['pem'])[:5]
    return (p - 1) * (q - 1)


def C21(c):
    b = builds(c, examples=False)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'rsa', par=par)
    rng = c.rng
    c.model('RsaMC', 'SPECIFICATION Spec\nINVARIANT RoundTrip\nCONSTANTS\n Primes = %s\n' % c.scale('{17, 23, 29}', '{17, 23, 29, 41, 47, 53}'),
            'tiny keys', deadlock=False)
    keys = rsakeys.load()
    pairs = [('pub512', 'priv512'), ('pub515', 'priv515'), ('pub520', 'priv520'), ('pub768e3', 'priv768e3'), ('pub520', 'p8_520')]
    pairs += [('pub1031e3', 'priv1031e3'), ('pub2048e3', 'priv2048e3'), ('pub4096e3', 'priv4096e3'), ('pub8192e3', 'priv8192e3')]
    pairs += c.scale([], [('pub1024', 'priv1024'), ('repo_pub', 'repo_priv'), ('pub2047e3', 'priv2047e3')])

    def messages(n, size, op):
        nb = n.to_bytes(size, 'big')
        if size > 1000:
            return [bytes([rng.randrange(1, 255)]) * rng.randrange(1, 20), nb[:-1] + bytes([nb[-1] - 1]), nb]
        out = [b'', b'\0', b'a', b'\1' + b'\0' * (size - 1), b'\0' * size, b'\0' * (size - 1) + b'\1', (n - 1).to_bytes(size, 'big'), nb,
               (n + 1).to_bytes(size, 'big'), nb[:1], nb[:size // 2], nb + b'\0', b'\0' * (size + 1), nb[:-1] + b'\xff']
        for _ in range(op):
            ln = rng.choice([1, 2, size // 2, size - 1, size, size, rng.randrange(size + 1), size + 1])
            m = bytearray(rng.randrange(256) for _ in range(ln))
            k = rng.random()
            if ln and k < 0.5:
                m[0] = rng.choice([0, 0, 1, nb[0], max(0, nb[0] - 1)])
            if ln > 2 and rng.random() < 0.3:
                k = rng.randrange(1, ln // 2 + 1)
                m[-k:] = b'\0' * k
            out.append(bytes(m))
        return out

    # lengths that agree with good ones in their low bits
    toolong = lambda size: [b'b' * rng.randrange(257, 257 + size), b'a' * (size + 256), b'\0' * 65536, b'a' * (65536 + rng.randrange(size + 1))]

    def groups(ops, table):
        scripts = [';'.join(ops[i:i + 3]) for i in range(0, len(ops), 3)]
        rng.shuffle(scripts)
        return [{'script': s, 'ev': e, 'decide': 0, 'keys': table} for s, e in zip(scripts, run(scripts))]
    items = []
    for pub, priv in pairs:
        n = keys[pub]['n']
        size = (n.bit_length() + 7) // 8
        table = rsakeys.table(keys, [pub, priv])
        table[1]['e'] = table[0]['e']
        for k in table:
            k['pem'] = []
        ops = []
        for fn, at, name in (('pubenc', 1, pub), ('pubdec', 1, pub), ('privenc', 2, priv), ('privdec', 2, priv)):
            for m in messages(n, size, c.scale(4, 40) if size < 100 else 3) + (toolong(size) if fn[-3:] != 'enc' or size < 100 else []):
                ops.append('rsa %s %d %s %s' % (fn, at, hexs(keys[name]['pem'].encode()), hexs(m)))
        items += groups(ops, table)
        # operations
        table = rsakeys.table(keys, [pub, priv])
        table[1]['e'] = table[0]['e']
        ops = []
        for m in messages(n, size, c.scale(2, 20) if size < 100 else 2)[::c.scale(2, 1)]:
            ops.append('here rsa_encrypt ' + hexs(L('[%s,%s]' % (jstr(keys[pub]['pem'].encode()), jstr(m)))) + ' ' + rng.choice('bcopq'))
            t = ''.join(rng.choice([ch, ch.upper()]) for ch in m.hex())
            if rng.random() < 0.15:
                t = rng.choice([t + '0', t[:-1] + 'g', ' ' + t])
            ops.append('here rsa_decrypt ' + hexs(L('[%s,"%s"%s]' % (jstr(keys[priv]['pem'].encode()), t, rng.choice(['', ',1'])))) + ' ' + rng.choice('bcopq'))
        items += groups(ops, table)
    # keys that are easily taken for each other, one after another
    for name, es in c.scale([('priv512', (65539, 65543)), ('priv1024', (65537, 65539))],
                            [('priv512', (65539, 65543, 17)), ('priv520', (65539, 65537)), ('priv1024', (65537, 65539)), ('priv2048e3', (5, 11))]):
        rel = {}
        for e in es:
            if math.gcd(e, phi(keys[name])) == 1:
                rel['pub%d' % e], rel['priv%d' % e] = rsakeys.relative(keys, name, e)
        if name == 'priv512':
            rel.update({k: keys[k] for k in ('pub515', 'priv515', 'pub520', 'priv520')})
        names = sorted(rel)
        table = rsakeys.table(rel, names)
        for i, k in enumerate(names):
            table[i]['e'] = rsakeys.be(rel[k]['e'])
        few = c.scale(4, 10) if keys[name]['n'].bit_length() < 600 else 1
        for _ in range(few):
            ops, order = [], names + names
            rng.shuffle(order)
            for k in order:
                size = (rel[k]['n'].bit_length() + 7) // 8
                m = bytes([rng.randrange(1, 64)]) + bytes(rng.randrange(256) for _ in range(size - 1))
                t = [hexs(rel[k]['pem'].encode()), hexs(m if rel[k]['priv'] or rng.random() < 0.5 else m[:9])]
                if few > 1 and rng.random() < 0.5:
                    ops.append('rsa %s %d %s %s' % (rng.choice(['pubenc', 'pubdec'] if rel[k]['pub'] else ['privenc', 'privdec']), names.index(k) + 1, t[0], t[1]))
                elif rel[k]['pub']:
                    ops.append('here rsa_encrypt ' + hexs(L('[%s,%s]' % (jstr(rel[k]['pem'].encode()), jstr(m)))) + ' ' + rng.choice('bcopq'))
                else:
                    ops.append('here rsa_decrypt ' + hexs(L('[%s,"%s"]' % (jstr(rel[k]['pem'].encode()), m.hex()))) + ' ' + rng.choice('bcopq'))
            script = ';'.join(ops)
            items.append({'script': script, 'ev': run([script], 1)[0], 'decide': 0, 'keys': table})
    # which texts are keys
    names = sorted(keys)
    table = rsakeys.table(keys, names)
    ops = ['key %s %s' % (kind, hexs(keys[k]['pem'].encode())) for k in names for kind in ('pub', 'priv')]
    ops += ['key %s %s' % (kind, hexs(t)) for kind in ('pub', 'priv') for t in (b'', b'x', b'-----BEGIN PUBLIC KEY-----', keys['pub512']['pem'].encode()[:-30],
                                                                               keys['priv512']['pem'].encode()[:100])]
    items += groups(ops, table)
    c.validate('CryptoTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='RSA')


CHECKS = {'C19': C19, 'C20': C20, 'C21': C21, 'C22': C22}
