"""C10: string hashes and the characteristic filter."""
import vf


def hexs(s):
    return bytes(s).hex() if s else '-'


def C10(c):
    b = c.build('strhash', ['strhash.cpp'])
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'h', par=par)
    al = '{0, 46, 97, 127, 128, 255}' if not c.thorough else '{0, 1, 46, 90, 97, 127, 128, 240, 255}'
    cfg = 'SPECIFICATION Spec\nINVARIANT FilterSound\nINVARIANT Emit\nCONSTANTS\n Alphabet = %s\n MaxLen = %d\n' % (al, c.scale(4, 5))
    r = c.model('StrHashMC', cfg, 'all short strings', deadlock=False)
    groups = [r.emitted[i:i + 100] for i in range(0, len(r.emitted), 100)]
    scripts = [';'.join('hash ' + hexs(t['s']) for t in g) for g in groups]
    for g, s, ev in zip(groups, scripts, run(scripts)):
        c.tests += len(g)
        for i, t in enumerate(g):
            bad = lambda e: len(e) <= i or e[i].get('h') != t['h'] or e[i].get('same') != 1
            if bad(ev) and bad(run([s], 1)[0]):
                raise vf.Violation('hashes of %r: %r, the specification %r' % (t['s'], ev[i:i + 1], t['h']), {'script': s, 'expected': t})
    c.samples.append({'binding': 'generated strings', 'test': r.emitted[len(r.emitted) // 2]})
    rng = c.rng
    rb = lambda n, al: [rng.choice(al) for _ in range(n)]
    scripts = []
    for _ in range(c.scale(160, 2500)):
        ops = []
        for _ in range(12):
            n = rng.choice([0, 1, 2, 3, 5, 8, 13, 31, 64, 100, 257])
            al = rng.choice([range(256), range(97, 123), range(128, 256), [0, 255], range(32, 127)])
            ops.append('hash ' + hexs(rb(n, al)))
        for _ in range(12):
            t = rb(rng.randrange(0, rng.choice([60] * 9 + [300, 700])), rng.choice([range(256), [46, 97, 66], [46], b'._aZ09z-', range(32, 127)]))
            i = rng.randrange(len(t) + 1)
            j = rng.randrange(i, len(t) + 1)
            ops.append('inc %s %s' % (hexs(t[i:j]), hexs(t)))
        for _ in range(12):     # any two strings, mostly of few different characters and few dots
            al = rng.choice([b'ab.', b'aA_1', b'zZ9._', b'-./0@AZ[`az{', range(256), b'.', b'x.'])
            p = rb(rng.randrange(0, rng.choice([3, 6, 20])), al)
            t = rb(rng.randrange(0, rng.choice([6, 20, 40])), al)
            if rng.random() < 0.4:
                p = [ch ^ 32 if chr(ch & 127).isalpha() and ch < 128 and rng.random() < 0.5 else ch for ch in rng.sample(t, rng.randrange(len(t) + 1))] + rb(rng.randrange(2), al)
            ops.append('inc %s %s' % (hexs(p), hexs(t)))
        scripts.append(';'.join(ops))
    for n in c.scale([4096, 65537, 131074], [4096, 65535, 65536, 100000, 131073, 262147]):
        scripts.append('hash *%d:%s' % (n, hexs(rb(1, range(256)))) + ';hash *%d:%s' % (n // 2, hexs(rb(2, range(256)))))
    scripts += c.threaded(scripts[:100], c.scale(6, 30), 100)
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('StrHashTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='random strings and substrings')


CHECKS = {'C10': C10}
