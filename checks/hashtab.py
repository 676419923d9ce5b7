"""C01-C05: hash tables and string maps."""
import vf

INV = ['IsMap', 'Counters', 'Terminates', 'Unique', 'AllReachable', 'IterationComplete', 'ChainComplete', 'RehashKeeps']
MODE_HASH = {0: lambda k: 0, 1: lambda k: 5, 2: lambda k: k, 3: lambda k: 14 + k % 3, 4: lambda k: k // 2 * 17,
             5: lambda k: 65535 * 65536 + 65535 - 17 * (k % 3), 6: lambda k: 32768 * (k % 2) * 65536 + 3}
M32 = 2 ** 32


def mc_cfg(**k):
    return ('SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nACTION_CONSTRAINT EmitTests\nPROPERTY Sparse\n' +
            ''.join('INVARIANT %s\n' % i for i in INV) + 'CONSTANTS\n' + ''.join(' %s = %s\n' % x for x in sorted(k.items())))


def binary(c):
    return c.build('hash', ['hash.cpp'] + c.repo_lib())


def hilo(h):
    return [h >> 16, h & 65535]


def explore(c, label, ntables, what, **k):
    """Exploration of the model; every transition becomes one test for the code. what: aspects to compare."""
    r = c.model('HashTableMC', mc_cfg(NTables=ntables, Emit='TRUE', **k), label, deadlock=False)
    b = binary(c)
    nk = k['NKeys']
    scripts = []
    for t in r.emitted:
        s = 'hashes ' + ' '.join(str(MODE_HASH[t['m']](i)) for i in range(1, nk + 1))
        s += ''.join(';' + ' '.join(map(str, o)) for o in t['h'])
        for i in range(ntables):
            if t['exp']['tabs'][i][0] >= 0:
                s += ';itr %d' % (i + 1)
                if 'all' in what:
                    s += ''.join(';fnd %d %d;cnt %d %d' % (i + 1, x, i + 1, x) for x in range(1, nk + 1))
        scripts.append(s)

    def mismatch(t, ev):
        n = len(t['h'])
        if any(e['op'] in ('crash', 'hang') for e in ev):
            return [e['op'] + ': ' + e.get('why', '') for e in ev if e['op'] in ('crash', 'hang')][0]
        if len(ev) < n + 1:
            return 'missing events'
        e, o = ev[n - 1], t['h'][-1]
        ret = t['exp']['ret']
        if 'ret' in what:
            if o[0] == 'ins' and [e['ex'], e['val']] != ret:
                return 'insert answered %r, the specification %r' % ([e['ex'], e['val']], ret)
            if o[0] == 'ins' and e['ptr'] != 1:
                return 'the entry moved'
            if o[0] == 'era' and [e['ret']] != ret:
                return 'erase answered %r, the specification %r' % (e['ret'], ret)
            if o[0] in ('asg', 'mas') and e.get('self') != 1:
                return 'assignment does not return its target'
        p = n
        for i in range(ntables):
            tb = t['exp']['tabs'][i]
            if tb[0] < 0:
                continue
            it = ev[p]
            p += 1
            want = t['exp']['iter'][i]
            if 'counters' in what and [it['nb'], it['ne'], it['nt']] != tb:
                return 'buckets/entries/tombstones %r, the specification %r' % ([it['nb'], it['ne'], it['nt']], tb)
            if it['ne'] != tb[1]:
                return 'size %r, the specification %r' % (it['ne'], tb[1])
            if 'order' in what and it['lst'] != want:
                return 'iteration %r, the specification %r' % (it['lst'], want)
            if 'content' in what and sorted(it['lst']) != sorted(want):
                return 'content %r, the specification %r' % (it['lst'], want)
            if 'all' in what:
                d = dict(map(tuple, want))
                for x in range(1, nk + 1):
                    f, q = ev[p], ev[p + 1]
                    p += 2
                    if f['ret'] != (x in d) or (f['ret'] and (f['val'] != d[x] or f['key'] != x)) or q['ret'] != (x in d):
                        return 'lookup of %d answers %r' % (x, f)
        e = ev[-1]
        if 'life' in what and (e['live'] or e['klive'] or e['leak'] or e['bad']):
            return 'entries alive or memory left at the end: %r' % e
        return None

    c.tests += len(scripts)
    evs = c.run_harness(b, scripts, 'hash')
    for i, t in enumerate(r.emitted):
        m = mismatch(t, evs[i])
        if m and mismatch(t, c.run_harness(b, [scripts[i]], 'hash', par=1)[0]):
            raise vf.Violation('replay of a generated history: ' + m, {'kind': 'generated', 'script': scripts[i], 'expected': t['exp'],
                                                                        'events': evs[i]})
    if scripts:
        c.samples.append({'binding': 'generated ' + label, 'script': scripts[len(scripts) // 2], 'expected': r.emitted[len(scripts) // 2]['exp']})
    c.log('%s: %d generated histories replayed' % (label, len(scripts)))


# ---------------------------------------------------------------- random histories
def hash_values(rng, n):
    r = rng.randrange(11)
    if r == 0: return [0] * n
    if r == 1: return [rng.randrange(M32)] * n
    if r == 2: return list(range(1, n + 1))
    if r == 3: return [rng.randrange(M32) for _ in range(n)]
    if r == 4: return [M32 - 1 - i for i in range(n)]
    if r == 5: return [(14 + i % 3) for i in range(n)]
    if r == 6: return [i // 3 * 17 * 37 for i in range(n)]
    if r == 7: return [rng.randrange(4) for _ in range(n)]
    if r == 8: return [(i % 5) * 3 * 17 * 37 * 67 for i in range(n)]
    if r == 9: return [35 + (i & 1) + 37 * rng.randrange(3) for i in range(n)]
    return [(rng.randrange(65536) << 16) | 7 for _ in range(n)]


def history(rng, n, nops, tables, w, sizes, rehash_max, maps=False):
    """A random history; w: weights by op name."""
    ops = [o for o in w]
    wt = [w[o] for o in ops]
    live, out = set(), []
    moved = set()
    phase = 0.5
    present = {}
    while len(out) < nops:
        if not live or (len(live) < tables and rng.random() < 0.02):
            t = rng.choice([x for x in range(1, tables + 1) if x not in live])
            out.append('new %d %d' % (t, rng.choice(sizes)))
            live.add(t)
            present[t] = set()
            continue
        if rng.random() < 0.05:
            phase = rng.choice([0.05, 0.3, 0.5, 0.7, 0.95])
        o = rng.choices(ops, wt)[0]
        t = rng.choice(sorted(live))
        k = rng.randrange(1, n + 1)
        if present[t] and rng.random() < 0.3:
            k = rng.choice(sorted(present[t]))
        if o == 'ed':
            if rng.random() < phase:
                o = 'ins' if rng.random() < 0.8 else 'add'
                if t in moved and maps:
                    continue
                out.append('%s %d %d %d' % (o, t, k, rng.randrange(1, 200)))
                present[t].add(k)
            else:
                out.append('era %d %d' % (t, k))
                present[t].discard(k)
        elif o in ('fnd', 'cfnd', 'cnt', 'chn', 'cchn', 'at', 'cat', 'cidx', 'itx'):
            out.append('%s %d %d' % (o, t, k))
        elif o == 'atset':
            out.append('atset %d %d %d' % (t, k, rng.randrange(1, 200)))
        elif o in ('mitr', 'mchn'):
            out.append('%s %d %d %s' % (o, t, 0 if o == 'mitr' else k, ''.join(rng.choice('abcabcabcde') for _ in range(9))))
        elif o in ('itr', 'citr', 'reh'):
            out.append('%s %d' % (o, t))
        elif o == 'clr':
            out.append('clr %d' % t)
            present[t] = set()
        elif o == 'rehn':
            out.append('rehn %d %d' % (t, rng.choice([0, 1, 2, 3, 5, 16, 17, 18, rng.randrange(rehash_max)])))
        elif o in ('asg', 'mas'):
            a = rng.choice(sorted(live)) if o == 'asg' or len(live) < 2 else rng.choice(sorted(live - {t}))
            if o == 'mas' and a == t:
                continue
            out.append('%s %d %d' % (o, t, a))
            present[t] = set(present[a])
            if o == 'mas':
                present[a] = set() if not maps else present[a]
                if maps: moved.add(a); moved.discard(t)
            elif maps:
                if a in moved: moved.add(t)
                else: moved.discard(t)
        elif o in ('cpy', 'mov'):
            free = [x for x in range(1, tables + 1) if x not in live]
            if not free:
                continue
            x = rng.choice(free)
            out.append('%s %d %d' % (o, x, t))
            live.add(x)
            present[x] = set(present[t])
            moved.discard(x)
            if maps and t in moved: moved.add(x)
            if o == 'mov':
                if maps: moved.add(t)
                else: present[t] = set()
        elif o == 'del':
            if len(live) > 1 or rng.random() < 0.2:
                out.append('del %d' % t)
                live.discard(t)
                moved.discard(t)
    return out


def traces(c, label, specs, drop=(), keep_itr=True):
    """specs: list of (header dict, header op, ops). Runs, filters the recorded fields, validates."""
    b = binary(c)
    scripts = [';'.join([h] + ops) for _, h, ops in specs]
    short = [i for i, (_, _, ops) in enumerate(specs) if len(ops) < 400]
    for i in c.rng.sample(short, min(len(short), c.scale(6, 30))):
        specs, scripts = specs + [specs[i]], scripts + ['@threads 30;' + scripts[i]]

    def clean(ev):
        out = []
        for e in ev:
            out.append({k: v for k, v in e.items() if k not in drop})
        return out

    evs = c.run_harness(b, scripts, 'hash')
    items = [dict(hdr, script=s, ev=clean(ev)) for (hdr, _, _), s, ev in zip(specs, scripts, evs)]
    c.validate('HashTrace', items, rerun=lambda it: clean(c.run_harness(b, [it['script']], 'hash', par=1)[0]), label=label)


def int_specs(c, count, nkeys, nops, tables, w, sizes=(0, 1, 2, 3, 16, 17, 40), rehash_max=60, rng=None):
    rng = rng or c.rng
    out = []
    for _ in range(count):
        n = rng.choice(nkeys)
        hs = hash_values(rng, n)
        ops = history(rng, n, rng.choice(nops), tables, w, list(sizes), rehash_max)
        out.append(({'kind': 'int', 'hashes': [hilo(h) for h in hs], 'keys': []}, 'hashes ' + ' '.join(map(str, hs)), ops))
    return out


def big_specs(c, ns, rng=None):
    """Growth through many sizes of the ladder with a few probes in between."""
    rng = rng or c.rng
    out = []
    for n in ns:
        hs = rng.choice([lambda: list(range(1, n + 1)), lambda: [rng.randrange(M32) for _ in range(n)],
                         lambda: [M32 - 1 - 3 * i for i in range(n)], lambda: [i // 4 for i in range(n)]])()
        ops = ['new 1 0']
        a = 1
        while a <= n:
            b = min(n, a + rng.randrange(1, max(2, n // 6)))
            ops.append('rng 1 %d 1 %d' % (a, b))
            ops += ['fnd 1 %d' % rng.randrange(1, n + 1), 'cfnd 1 %d' % rng.randrange(a, b + 1)]
            a = b + 1
        ops += ['rng 1 1 0 %d' % (n // 2), 'rng 1 1 1 %d' % (n // 3), 'itr 1', 'rehn 1 %d' % (n // 2), 'itr 1', 'rng 1 1 0 %d' % n, 'itr 1']
        out.append(({'kind': 'int', 'hashes': [hilo(h) for h in hs], 'keys': []}, 'hashes ' + ' '.join(map(str, hs)), ops))
    return out


LIFE = ('live', 'bad', 'klive', 'leak')
COUNT = ('nb', 'nt', 'lf')


def end_ok(drop):
    return drop


def C01(c):
    what = {'ret', 'content', 'all'}
    explore(c, 'one table, 3 keys', 1, what, NKeys=3, MaxDepth=c.scale(6, 8), HashModes='{0,2,3,4}' if not c.thorough else '{0,1,2,3,4,5,6}',
            Sizes='{0,1}', RehashSizes='{0,1,5}')
    w = dict(ed=70, fnd=8, cfnd=8, cnt=6, clr=0.4, reh=0.8, rehn=1.5, asg=0.6, cpy=0.4, mas=0.3)
    drop = LIFE + COUNT
    traces(c, 'random histories', int_specs(c, c.scale(250, 2500), [2, 3, 5, 8, 14, 30], [40, 120, 250], 2, w), drop)
    traces(c, 'longer random histories', int_specs(c, c.scale(16, 120), [60, 120, 300], [600, 1500], 2, w, rehash_max=500), drop)
    traces(c, 'growth', big_specs(c, c.scale([300, 700, 1500], [300, 700, 1500, 2500, 4000])), drop)
    scale(c, c.scale([20000, 160000], [20000, 120000, 260000]))


def C02(c):
    what = {'counters'}
    explore(c, 'one table, rehash sizes', 1, what, NKeys=3, MaxDepth=c.scale(6, 7), HashModes='{0,2,3}', Sizes='{0,1,3,17}' if c.thorough else '{0,1,3}',
            RehashSizes='{0,1,2,3,4,5}')
    explore(c, 'churn at capacity', 1, what, NKeys=c.scale(4, 5), MaxDepth=c.scale(8, 9), HashModes='{2,3}' if not c.thorough else '{0,2,3,4,5}', Sizes='{1}',
            RehashSizes='{2}')
    w = dict(ed=80, fnd=6, cfnd=2, cnt=2, clr=0.3, reh=1.5, rehn=3, mas=0.2, cpy=0.1, asg=0.3)
    drop = LIFE
    traces(c, 'random histories', int_specs(c, c.scale(250, 2500), [2, 3, 5, 8, 14, 30], [40, 120, 250], 2, w, sizes=(0, 1, 2, 3, 16, 17, 66, 67, 96, 100)), drop)
    traces(c, 'churn', int_specs(c, c.scale(20, 150), [13, 14, 28, 30, 50, 100], [500, 1200], 1, dict(ed=95, fnd=5, rehn=0.3)), drop)
    traces(c, 'growth', big_specs(c, c.scale([320, 740, 2000], [320, 740, 2000, 3100, 4000])), drop)
    scale(c, c.scale([40000, 320000], [40000, 150000, 340000]), True)


def C03(c):
    explore(c, 'one table, iteration', 1, {'order'}, NKeys=3, MaxDepth=c.scale(6, 8), HashModes='{0,2,3,4,5,6}', Sizes='{0,1}', RehashSizes='{0,5}')
    w = dict(ed=45, itr=7, citr=7, chn=8, cchn=8, mitr=8, mchn=10, itx=3, clr=0.4, reh=1, rehn=2, asg=1, cpy=0.6, mas=0.3, mov=0.3)
    drop = LIFE + COUNT
    traces(c, 'random histories', int_specs(c, c.scale(250, 2500), [2, 3, 5, 8, 14, 30], [40, 120, 200], 2, w), drop)
    traces(c, 'longer histories', int_specs(c, c.scale(10, 80), [60, 120, 300], [400, 700], 1, dict(ed=85, itr=1, citr=1, mitr=2, mchn=4, chn=2, cchn=2, rehn=0.5), rehash_max=500), drop)
    traces(c, 'growth', big_specs(c, c.scale([400, 1200], [400, 1200, 4000])), drop)
    scale(c, c.scale([70000], [20000, 150000]))


def C04(c):
    explore(c, 'two tables', 2, {'ret', 'order', 'life'}, NKeys=2, MaxDepth=c.scale(6, 8), HashModes='{0,3}' if c.thorough else '{3}', Sizes='{0,1}',
            RehashSizes='{5}')
    w = dict(ed=40, fnd=4, clr=3, itr=6, citr=2, cpy=8, mov=4, asg=10, mas=5, rehn=1)
    w['del'] = 6
    drop = COUNT
    traces(c, 'copy-heavy histories', int_specs(c, c.scale(300, 3000), [2, 3, 6, 14, 30], [40, 120, 200], 4, w), drop)
    traces(c, 'string maps', map_specs(c, c.scale(150, 1500), ['map', 'mapi', 'maps', 'sdbm', 'elf'], w, 4), drop)
    scale(c, c.scale([70000], [20000, 150000]))


# ---------------------------------------------------------------- string keys
def sdbm(s):
    h = 0
    for ch in s:
        ch = ch - 256 if ch > 127 else ch
        h = (ch + (h << 6) + (h << 16) - h) % M32
    return h


def collisions(rng, want=3):
    """pairs of short strings with equal SDBM hashes (the specification computes the hashes itself; this only selects inputs)"""
    seen, out = {}, []
    al = bytes(range(33, 127))
    # two bytes (a,b) and (a+1, b-65599): no; use length 3..5 random birthday search
    for _ in range(400000):
        s = bytes(rng.choice(al) for _ in range(rng.randrange(5, 8)))
        h = sdbm(s)
        if h in seen and seen[h] != s:
            out.append((seen[h], s))
            if len(out) >= want:
                break
        seen[h] = s
    return out


_coll = {}


def key_pool(c, rng, n):
    if c.seed not in _coll:
        import random
        _coll[c.seed] = collisions(random.Random(c.seed))
    pool = []
    style = rng.randrange(6)
    while len(pool) < n:
        if style == 0:
            s = bytes(rng.choice(b'ab') for _ in range(rng.randrange(0, 5)))
        elif style == 1:
            s = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 12)))
        elif style == 2:
            s = bytes(rng.choice([0, 0, 1, 255, 128, 127]) for _ in range(rng.randrange(0, 5)))
        elif style == 3:
            s = rng.choice(rng.choice(_coll[c.seed])) if _coll[c.seed] and rng.random() < 0.7 else b'x%d' % rng.randrange(20)
        elif style == 4:
            s = b'prefix' * rng.randrange(1, 12) + bytes([rng.randrange(256)])
        else:
            s = rng.choice([b'', b'\0', b'\0\0', b'a\0', b'a', b'\0a', b'a\0b', b'a\0c', b'\xff', b'\x80', b'\xff\xff', b'true'])
            if rng.random() < 0.4:
                s += bytes([rng.randrange(256)])
        if s not in pool:
            pool.append(s)
    return pool


def hexs(s):
    return s.hex() if s else '-'


def map_specs(c, count, kinds, w, tables, nops=(30, 80, 150)):
    rng = c.rng
    out = []
    for i in range(count):
        kind = kinds[i % len(kinds)]
        n = rng.choice([2, 4, 7, 12, 20])
        keys = key_pool(c, rng, n)
        ww = dict(w)
        if kind.startswith('map'):
            for o in ('clr', 'rehn', 'reh', 'cnt', 'chn', 'cchn', 'mchn', 'add'):
                ww.pop(o, None)
        else:
            for o in ('at', 'cat', 'cidx', 'atset'):
                ww.pop(o, None)
        ops = history(rng, n, rng.choice(nops), tables, ww, [-1, 0, 1, 8, 16, 17], 40, maps=kind.startswith('map'))
        out.append(({'kind': kind, 'hashes': [], 'keys': [list(k) for k in keys]}, 'keys %s %s' % (kind, ' '.join(map(hexs, keys))), ops))
    return out


def C05(c):
    w = dict(ed=50, fnd=6, cfnd=6, itr=4, citr=3, mitr=3, mchn=3, at=8, cat=8, cidx=8, atset=5, cnt=3, chn=3, cchn=3, asg=1, cpy=0.7, clr=0.3)
    drop = LIFE + COUNT
    kinds = ['map', 'mapi', 'mapc', 'maps', 'sdbm', 'elf', 'bp']
    traces(c, 'string keys', map_specs(c, c.scale(420, 4000), kinds, w, 2), drop)
    # a value-initialised element even when freed memory with other content is recycled
    specs = []
    for kind in ('mapi', 'mapc', 'maps', 'map'):
        for _ in range(c.scale(10, 100)):
            keys = key_pool(c, c.rng, 12)
            ops = ['new 1 -1']
            for _ in range(60):
                k = c.rng.randrange(1, 13)
                ops.append(c.rng.choice(['ins 1 %d 77' % k, 'era 1 %d' % k, 'add 1 %d 0' % k, 'era 1 %d' % k]))
            specs.append(({'kind': kind, 'hashes': [], 'keys': [list(k) for k in keys]}, 'keys %s %s' % (kind, ' '.join(map(hexs, keys))), ops))
    traces(c, 'recycled elements', specs, drop)
    # long keys: around and beyond 64 KiB; keys that agree in their first 64 KiB or in their length modulo 2^16
    base = c.scale(1, 2)
    long_specs = []
    for kind in ('map', 'sdbm', 'mapi')[:base + 1]:
        u = c.rng.randrange(97, 120)
        words = [(65535, u), (65536, u), (65537, u), (1, u), (65536 + 255, u), (255, u)]
        keys = [bytes([x]) * n for n, x in words] + [b'']
        hdr = 'keys %s %s' % (kind, ' '.join('*%d:%02x' % (n, x) for n, x in words) + ' -')
        n = len(keys)
        ops = ['new 1 8'] + ['ins 1 %d %d' % (k, k) for k in range(1, n + 1)] + ['itr 1', 'citr 1'] + ['fnd 1 %d' % k for k in range(1, n + 1)]
        ops += ['era 1 1', 'era 1 6', 'itr 1'] + ['cfnd 1 %d' % k for k in range(1, n + 1)] + ['cpy 2 1', 'itr 2']
        long_specs.append(({'kind': kind, 'hashes': [], 'keys': [list(k) for k in keys]}, hdr, ops))
    traces(c, 'keys beyond 64 KiB', long_specs, drop)


# ---------------------------------------------------------------- scale
def scale(c, ns, counters=False):
    b = binary(c)
    scripts, hdr = [], []
    for n in ns:
        for mul, add in ((1, 0), (2654435761, 12345))[:2 if c.thorough or n <= 40000 else 1]:
            ops, lo, hi = ['new 1 %d' % c.rng.choice([0, 1, 17])], 0, 0
            while hi < n:
                step = c.rng.randrange(1, n // 5)
                ops.append('rng 1 %d 1 %d' % (hi + 1, min(n, hi + step)))
                hi = min(n, hi + step)
                ops.append('chk 1 %d 0 %d' % (c.rng.randrange(1, hi + 1), min(n, hi + 50)))
            ops += ['sum 1', 'cpy 2 1', 'sum 2', 'chk 1 1 0 %d' % n]
            while lo < n:
                step = c.rng.randrange(1, n // 5)
                ops.append('rng 1 %d 0 %d' % (lo + 1, min(n, lo + step)))
                lo = min(n, lo + step)
                ops.append('chk 1 %d 0 %d' % (max(1, lo - 300), min(n, lo + 3000)))
                if c.rng.random() < 0.3:
                    ops.append('rehn 1 %d' % c.rng.choice([0, n - lo + 1 + c.rng.randrange(1000), n // 2]))
                if c.rng.random() < 0.3:
                    ops.append('sum 1')
            ops.append('sum 2')
            scripts.append(';'.join(['hashseq %d %d %d' % (n, mul, add)] + ops))

    def clean(ev):
        return [{k: v for k, v in e.items() if k not in LIFE and (counters or k not in COUNT)} for e in ev]
    evs = c.run_harness(b, scripts, 'hash')
    items = [{'script': s, 'ev': clean(e)} for s, e in zip(scripts, evs)]
    c.validate('HashScaleTrace', items, rerun=lambda it: clean(c.run_harness(b, [it['script']], 'hash', par=1)[0]), label='ladder')


CHECKS = {'C01': C01, 'C02': C02, 'C03': C03, 'C04': C04, 'C05': C05}
