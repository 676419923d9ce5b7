"""C06-C08 vectors, C09 random-access iterators."""
import vf

KINDS = ['int', 'uchar', 'pod', 'val']


def binary(c):
    return c.build('vector', ['vector.cpp'] + c.repo_lib())


def call(e):
    return ' '.join([e['op'], str(e['v']), str(e['i']), str(e['n']), str(e['x'])] + [str(x) for x in e['lst']])


def explore(c, group, kinds, **k):
    cfg = ('SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nINVARIANT OnlyGivenValues\nPROPERTY ErrorsChangeNothing\nCONSTANTS\n Group = "%s"\n' % group +
           ''.join(' %s = %s\n' % x for x in sorted(k.items())))
    r = c.model('VectorMC', cfg, 'vector ' + group, deadlock=False)
    b = binary(c)
    for kind in kinds:
        # Vector(n) gives n elements of zero bytes, which is a value of plain data only
        tests = [t for t in r.emitted if kind != 'val' or not any(e['op'] == 'newn' and e['n'] for e in t['h'])]
        scripts = ['vec %s;' % kind + ';'.join(call(e) for e in t['h']) for t in tests]
        evs = c.run_harness(b, scripts, 'vec')
        c.tests += len(scripts)

        def bad(t, ev):
            if len(ev) < len(t['h']) or ev[-1]['op'] in ('crash', 'hang'):
                return 'crash or hang: %r' % (ev[-1:],)
            e = ev[-1]
            for key in ('exc', 'pos', 'val'):
                if key == 'pos' and e['pos'] == -2:
                    continue
                if key == 'val' and t['exc'] != 'none':
                    continue
                if e[key] != t[key]:
                    return '%s: %s is %r, the specification %r' % (e['op'], key, e[key], t[key])
            if e['all'][:2] != t['all']:
                return '%s: content %r, the specification %r' % (e['op'], e['all'][:2], t['all'])
            if e.get('views', 1) != 1 or e.get('capok', 1) != 1:
                return '%s: the ways of reading the vector disagree' % e['op']
            return None
        for i, t in enumerate(tests):
            m = bad(t, evs[i])
            if m and bad(t, c.run_harness(b, [scripts[i]], 'vec', par=1)[0]):
                raise vf.Violation('replay of a generated history: ' + m, {'kind': 'generated', 'script': scripts[i], 'expected': t, 'events': evs[i]})
        c.log('vector %s: %d generated histories replayed on %s' % (group, len(scripts), kind))
    t = r.emitted[len(r.emitted) // 2]
    c.samples.append({'binding': 'generated vector ' + group, 'script': ';'.join(call(e) for e in t['h']), 'expected': t['all']})


SEQ = ['push', 'emp', 'pop', 'ins', 'insi', 'insn', 'insni', 'insr', 'insri', 'insl', 'insli', 'era', 'erai', 'err', 'erri', 'rsz', 'rszf',
       'asn', 'asr', 'asl', 'clr', 'frt', 'bck', 'idx', 'cidx', 'dat', 'at', 'seti', 'setd', 'setat']
ERR = ['push', 'push', 'emp', 'at', 'cat', 'at', 'ins', 'insn', 'insr', 'insl', 'insa', 'insna', 'era', 'err', 'erri', 'era', 'erai', 'resbig', 'rszbig', 'insbig',
       'setat', 'pop', 'rsz']
OWN = ['mov', 'asgm', 'sws', 'push', 'pusha', 'empa', 'emp', 'insa', 'insai', 'insna', 'insnai', 'rsza', 'asna', 'asgl', 'asgv', 'asgv', 'cpy', 'swp', 'del', 'res', 'seti', 'setd',
       'pop', 'erai', 'clr', 'shr', 'push', 'push', 'pusha', 'insa', 'insri', 'asr']
NO_FOR_SMALL = {}


def history(rng, ops, nops, hostile, maxlen, plain, maxv=100):
    """Random calls; lengths are tracked only to meet the preconditions (the specification decides the results)."""
    ln = {}
    out = []

    def lst(n):
        return [rng.randrange(1, maxv) for _ in range(n)]

    def emit(op, v, i=0, n=0, x=0, l=()):
        out.append(' '.join(map(str, [op, v, i, n, x] + list(l))))
    while len(out) < nops:
        v = rng.randrange(1, 4)
        if v not in ln:
            op = rng.choice(['new', 'newn', 'newf', 'newsv', 'newil', 'cpy'])
            if op == 'cpy':
                if not ln:
                    continue
                u = rng.choice(sorted(ln))
                emit('cpy', v, x=u)
                ln[v] = ln[u]
                continue
            if op == 'newn' and not plain:
                op = 'newf'
            n = rng.choice([0, 1, 2, 3, 5])
            l = lst(n) if op in ('newsv', 'newil') else []
            emit(op, v, n=n if not l else 0, x=rng.randrange(1, maxv), l=l)
            ln[v] = 0 if op == 'new' else n
            continue
        op = rng.choice(ops)
        L = ln[v]
        if L > maxlen:
            op = rng.choice(['err', 'rsz', 'clr', 'asn'])
        pos = rng.choice([0, L, rng.randrange(L + 1), max(0, L - 1)])
        if hostile and rng.random() < 0.35:
            pos = L + rng.choice([1, 1, 2, 50])
        x = rng.randrange(1, maxv)
        n = rng.choice([0, 1, 2, 3, 7])
        j = rng.randrange(L) if L else 0
        if op in ('push', 'emp'):
            emit(op, v, x=x); L += 1
        elif op in ('pusha', 'empa'):
            if not L: continue
            emit(op, v, x=j); L += 1
        elif op == 'pop':
            if not L: continue
            emit(op, v); L -= 1
        elif op in ('frt', 'bck'):
            if not L: continue
            emit(op, v)
        elif op in ('idx', 'cidx', 'dat', 'seti', 'setd'):
            if not L: continue
            emit(op, v, i=j, x=x)
        elif op in ('at', 'cat', 'setat'):
            emit(op, v, i=pos, x=x)
        elif op in ('ins', 'insi'):
            if op == 'insi' and pos > L: continue
            emit(op, v, i=pos, x=x); L += pos <= L
        elif op in ('insn', 'insni'):
            if op == 'insni' and pos > L: continue
            emit(op, v, i=pos, n=n, x=x); L += n if pos <= L else 0
        elif op in ('insa', 'insai', 'insna', 'insnai'):
            if not L or (op.endswith('i') and pos > L): continue
            m = n if 'na' in op else 1
            emit(op, v, i=pos, n=m if 'na' in op else 0, x=j); L += m if pos <= L else 0
        elif op in ('insr', 'insri', 'insl', 'insli'):
            if op.endswith('i') and pos > L: continue
            m = rng.choice([0, 1, 2, 3, 6])
            if op in ('insr', 'insri') and rng.random() < 0.1: m = 40
            emit(op, v, i=pos, l=lst(m)); L += m if pos <= L else 0
        elif op in ('era', 'erai'):
            if op == 'erai' and pos > L: continue
            emit(op, v, i=pos); L -= pos < L
        elif op in ('err', 'erri'):
            a, b = rng.randrange(L + 1), rng.randrange(L + 1)
            if not hostile and a > b: a, b = b, a
            if hostile and op == 'err' and rng.random() < 0.3: b = L + rng.choice([1, 9])
            emit(op, v, i=a, n=b)
            if a < b <= L: L -= b - a
        elif op in ('rsz', 'rszf', 'asn'):
            m = rng.choice([0, L, L + 1, L + 5, max(0, L - 2), rng.randrange(maxlen)])
            emit(op, v, n=m, x=x); L = m
        elif op in ('rsza', 'asna'):
            if not L: continue
            m = rng.choice([0, L, L + 1, L + 9, max(0, L - 1)])
            emit(op, v, n=m, x=j); L = m
        elif op in ('asr', 'asl', 'asgl'):
            m = rng.randrange(7)
            emit(op, v, l=lst(m)); L = m
        elif op == 'clr':
            emit(op, v); L = 0
        elif op == 'res':
            emit(op, v, n=rng.choice([0, 1, L, L + 4, L + 30, 64]))
        elif op == 'shr':
            emit(op, v)
        elif op in ('asgv', 'swp'):
            u = rng.choice(sorted(ln))
            emit(op, v, x=u)
            if op == 'asgv': L = ln[u]
            else: L, ln[u] = ln[u], L
            if u == v: continue
        elif op == 'sws':
            u = rng.choice(sorted(ln))
            if u == v: continue
            emit(op, v, x=u)
            L, ln[u] = ln[u], L
        elif op in ('asgm', 'mov'):
            u = rng.choice(sorted(ln))
            if u == v: continue
            if op == 'mov': emit('del', v)
            emit(op, v, x=u)
            L = ln[u]
            # what is left in the source is open: the next call gives it a known length
            how = rng.choice(['clr', 'asn', 'rsz', 'asr', 'asgl', 'del'])
            m = rng.choice([0, 1, 2, 5])
            emit(how, u, n=m if how in ('asn', 'rsz') else 0, x=x if how == 'asn' else 0, l=lst(m) if how in ('asr', 'asgl') else ())
            ln[u] = 0 if how == 'clr' else m
            if how == 'del': del ln[u]
        elif op == 'cpy' or op == 'del':
            emit('del', v)
            del ln[v]
            continue
        elif op in ('resbig', 'rszbig'):
            emit(op, v, x=rng.randrange(3))
        elif op == 'insbig':
            emit(op, v, i=pos, x=rng.choice([1, 2]))
        ln[v] = L
    return out


def traces(c, label, ops, count, nops, hostile=False, maxlen=40, kinds=KINDS):
    b = binary(c)
    scripts = ['vec %s;' % kinds[i % len(kinds)] + ';'.join(history(c.rng, ops, c.rng.choice(nops), hostile, maxlen, kinds[i % len(kinds)] != 'val')) for i in range(count)]
    if not hostile:
        scripts += c.threaded(scripts, c.scale(6, 30), 30)
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'vec', par=par)
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('VectorTrace', items, rerun=lambda it: run([it['script']], 1)[0], label=label)


def long_history(rng, kind, top, nops):
    """Random calls on vectors of thousands of elements."""
    ln, out = {}, []

    def emit(op, v, i=0, n=0, x=0, l=()):
        out.append(' '.join(map(str, [op, v, i, n, x] + ['%d*%d' % p for p in l])))

    def size():
        return max(0, rng.choice([0, 1, 63, 64, 65, 255, 256, 257, 1000, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, rng.randrange(top)]) + rng.choice([-1, 0, 0, 1]))

    def lists(m):
        r = []
        while m > 0:
            k = min(m, rng.randrange(1, m + 1))
            x = rng.randrange(1, 100)
            if r and r[-1][0] == x:
                continue
            r.append((x, k))
            m -= k
        return r
    while len(out) < nops:
        v = rng.randrange(1, 4)
        n = size()
        while n > top:
            n = size()
        x = rng.randrange(1, 100)
        if v not in ln:
            op = rng.choice(['new', 'newn', 'newf', 'newsv', 'cpy'])
            if op == 'cpy':
                if not ln:
                    continue
                u = rng.choice(sorted(ln))
                emit('cpy', v, x=u)
                ln[v] = ln[u]
                continue
            if op == 'newn' and kind == 'val':
                op = 'newf'
            emit(op, v, n=n, x=x, l=lists(n) if op == 'newsv' else ())
            ln[v] = 0 if op == 'new' else n
            continue
        L = ln[v]
        op = rng.choice(['push', 'push', 'pusha', 'empa', 'emp', 'pop', 'ins', 'insi', 'insn', 'insni', 'insr', 'insri', 'insa', 'insai', 'insna', 'insnai', 'era', 'erai',
                         'err', 'erri', 'rsz', 'rszf', 'rsza', 'asn', 'asna', 'asr', 'setat', 'seti', 'at', 'cat', 'idx', 'frt', 'bck', 'res', 'shr', 'asgv', 'swp', 'del', 'clr'])
        if op in ('del', 'clr', 'shr') and rng.random() < 0.7:
            continue
        pos = rng.choice([0, L, rng.randrange(L + 1), max(0, L - 1), min(L, 256), min(L, 65536)])
        j = rng.choice([0, L - 1, rng.randrange(L)]) if L else 0
        if op in ('pusha', 'empa', 'insa', 'insai', 'insna', 'insnai', 'rsza', 'asna', 'pop', 'seti', 'idx', 'frt', 'bck') and not L:
            continue
        if op[:3] == 'ins' and op not in ('ins', 'insi', 'insa', 'insai') or op in ('rszf', 'rsz', 'rsza'):
            if op[:3] == 'ins' and L + n > top:
                continue
        if op in ('push', 'emp', 'pusha', 'empa', 'ins', 'insi', 'insa', 'insai'):
            emit(op, v, i=pos if op[:3] == 'ins' else 0, x=j if op in ('pusha', 'empa', 'insa', 'insai') else x); L += 1
        elif op == 'pop':
            emit(op, v); L -= 1
        elif op in ('insn', 'insni', 'insna', 'insnai'):
            emit(op, v, i=pos, n=n, x=j if 'na' in op else x); L += n
        elif op in ('insr', 'insri'):
            emit(op, v, i=pos, l=lists(n)); L += n
        elif op in ('era', 'erai'):
            emit(op, v, i=pos); L -= pos < L
        elif op in ('err', 'erri'):
            a, b = rng.choice([0, rng.randrange(L + 1), rng.randrange(L + 1)]), rng.choice([L, rng.randrange(L + 1)])
            if a > b: a, b = b, a
            emit(op, v, i=a, n=b); L -= b - a
        elif op in ('rsz', 'rszf', 'rsza', 'asn', 'asna'):
            emit(op, v, n=n, x=j if op in ('rsza', 'asna') else x); L = n
        elif op == 'asr':
            emit(op, v, l=lists(n)); L = n
        elif op in ('setat', 'at', 'cat'):
            emit(op, v, i=pos, x=x)
        elif op in ('seti', 'idx'):
            emit(op, v, i=j, x=x)
        elif op in ('frt', 'bck', 'shr', 'clr'):
            emit(op, v)
            L = 0 if op == 'clr' else L
        elif op == 'res':
            emit(op, v, n=n)
        elif op in ('asgv', 'swp'):
            u = rng.choice(sorted(ln))
            emit(op, v, x=u)
            if op == 'asgv': L = ln[u]
            else: L, ln[u] = ln[u], L
            if u == v: continue
        else:
            emit('del', v)
            del ln[v]
            continue
        ln[v] = L
    return out


def scale(c):
    c.model('VectorRunsMC', 'SPECIFICATION Spec\nINVARIANT Agrees\nCONSTANTS\n MaxLen = %d\n' % c.scale(3, 5), 'sequences as runs', deadlock=False)
    b = binary(c)
    scripts = []
    for i in range(c.scale(24, 200)):
        kind = ['int', 'uchar', 'pod', 'val'][i % 4]
        scripts.append('vecr %s;' % kind + ';'.join(long_history(c.rng, kind, {'val': 2000, 'pod': 70000}.get(kind, 140000), c.scale(40, 60))))
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'vec', par=par)
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('VectorScaleTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='long vectors')


def C06(c):
    explore(c, 'seq', KINDS if c.thorough else ['int', 'val'], MaxLen=c.scale(3, 4), MaxDepth=c.scale(6, 7), Vals='{1,2}')
    traces(c, 'sequence histories', SEQ, c.scale(240, 3000), [30, 80, 150])
    traces(c, 'long sequence histories', SEQ, c.scale(12, 100), [300], maxlen=400)
    scale(c)


def C07(c):
    explore(c, 'err', KINDS if c.thorough else ['int', 'val'], MaxLen=c.scale(3, 5), MaxDepth=c.scale(6, 8), Vals='{1,2}')
    traces(c, 'hostile positions and sizes', ERR, c.scale(320, 4000), [30, 60, 120], hostile=True)


def C08(c):
    explore(c, 'own', KINDS if c.thorough else ['int', 'val'], MaxLen=c.scale(2, 3), MaxDepth=c.scale(6, 7), Vals='{1,2}')
    traces(c, 'ownership and aliasing', OWN, c.scale(320, 4000), [30, 60, 120])
    traces(c, 'long ownership and aliasing', OWN, c.scale(8, 80), [300], maxlen=300)
    scale(c)


# ---------------------------------------------------------------- iterators
def it_script(rng, kind, n, nops):
    vals = [rng.randrange(1, rng.choice([4, 30, 200])) for _ in range(n)]
    p = [0, 0, 0, 0, 0]
    s = list(vals)
    out = []
    const = kind[0] == 'c'
    ops = ['beg', 'end', 'set', 'cpy', 'chain', 'inc', 'dec', 'pinc', 'pdec', 'adds', 'subs', 'addn', 'subn', 'dif', 'cmp', 'cmp', 'get', 'cget', 'arr', 'carr',
           'idx', 'ref', 'afind', 'acount', 'adist', 'amax', 'aeq']
    if not const:
        ops += ['put', 'puti', 'asort', 'assort', 'arev', 'arot', 'afill', 'acopy', 'acopyb', 'aswap', 'aheap', 'anth', 'put']
    while len(out) < nops:
        op, a, b, k = rng.choice(ops), rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(0, n + 1)
        A, Z = p[a], p[b]
        if op == 'beg': p[a] = 0
        elif op == 'end': p[a] = n
        elif op == 'set': p[a] = Z
        elif op == 'cpy':
            if Z >= n: continue
            p[a] = Z
        elif op == 'chain':
            k = rng.randrange(1, 5)
            if b == a: continue
            p[b] = p[a] = p[k]
        elif op in ('inc', 'pinc'):
            if A >= n: continue
            p[a] += 1
        elif op in ('dec', 'pdec'):
            if A == 0: continue
            p[a] -= 1
        elif op == 'adds':
            k = rng.randrange(0, n - A + 1); p[a] += k
        elif op == 'subs':
            k = rng.randrange(0, A + 1); p[a] -= k
        elif op == 'addn':
            k = rng.randrange(0, n - Z + 1); p[a] = Z + k
        elif op == 'subn':
            k = rng.randrange(0, Z + 1); p[a] = Z - k
        elif op in ('get', 'cget', 'arr', 'carr', 'ref', 'put'):
            if A >= n: continue
            if op == 'put': k = rng.randrange(1, 200)
        elif op == 'idx':
            if A >= n: continue
            k = rng.randrange(n - A)
        elif op == 'puti':
            if A >= n: continue
            b = rng.randrange(n - A); k = rng.randrange(1, 200)
            out.append('puti %d %d %d' % (a, b, k)); continue
        elif op == 'aswap':
            if A >= n or Z >= n: continue
        elif op in ('dif', 'cmp'): pass
        else:
            if A > Z: continue
            if op in ('afind', 'acount', 'afill'): k = rng.choice(vals) if rng.random() < 0.7 else 201
            if op == 'aeq' or op == 'acopy':
                if op == 'acopy':
                    c = [x for x in range(0, n - (Z - A) + 1) if not (A < x < Z)]
                    k = rng.choice(c)
                else: k = rng.randrange(0, n - (Z - A) + 1)
            if op == 'acopyb':
                c = [x for x in range(Z - A, n + 1) if not (A < x < Z) and x != Z]
                if not c: continue
                k = rng.choice(c)
            if op == 'arot': k = rng.randrange(Z, n + 1)
            if op == 'anth': k = rng.randrange(A, Z + 1)
        out.append('%s %d %d %d' % (op, a, b, k))
        if op in ('asort', 'assort', 'aheap') and rng.random() < 0.7:
            out.append('alow %d %d %d' % (a, b, rng.randrange(0, 202)))
    return vals, out


def wide_ops(rng, kind, n, count):
    p, seen, out = [0, 0, 0, 0, 0], [0], []
    def step(lim):      # how far to go: near, anywhere, or around a power of two
        m = rng.random()
        k = rng.randrange(4) if m < 0.25 else rng.randrange(lim + 1) if m < 0.5 else 2 ** rng.randrange(32) + rng.choice([-1, 0, 1]) if m < 0.85 else lim - rng.randrange(3)
        return min(max(k, 0), lim)
    while len(out) < count:
        op = rng.choice(['beg', 'end', 'end', 'set', 'cpy', 'inc', 'dec', 'pinc', 'pdec'] + ['adds', 'subs', 'addn', 'subn', 'dif', 'cmp'] * 3 +
                        ['adist', 'get', 'cget', 'arr', 'carr', 'idx', 'idx'] + ([] if kind[0] == 'c' else ['put', 'puti']) + ['back'])
        a, b, k = rng.randrange(1, 5), rng.randrange(1, 5), 0
        if op == 'back':        # go to a place that has been written
            t = rng.choice(seen)
            op, k = ('adds', t - p[a]) if t >= p[a] else ('subs', p[a] - t)
        elif op in ('adds', 'addn'): k = step(n - (p[a] if op == 'adds' else p[b]))
        elif op in ('subs', 'subn'): k = step(p[a] if op == 'subs' else p[b])
        if op == 'beg': p[a] = 0
        elif op == 'end': p[a] = n
        elif op == 'set': p[a] = p[b]
        elif op == 'cpy':
            if p[b] >= n: continue
            p[a] = p[b]
        elif op in ('inc', 'pinc'):
            if p[a] >= n: continue
            p[a] += 1
        elif op in ('dec', 'pdec'):
            if p[a] <= 0: continue
            p[a] -= 1
        elif op == 'adds': p[a] += k
        elif op == 'subs': p[a] -= k
        elif op == 'addn': p[a] = p[b] + k
        elif op == 'subn': p[a] = p[b] - k
        elif op in ('get', 'cget', 'arr', 'carr', 'put', 'idx', 'puti'):
            if p[a] >= n: continue
            if op == 'idx':
                t = rng.choice(seen)
                k = t - p[a] if t >= p[a] and rng.random() < 0.6 else step(n - p[a] - 1)
            if op == 'puti': b = step(n - p[a] - 1)
            if op[:3] == 'put':
                k = rng.randrange(1, 256)
                seen.append(p[a] + (b if op == 'puti' else 0))
        out.append('%s %d %d %d' % (op, a, b, k))
    return out


def C09(c):
    cfg = 'SPECIFICATION Spec\nVIEW View\nCONSTRAINT Bounded\nINVARIANT Laws\nCONSTANTS\n N = %d\n MaxDepth = %d\n' % (c.scale(4, 6), c.scale(8, 12))
    r = c.model('PtrIterMC', cfg, 'iterator arithmetic', deadlock=False)
    b = binary(c)
    n = c.scale(4, 6)
    for kind in ('int', 'cint', 'uchar', 'cuchar'):
        scripts = ['it %s %s;' % (kind, ' '.join(str(11 + i) for i in range(n))) +
                   ';'.join('%s %d %d %d' % (e['op'], e['a'], e['b'], e['k']) for e in t['h']) for t in r.emitted]
        evs = c.run_harness(b, scripts, 'it')
        c.tests += len(scripts)
        for i, t in enumerate(r.emitted):
            good = lambda ev: len(ev) == len(t['h']) and ev[-1].get('p') == t['p'] and ev[-1].get('ret') == t['ret']
            if not good(evs[i]) and not good(c.run_harness(b, [scripts[i]], 'it', par=1)[0]):
                raise vf.Violation('iterator arithmetic: %r, the specification p=%r ret=%r' % (evs[i][-1:], t['p'], t['ret']),
                                   {'kind': 'generated', 'script': scripts[i], 'expected': t, 'events': evs[i]})
        c.log('%d generated histories replayed on %s' % (len(scripts), kind))
    items, scripts = [], []
    for i in range(c.scale(300, 4000)):
        kind = ['int', 'cint', 'uchar', 'cuchar'][i % 4]
        vals, ops = it_script(c.rng, kind, c.rng.choice([1, 2, 5, 9, 20, 40]), c.rng.choice([30, 80]))
        scripts.append('it %s %s;' % (kind, ' '.join(map(str, vals))) + ';'.join(ops))
        items.append({'script': scripts[-1], 'init': vals})
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'it', par=par)
    for it, ev in zip(items, run(scripts)):
        it['ev'] = ev
    c.validate('PtrIterTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='iterator histories and algorithms')
    items = []
    for i in range(c.scale(60, 600)):
        kind, n = [('w1', 2 ** 31 - 1), ('cw1', 2 ** 31 - 1), ('w24', 200000000), ('cw4096', 1100000), ('w1m', 4200), ('w1', 70000)][i % 6]
        items.append({'script': 'itw %s %d;' % (kind, n) + ';'.join(wide_ops(c.rng, kind, n, c.scale(60, 120))), 'n': n})
    for it, ev in zip(items, run([it['script'] for it in items])):
        it['ev'] = ev
    items = [it for it in items if it['ev']]
    if items:
        c.validate('PtrWideTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='iterators over large storage')


CHECKS = {'C06': C06, 'C07': C07, 'C08': C08, 'C09': C09}
