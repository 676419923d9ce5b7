"""C15: the integer types of ENI."""
import vf

WIDTH = {'u64': 64, 'u128': 128, 'u160': 160, 'u256': 256, 's256': 256}


def hexs(t):
    return t.encode().hex()


def number(rng, bits, signed):
    k = rng.random()
    if k < 0.25:
        v = 2 ** rng.choice([b for b in (0, 1, 7, 8, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 159, 160, 161, 191, 192, 255, bits - 1, bits) if b <= bits])
        v += rng.choice([-2, -1, 0, 1])
    elif k < 0.4:
        v = rng.randrange(0, 300)
    elif k < 0.5:
        v = 10 ** rng.randrange(0, len(str(2 ** bits)) - 1) * rng.randrange(1, 10) + rng.choice([0, 0, 1])
    else:
        v = rng.getrandbits(rng.randrange(1, bits + 1))
    v = min(max(v, 0), 2 ** bits - 1)
    return -v if signed and rng.random() < 0.5 else v


def program(rng, t, n):
    bits, signed, out = WIDTH[t], t == 's256', [t]
    reg = [0] * 5
    m = 2 ** bits
    ops = ['add', 'sub', 'mul', 'div', 'mod', 'neg', 'inc', 'dec', 'cmp', 'set', 'set', 'set'] + ([] if signed else ['and', 'or', 'xor', 'not', 'shl', 'shr'])
    while len(out) < n:
        o = rng.choice(ops)
        d, a, b, k = rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(1, 5), rng.randrange(0, bits)
        if o == 'set':
            v = number(rng, bits, signed)
            small = -2 ** 63 <= v < 2 ** 63
            reg[d] = v
            out.append('set %d %s %d' % (d, hexs(str(v)), rng.choice([1, 2, 3] if small else [1, 2])))
            continue
        x, y = reg[a], reg[b]
        if o in ('div', 'mod') and y == 0:
            continue
        q = abs(x) // abs(y) if y else 0
        v = {'add': x + y, 'sub': x - y, 'mul': x * y, 'div': q if (x < 0) == (y < 0) else -q,
             'mod': (-1 if x < 0 else 1) * (abs(x) - abs(y) * q), 'neg': -x, 'inc': x + 1, 'dec': x - 1, 'cmp': reg[d],
             'and': x & y, 'or': x | y, 'xor': x ^ y, 'not': m - 1 - x, 'shl': x << k, 'shr': x >> k}[o]
        if signed and abs(v) >= m:
            continue
        reg[d] = v if signed else v % m
        out.append('%s %d %d %d %d' % (o, d, a, b, k))
    if rng.random() < 0.3:
        out += ['bool 0', 'bool 1']
        out += ['vint ' + hexs(str(rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, rng.randrange(-2 ** 31, 2 ** 31)]))) for _ in range(3)]
    return ';'.join(out)


def C15(c):
    cfg = 'SPECIFICATION Spec\n' + ''.join('INVARIANT %s\n' % i for i in
                                           ('SumOk', 'Difference', 'ProductOk', 'Quotient', 'Order', 'Decimal', 'Shifts', 'Wraps', 'Large'))
    cfg += 'CONSTANTS\n Most = %d\n Step = %d\n'
    c.model('BigNumMC', cfg % (c.scale(40, 200), 1), 'arithmetic of the specification, small numbers')
    c.model('BigNumMC', cfg % (c.scale(30, 120), 1037), 'arithmetic of the specification, larger numbers')
    b = c.build('types', ['types.cpp'] + c.repo_lib())
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'types', par=par)
    scripts = [program(c.rng, t, 40) for t in WIDTH for _ in range(c.scale(60, 700))]
    scripts += [s for t in WIDTH for s in c.threaded([s for s in scripts if s.startswith(t + ';')], c.scale(3, 15), 200)]
    items = [{'script': s, 'type': s.split('@threads 200;')[-1].split(';')[0], 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('EniTypesTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='programs on the integer types')


CHECKS = {'C15': C15}
