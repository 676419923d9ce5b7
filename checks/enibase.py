"""C16: life cycle of native operations."""
import vf
from checks import jsontext as jt


def hexs(t):
    return t.encode('latin-1', 'ignore').hex() or '-'


ARRAYS = ['[]', '[1]', ' ["a",true,{"k":[1,-2]}] ', '[[],[[]],{}]']
OTHERS = ['1', '"x"', '{}', '{"a":[1]}', 'true', ' "[]"', '-7 ']
BROKEN = ['', ' ', '[', '[1,]', '{"a"}', 'nul', '"', '[1 2]', '{"a":}', "'a'", ']', '-', '01x', '[tru]', '\x01']
GAS = [0, 1, 10, 1499, 1500, 1501, 2 ** 31 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1]
VALS = ['[]', '["a"]', '[1,"b\\n",true]', '[[1],{"k":"v"}]', '["\\u0000\\u001f"]', '[[]]', '[-123456789012345678901234567890]']


def plan(rng):
    vals = rng.choice(VALS)
    if rng.random() < 0.4:
        vals = '[' + ','.join(jt.gen(rng, 2) for _ in range(rng.randrange(4))) + ']'
    return '%d %d %d %s' % (rng.random() < 0.7, rng.choice(GAS + [rng.getrandbits(64)]), rng.random() < 0.7, hexs(vals))


def text(rng):
    k = rng.random()
    if k < 0.3:
        return rng.choice(ARRAYS)
    if k < 0.45:
        return rng.choice(OTHERS)
    if k < 0.6:
        return jt.gen(rng, 2)
    return '[' + ','.join(jt.gen(rng, 2) for _ in range(rng.randrange(5))) + ']'


def history(rng, n):
    out, live, ran = [], [], set()
    while len(out) < n:
        k = rng.random()
        if k < 0.2 and len(live) < 4:
            o = rng.choice([i for i in range(1, 5) if i not in live])
            out.append('new %d %s %s' % (o, hexs(text(rng)), plan(rng)))
            live.append(o)
            ran.discard(o)
        elif k < 0.45 and live:
            out.append('gas %d' % rng.choice(live))
        elif k < 0.65 and live:
            o = rng.choice(live)
            if o not in ran:
                out.append('run %d' % o)
                ran.add(o)
        elif k < 0.72 and live:
            o = rng.choice(live)
            live.remove(o)
            out.append('del %d' % o)
        elif k < 0.92:
            # the C entry points take a C string: no NUL bytes in it
            out.append('%s %s %s' % (rng.choice(['cgas', 'crun']), hexs(text(rng).replace('\0', '0')), plan(rng)))
        elif k < 0.95:
            t = rng.choice(BROKEN + ARRAYS + OTHERS) if rng.random() < 0.6 else jt.mutate(rng, text(rng)).replace('\0', '0')
            out.append('xnew %s %s' % (hexs(t), rng.choice('ngr')))
    return ';'.join(out)


def C16(c):
    b = c.build('life', ['life.cpp'] + c.repo_lib())
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'life', par=par)
    inv = ''.join('INVARIANT %s\n' % i for i in ('Once', 'Rejected', 'CheckedFirst', 'Stable', 'Emit'))
    tests = []
    for objs, depth in c.scale([(1, 6), (2, 5)], [(1, 9), (2, 7)]):
        r = c.model('EniBaseMC', 'SPECIFICATION Spec\n%sCONSTANTS\n NObjs = %d\n MaxCalls = %d\n' % (inv, objs, depth),
                    '%d objects, %d calls' % (objs, depth), deadlock=False)
        tests += r.emitted
    rng = c.rng
    scripts = []
    for t in tests:
        ops = []
        for o in t['h']:
            if o[0] == 'new':
                ops.append('new %d %s %d 7 %d %s' % (o[1], hexs(rng.choice(ARRAYS if o[2] else OTHERS)), o[3], o[4], hexs('["v%d"]' % o[1])))
            else:
                ops.append('%s %d' % (o[0], o[1]))
        scripts.append(';'.join(ops))
    groups = [list(range(i, min(i + 1, len(scripts)))) for i in range(len(scripts))]
    evs = run(scripts)

    def mismatch(t, ev):
        if len(ev) != len(t['h']):
            return 'missing events: %r' % ev[-1:]
        count = {}
        for o, x, e in zip(t['h'], t['out'], ev):
            calls = ''.join(e['calls'])
            ob = count.setdefault(o[1], {'p': 0})
            if o[0] == 'new':
                ob['plan'] = o
            ob['p'] += calls.count('p')
            if ob['p'] > 1 or 'p' in calls[1:]:
                return 'the check is called again'
            if o[0] == 'gas' and e['ret'] != [ord(ch) for ch in str(x[0])]:
                return 'gas %r, the specification %d' % (bytes(e['ret']), x[0])
            if o[0] == 'run' and (e['has'] != x[0] or (x[0] and bytes(e['res']) != b'["v%d"]' % o[1])):
                return 'result %r %r, the specification %d' % (e['has'], bytes(e['res']), x[0])
        return None

    c.tests += len(tests)
    for t, s, ev in zip(tests, scripts, evs):
        m = mismatch(t, ev)
        if m and mismatch(t, run([s], 1)[0]):
            raise vf.Violation('replay of a generated life: ' + m, {'script': s, 'expected': t, 'events': ev})
    c.samples.append({'binding': 'generated life', 'test': tests[len(tests) // 2], 'script': scripts[len(tests) // 2]})
    c.log('%d generated lives replayed' % len(tests))
    scripts = [history(rng, 30) for _ in range(c.scale(250, 3000))]
    for n in [4096, 32768, 65535, 65536, 70001] + c.scale([], [131072, 200003]):   # long texts and results
        one = '["%s",%d]' % ((bytes(rng.randrange(32, 127) for _ in range(n)).replace(b'"', b'x').replace(b'\\', b'y').decode()), n)
        many = '[' + ','.join(str(i) for i in range(min(n // 6, 2500))) + ']'
        scripts.append(';'.join('%s %s 1 5 1 %s' % (op, hexs(t), hexs(v)) for op, t, v in
                                [('new 1', many, one), ('crun', '[]', one), ('crun', one, many), ('cgas', many, '[]')]) + ';run 1;del 1')
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('EniBaseTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='lives with real texts')


CHECKS = {'C16': C16}
