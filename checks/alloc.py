"""C27 allocators."""
import vf


def histories(c, n):
    rng = c.rng
    scripts = []
    key = lambda n: '-' if n == 0 else '*%d:%s' % (n, rng.choice(['61', '00', 'ff', '8a']))
    for _ in range(n):
        kinds, objs, ops = {}, {}, []
        while len(ops) < rng.randrange(5, 40):
            k = rng.randrange(1, 5)
            if k not in kinds:
                kinds[k] = rng.choice(['pod', 'byte', 'cls', 'cls', 'big', 'entry', 'void'])
                m = 1 if kinds[k] == 'entry' else rng.choice([0, 1, 1, 2, 3, 7, 16])
                objs[k] = [-1] * (0 if kinds[k] == 'void' else m)
                ops.append('new %d %d 0 0 %s %s' % (k, m, kinds[k], key(rng.randrange(0, 40))))
                continue
            o, live = objs[k], [i for i, v in enumerate(objs[k]) if v >= 0]
            raw = [i for i, v in enumerate(o) if v < 0]
            if not live and rng.random() < (0.4 if kinds[k] == 'void' else 0.15):
                ops.append('del %d 0 0 0 -' % k)
                del kinds[k]
            elif raw and (not live or rng.random() < 0.5):
                i = rng.choice(raw)
                op = 'key' if kinds[k] == 'entry' else rng.choice(['con', 'val', 'cpo'] if live else ['con', 'val'])
                x = rng.randrange(0, 100)
                if op == 'cpo':
                    x = rng.choice(live) + 1
                o[i] = {'con': 0, 'key': 0, 'val': x, 'cpo': o[x - 1] if op == 'cpo' else 0}[op]
                ops.append('%s %d 0 %d %d -' % (op, k, i + 1, x))
            elif live:
                i, op = rng.choice(live), rng.choice(['set', 'des', 'des'])
                x = rng.randrange(0, 100)
                o[i] = x if op == 'set' else -1
                ops.append('%s %d 0 %d %d -' % (op, k, i + 1, x))
        scripts.append(';'.join(ops))
    return scripts


def C27(c):
    b = c.build('alloc', ['alloc.cpp'] + c.repo_lib())
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'alloc', par=par)
    rng = c.rng
    cfg = 'SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Counts\nINVARIANT Emit\nCONSTANTS\n MaxLen = %d\n'
    r = c.model('AllocMC', cfg % c.scale(4, 5), 'histories of two blocks', deadlock=False, defs={'Sorts': '{"pod", "cls"}'})
    text = lambda h: ';'.join('%s %d %d %d %d %s' % (e['op'], e['b'], e['n'], e['i'], e['x'], e['kind'] or '-') for e in h)
    scripts = [text(t['h']) for t in r.emitted]
    if len(scripts) > c.scale(2000, 20000):
        scripts = rng.sample(scripts, c.scale(2000, 20000))
    key = lambda n: '-' if n == 0 else '*%d:%s' % (n, rng.choice(['61', '00', 'ff', '8a']))
    # requests that nothing can satisfy
    for kind in ('pod', 'big', 'cls', 'u64'):
        for how in ('over', 'all', 'half', 'max'):
            scripts.append(';'.join('huge 1 %d 0 0 %s %s' % (n, kind, how) for n in (0, 1, 2, 7, 30, 100000)))
    # entries of every key length around the sizes the heap deals in
    for n in list(range(0, 70)) + [255, 256, 65535, 65536, 70000, 200001]:
        scripts.append('new 1 1 0 0 entry %s;new 2 1 0 0 entry -;key 1 0 1 0 -;set 1 0 1 5 -;key 2 0 1 0 -;des 1 0 1 0 -;del 1 0 0 0 -;new 1 1 0 0 entry %s;key 1 0 1 0 -'
                       % (key(n), key(n)))
        scripts.append('new 1 %d 0 0 void;new 2 %d 0 0 void;del 1 0 0 0 -' % (n, n + 1))
    scripts += histories(c, c.scale(600, 10000))
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('AllocTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='allocators')


CHECKS = {'C27': C27}
