"""C23 (command line tools) and C24 (diagnostics)."""
import glob
import os
import vf
from checks.eniops import hexs

IDS = ['Unknown', 'Unimplemented', 'NoMemory', 'InvalidDelegateAssigned', 'InvalidIteratorEmpty', 'InvalidStringMapKey', 'InvalidVectorIndex',
       'InvalidVectorSize']
KINDS = ['exception', 'bad_alloc', 'bad_cast', 'logic_error', 'length_error', 'out_of_range']
SITES = ('vec_at vec_cat vec_ins vec_insn vec_insr vec_insl vec_er vec_er2 vec_erempty json_idx json_cidx vec_res vec_rsz vec_insmax vec_nomem map_at '
         'map_cat json_key json_ckey it_val it_key it_arrow it_pre it_post cit_val cit_arrow cit_pre cit_post del_int del_obj del_arr hasher').split()


def C24(c):
    b = c.build('diag', ['diag.cpp'] + c.repo_lib(), flags=['-pthread'], libs=['-pthread'])
    run = lambda ss, par=vf.NCPU: c.run_harness(b, ss, 'diag', par=par)
    rng = c.rng
    cfg = 'SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT Messages\nINVARIANT Emit\nCONSTANTS\n Slots = 3\n MaxLen = %d\n'
    r = c.model('DiagMC', cfg % c.scale(4, 5), 'histories', deadlock=False,
                defs={'Values': '{<<"Unknown", "exception">>, <<"InvalidStringMapKey", "out_of_range">>, <<"NoMemory", "bad_alloc">>}'})
    scripts = [';'.join(' '.join(x) for x in t['h']) for t in r.emitted]
    if len(scripts) > c.scale(800, 6000):
        scripts = rng.sample(scripts, c.scale(800, 6000))
    # every diagnostic of every kind, and every place that raises one
    allk = [(i, k) for i in IDS for k in KINDS]
    for i, k in allk:
        scripts.append('make 1 1 %s %s;copy 2 1;cap 3 1;drop 1 1;cap 4 2;thr 1 3;base 2 3;nest 3 4;move 4 1' % (i, k))
    for s in SITES:
        scripts.append('site 1 1 %s;cap 2 1;drop 1 1;copy 3 2;thr 1 3;base 4 1' % s)
    for _ in range(c.scale(300, 6000)):
        live, ops = {}, []
        while len(ops) < rng.randrange(4, 25):
            d, a, o = rng.randrange(1, 5), rng.randrange(1, 5), rng.choice(['make', 'make', 'site', 'copy', 'asg', 'move', 'cap', 'thr', 'base', 'nest', 'drop'])
            if o in ('make', 'site'):
                x = rng.choice(allk) if o == 'make' else (rng.choice(SITES),)
                live[d] = x
                ops.append('%s %d %d %s' % (o, d, d, ' '.join(x)))
            elif o == 'drop':
                if d in live:
                    del live[d]
                    ops.append('drop %d %d' % (d, d))
            elif a in live and a != d and (o != 'asg' or live.get(d) == live[a]):
                live[d] = live[a]
                if o == 'move':
                    del live[a]
                ops.append('%s %d %d' % (o, d, a))
        scripts.append(';'.join(ops))
    items = [{'script': s, 'ev': e} for s, e in zip(scripts, run(scripts))]
    c.validate('DiagTrace', items, rerun=lambda it: run([it['script']], 1)[0], label='exceptions')


def clitools(c):
    """Builds the tools, the driver and the libraries; returns (run, libs): run(scripts, asan)."""
    cli = vf.REPO + '/tools/eni_cli/'
    inc = ['-I', vf.REPO + '/tools', '-I', cli]
    dirs = os.path.join(c.work, 'tools')
    os.makedirs(dirs)
    base = c.build('base', c.repo_lib(), asan=False, shared=True)
    link = [base, '-Wl,-rpath,' + os.path.dirname(base), '-ldl']
    for name, other in (('eni_run', 'eni_gas'), ('eni_gas', 'eni_run')):
        src = [f for f in sorted(glob.glob(cli + '*.cpp')) if not f.endswith('/%s.cpp' % other)]
        for asan in (False, True):
            b = c.build(('a_' if asan else '') + name, src, flags=inc, libs=link, asan=asan)
            os.symlink(b, os.path.join(dirs, ('a_' if asan else '') + name))
    stub = c.build('stub', ['stub.cpp'], asan=False, shared=True)
    eni = c.build('enilib', sorted(glob.glob(vf.REPO + '/tools/eni_scrypt/*.cpp')), flags=inc, libs=link + ['-lcrypto'], asan=False, shared=True)
    ld = os.path.join(c.work, 'ld')
    os.makedirs(ld)
    for n in ('stub.so', '-stub.so', '--stub.so', 'st ub.so', 'sub/s.so'):
        os.makedirs(os.path.dirname(os.path.join(ld, n)), exist_ok=True)
        os.symlink(stub, os.path.join(ld, n))
    os.symlink(eni, os.path.join(ld, 'eni.so'))
    open(ld + '/text.so', 'w').write('not a library\n')
    paths = [(p, 'stub') for p in ('stub.so', '-stub.so', '--stub.so', 'st ub.so', './ld/stub.so', 'ld/sub/s.so', ld + '/stub.so', ld + '/-stub.so')]
    paths += [('eni.so', 'eni'), (ld + '/eni.so', 'eni')]
    libs = [{'path': list(p.encode()), 'what': w} for p, w in paths]
    h = c.build('cli', ['cli.cpp'], asan=False)
    env = {'VF_TOOLS': dirs, 'LD_LIBRARY_PATH': ld}
    return (lambda ss, asan=False, par=vf.NCPU: c.run_harness(h, ss, 'a_' if asan else '-', par=par, env=env)), libs, ld


def C23(c):
    run, libs, ld = clitools(c)
    rng = c.rng
    words = ['stub.so', 'echo', '["x"]', '-x', '--', '-', '', 'ld/none.so']
    tup = lambda t: '<<' + ','.join(str(x) for x in t.encode()) + '>>'
    cfg = 'SPECIFICATION Spec\nINVARIANT Same\nINVARIANT SameWords\nINVARIANT OptionsNeverCount\nINVARIANT Emit\nCONSTANTS\n Few = {1, 2, 3, 4, 5}\n MaxLen = %d\n FewLen = %d\n'
    r = c.model('CliMC', cfg % c.scale((4, 5), (5, 7)), 'argument vectors', deadlock=False, defs={'Words': '<<' + ','.join(map(tup, words)) + '>>'})
    ex = lambda tool, args: 'exec %s %s' % (tool, ' '.join(hexs(a.encode('latin-1')) for a in args))
    cmds = [ex(tool, [words[i - 1] for i in a]) for a in r.emitted for tool in ('run', 'gas')]
    # what the operations answer
    ops = ['echo', 'none', 'empty', 'runonly', 'gasonly', 'big', 'lines', '-dash', '', 'nosuch', 'echo_run', 'scrypt', 'Echo', 'echo ']
    paths = ['stub.so', '-stub.so', '--stub.so', 'st ub.so', './ld/stub.so', 'ld/sub/s.so', ld + '/stub.so', ld + '/-stub.so', 'eni.so', ld + '/eni.so',
             'text.so', ld + '/text.so', 'ld', '/', 'stub', 'stub.so ', 'ld/../ld/none.so', '']
    pars = ['', '[]', '["ab"]', '["abc"]', '["xy"]', '[1]', '{}', '5', ' ["00"] ', '-', '--', '-x', '--help', '["' + 'a' * 161 + '"]', 'a b', '\xff\x01%s%n', 'x' * 500]
    extra = []
    for p in paths:
        for o in ops:
            for tool in ('run', 'gas'):
                extra.append((tool, [p, o, rng.choice(pars)]))
    for o in ops:
        for q in pars:
            for tool in ('run', 'gas'):
                extra.append((tool, [rng.choice(['stub.so', 'eni.so', '--stub.so']), o, q]))
    for _ in range(c.scale(600, 8000)):
        extra.append((rng.choice(['run', 'gas']), [rng.choice(paths[:10]), rng.choice(ops), rng.choice(pars)]))
    for n in (4095, 4096, 9000, 66000):
        extra += [(tool, ['stub.so', 'echo', rng.choice('ab %') * n]) for tool in ('run', 'gas')]
    extra += [('gas', ['eni.so', 'scrypt', '["' + '0' * 5000 + '"]']), ('run', ['eni.so', 'e' * 3000, '[]']), ('run', ['d' * 3000, 'echo', '[]'])]
    for tool, a in extra:
        # the positional arguments, spread between options
        need = [i for i, x in enumerate(a) if x.startswith('-')]
        cut = rng.randrange(0, (need[0] if need else 3) + 1) if need or rng.random() < 0.5 else None
        out = []
        opts = ['-x', '-', '---', '--lib', '-lib=x', '-h']
        for i, x in enumerate(a):
            if cut == i:
                out.append('--')
            elif rng.random() < 0.2 and (cut is None or i < cut):
                out.append(rng.choice(opts))
            out.append(x)
        if cut == 3:
            out.append('--')
        elif cut is None and rng.random() < 0.3:
            out.append(rng.choice(opts))
        cmds.append(ex(tool, out))
        if rng.random() < 0.1:
            rng.shuffle(out)
            cmds.append(ex(tool, out))
    good = ['stub.so', 'echo', '["x"]']
    for n in (40, 130, 300, 1100):   # very many arguments
        for a in (['-x'] * n + good, good + ['-%d' % i for i in range(n)], good[:2] + ['--'] + ['["x"]'] * n, ['-a'] * n + ['--'] + good, good + ['y'] * n,
                  [w for i in range(3) for w in ['--opt%d' % i] * n + [good[i]]], ['--'] * n + good, ['-'] * n):
            cmds += [ex(tool, a) for tool in ('run', 'gas')]
    rng.shuffle(cmds)
    scripts = [';'.join(cmds[i:i + 40]) for i in range(0, len(cmds), 40)]
    n = c.scale(20, 200)
    evs = run(scripts) + run(scripts[:n], True)
    scripts += scripts[:n]
    items = [{'script': s, 'ev': e, 'libs': libs} for s, e in zip(scripts, evs)]
    c.validate('CliTrace', items, rerun=lambda it: run([it['script']], par=1)[0], label='runs of the tools')


CHECKS = {'C23': C23, 'C24': C24}
