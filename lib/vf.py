"""Common machinery of the checks: building harnesses from /repo, running them, running TLC, evidence, verdicts.

Verdicts: exit 0 (held on everything explored), exit 1 with "VIOLATION property=<id> replay=<path>" (confirmed by a
second run), exit 2 (the machinery itself failed; nothing is claimed)."""
import glob, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)   # for trying things out
TLAJAR = '/opt/veriftools/tla/tla2tools.jar'
CMJAR = '/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 1)
ASAN = ('detect_leaks=0:handle_abort=1:handle_sigfpe=1:handle_sigill=1:allocator_may_return_null=1:'
        'exitcode=43:detect_stack_use_after_return=0:max_allocation_size_mb=4096:quarantine_size_mb=64:'
        'print_summary=1:color=never:malloc_context_size=8')


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, desc, replay):
        Exception.__init__(self, desc)
        self.desc, self.replay = desc, replay


class TlcResult:
    pass


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%d' % (prop, seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.tests = 0
        self.samples = []
        self.models = []
        self.extra = {}
        self.assumptions = []
        self.exhaustive = []
        self.violations = []
        self.bins = {}

    # ---------------------------------------------------------------- budget
    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def elapsed(self):
        return time.time() - self.t0

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, self.elapsed()), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, name, sources, flags=(), libs=(), asan=True, shared=False, opt='-O1'):
        """Compiles sources (absolute or relative to /verif/harness) from the current trees and links them."""
        if name in self.bins:
            return self.bins[name]
        d = os.path.join(self.work, 'b_' + name)
        os.makedirs(d)
        base = ['g++', '-std=gnu++11', opt, '-g1', '-fPIC', '-w', '-pthread', '-I', REPO + '/include/eni', '-I', VERIF + '/harness',
                '-I', REPO + '/include']
        if asan:
            base += ['-fsanitize=address', '-fno-omit-frame-pointer']
        jobs, objs = [], []
        for s in sources:
            if isinstance(s, tuple):
                s, fl = s
            else:
                fl = ()
            if not os.path.isabs(s):
                s = os.path.join(VERIF, 'harness', s)
            o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:10] + '.o')
            objs.append(o)
            jobs.append(base + list(flags) + list(fl) + ['-c', s, '-o', o])

        def run(cmd):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            return (p.returncode, ' '.join(cmd), p.stdout)
        with ThreadPoolExecutor(NCPU) as ex:
            for rc, cmd, out in ex.map(run, jobs):
                if rc:
                    raise ToolError('compile failed: %s\n%s' % (cmd, out[-3000:]))
        out = os.path.join(d, name + ('.so' if shared else ''))
        cmd = ['g++', '-o', out] + (['-shared'] if shared else []) + (['-fsanitize=address'] if asan else []) + objs + list(libs) + ['-pthread']
        rc, cmd, o = run(cmd)
        if rc:
            raise ToolError('link failed: %s\n%s' % (cmd, o[-3000:]))
        self.bins[name] = out
        return out

    @staticmethod
    def repo_lib():
        return sorted(glob.glob(REPO + '/lib/*.cpp') + glob.glob(REPO + '/lib/*/*.cpp'))

    # ---------------------------------------------------------------- harness
    def run_harness(self, binary, scripts, mode, par=NCPU, timeout=600, env=None):
        """Runs every script (one line each) through the harness; returns one list of events per script. A script that
        kills the process ends with a {"op":"crash"} / {"op":"hang"} event, the following ones run in a new process."""
        n = len(scripts)
        res = [None] * n
        chunks = [list(range(i, n, par)) for i in range(par)]
        chunks = [c for c in chunks if c]
        e = dict(os.environ)
        e.update(ASAN_OPTIONS=ASAN, LC_ALL='C')
        if env:
            e.update(env)

        def work(ci):
            todo = chunks[ci]
            crashes = hangs = 0
            while todo:
                inp = os.path.join(self.work, 'in_%s_%d_%d' % (mode, ci, crashes))
                with open(inp, 'w') as f:
                    for i in todo:
                        f.write('%d\t%s\n' % (i, scripts[i]))
                outp = inp + '.out'
                with open(outp, 'wb') as fo:
                    try:
                        p = subprocess.run([binary, mode, inp], stdout=fo, stderr=subprocess.PIPE, env=e,
                                           cwd=self.work, timeout=timeout)
                    except subprocess.TimeoutExpired:
                        raise ToolError('harness %s timed out' % mode)
                cur, done = None, False
                with open(outp, 'rb') as f:
                    for line in f.read().decode('utf-8', 'replace').split('\n'):
                        if line.startswith('B '):
                            cur = int(line[2:])
                            res[cur] = []
                        elif line == 'E':
                            cur = None
                        elif line == 'DONE':
                            done = True
                        elif line and cur is not None:
                            try:
                                res[cur].append(json.loads(line))
                            except ValueError:
                                res[cur].append({'op': 'crash', 'why': 'garbled event: ' + line[:80]})
                os.unlink(inp)
                os.unlink(outp)
                if done and p.returncode == 0:
                    return
                if p.returncode == 3:
                    raise ToolError('harness usage error: %s' % p.stderr.decode()[-500:])
                if cur is None:  # died between scripts (e.g. in the last one's cleanup): blame the last one begun
                    begun = [i for i in todo if res[i] is not None]
                    if not begun and p.returncode in (-9, 126, 127):
                        raise ToolError('harness %s died before the first script: rc=%d %s' %
                                        (mode, p.returncode, p.stderr.decode('utf-8', 'replace')[-1500:]))
                    cur = begun[-1] if begun else todo[0]   # the code under test can fail before main as well
                    res[cur] = res[cur] or []
                err = p.stderr.decode('utf-8', 'replace')
                why = 'hang' if p.returncode == 42 else 'crash'
                m = re.search(r'(ERROR: AddressSanitizer[^\n]*|terminate called[^\n]*\n[^\n]*)', err)
                res[cur].append({'op': why, 'why': (m.group(1) if m else 'rc=%d' % p.returncode)[:200]})
                crashes += 1
                hangs += why == 'hang'
                todo = [i for i in todo if res[i] is None]
                if crashes > 10 or hangs > 2:
                    for i in todo:
                        res[i] = []
                    return
        with ThreadPoolExecutor(par) as ex:
            list(ex.map(work, range(len(chunks))))
        return res

    def threaded(self, scripts, k, rounds):
        """k of the scripts, to be run by several threads at once (common.h: runThreads)"""
        return ['@threads %d;%s' % (rounds, s) for s in self.rng.sample(scripts, min(k, len(scripts)))]

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg_text, files=None, workers=NCPU, timeout=800, heap='6g', jvm=(), args=(), deadlock=True,
            xss='128m', label=None, defs=None):
        """Runs TLC on spec/<module>.tla in a scratch copy of spec/. Returns a TlcResult. defs gives constants whose
        value the configuration file cannot express."""
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        for f in glob.glob(VERIF + '/spec/*.tla'):
            shutil.copy(f, d)
        for name, src in (files or {}).items():
            os.symlink(src, os.path.join(d, name))
        if defs:
            with open(os.path.join(d, 'Gen.tla'), 'w') as f:
                f.write('---- MODULE Gen ----\nEXTENDS %s\n%s====\n' % (module, ''.join('c_%s == %s\n' % x for x in defs.items())))
            cfg_text += 'CONSTANTS\n' + ''.join(' %s <- c_%s\n' % (x, x) for x in defs)
            module = 'Gen'
        with open(os.path.join(d, 'MC.cfg'), 'w') as f:
            f.write(cfg_text)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss' + xss, '-Djava.io.tmpdir=' + d] + list(jvm) + \
              ['-cp', TLAJAR + ':' + CMJAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', os.path.join(d, 'md'),
               '-workers', str(workers), '-config', 'MC.cfg', '-fp', '1'] + ([] if deadlock else ['-deadlock']) + list(args) + [module + '.tla']
        r = TlcResult()
        outp = os.path.join(d, 'out.txt')
        with open(outp, 'wb') as fo:
            try:
                p = subprocess.run(cmd, stdout=fo, stderr=subprocess.STDOUT, cwd=d, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError('TLC timed out on %s' % module)
        r.dir = d
        r.rc = p.returncode
        r.lines = []
        r.emitted = []
        with open(outp, 'rb') as f:
            for raw in f:
                line = raw.decode('utf-8', 'replace').rstrip('\n')
                if line.startswith('"T@'):
                    r.emitted.append(json.loads(json.loads(line)[2:]))
                else:
                    r.lines.append(line[:6000])
        os.unlink(outp)
        text = '\n'.join(r.lines)
        r.text = text
        m = [x for l in r.lines if 'distinct states found' in l for x in re.findall(r'(\d+) states generated, (\d+) distinct states found', l)]
        r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        r.deadlock = 'Error: Deadlock reached' in text
        m = re.search(r'Error: (Invariant|Action property|Temporal properties?) ?(\S*) ?(is|was|were) violated', text)
        r.violated = m.group(2) if m else None
        r.ok = 'Model checking completed. No error has been found' in text
        # an observation for which the specification has no value (an index out of range and the like)
        r.undefined = (not (r.ok or r.deadlock or r.violated) and module.endswith('Trace') and
                       'The behavior up to this point is' in text and 'OutOfMemory' not in text and 'StackOverflow' not in text)
        if not (r.ok or r.deadlock or r.violated or r.undefined):
            raise ToolError('TLC failed on %s (rc=%d):\n%s' % (module, r.rc, text[-6000:]))
        self.states += r.distinct
        self.transitions += r.generated
        shutil.rmtree(os.path.join(d, 'md'), ignore_errors=True)
        return r

    @staticmethod
    def last_state(text):
        """Variable assignments of the last state TLC printed in an error trace."""
        blocks = re.split(r'\nState \d+: [^\n]*\n', text)
        if len(blocks) < 2:
            return {}
        vals = {}
        for m in re.finditer(r'(?:^|\n)(?:/\\ )?(\w+) = ([^\n]*)', blocks[-1]):
            vals[m.group(1)] = m.group(2)
        return vals

    def model(self, module, cfg_text, label, **kw):
        """Model checking of the specification itself: a violated invariant is a defect of the specification."""
        r = self.tlc(module, cfg_text, **kw)
        if not r.ok:
            raise ToolError('the model %s violates its own properties (%s):\n%s' % (label, r.violated or 'deadlock', r.text[-4000:]))
        self.models.append({'model': label, 'distinct': r.distinct, 'generated': r.generated, 'emitted_tests': len(r.emitted)})
        self.log('model %s: %d distinct states, %d transitions, %d tests emitted' % (label, r.distinct, r.generated, len(r.emitted)))
        return r

    # ---------------------------------------------------------------- trace validation
    def validate(self, module, items, rerun=None, consts='', label=None, chunk=None, timeout=800, workers=NCPU, heap='6g'):
        """items: list of {'script':..., 'ev':[...]} (+ any header fields the module reads). Every recorded trace must be
        a behaviour of the specification. rerun(item) -> fresh events, to confirm a rejection."""
        label = label or module
        items = [it for it in items if it['ev']]
        if not items:
            raise ToolError('no traces for ' + label)
        rej = self._validate_once(module, items, consts, timeout, workers, heap)
        self.traces += len(items)
        nev = sum(len(it['ev']) for it in items)
        self.events += nev
        self.log('%s: %d traces, %d events validated%s' % (label, len(items), nev, '' if rej is None else ': REJECTED'))
        if len(self.samples) < 12:
            s = min(items, key=lambda it: (len(it['ev']) < 3, len(json.dumps(it['ev']))))
            self.samples.append({'binding': 'trace ' + label, 'script': str(s.get('script'))[:600], 'events': s['ev'][:6]})
        if rej is None:
            return
        tid, l = rej
        it = items[tid]
        ev = it['ev'][l] if l < len(it['ev']) else None
        confirmed = rerun is None
        if rerun:
            for _ in range(3):
                it2 = dict(it)
                it2['ev'] = rerun(it)
                if not it2['ev']:
                    continue
                rej2 = self._validate_once(module, [it2], consts, timeout, 1, heap)
                if rej2:
                    confirmed = True
                    it, l = it2, rej2[1]
                    ev = it['ev'][l] if l < len(it['ev']) else None
                    break
        if not confirmed:
            raise ToolError('rejection of %s was not repeatable: %r event %r' % (label, it.get('script'), ev))
        raise Violation('%s rejects event %d: %s' % (label, l, json.dumps(ev)[:400]),
                        {'kind': 'trace', 'module': module, 'consts': consts, 'script': it.get('script'), 'rejected_index': l,
                         'rejected_event': ev, 'item': {k: v for k, v in it.items() if k != 'ev'},
                         'events': it['ev'][:l + 1][-200:]})

    def _validate_once(self, module, items, consts, timeout, workers, heap):
        path = os.path.join(self.work, 'traces_%d.ndjson' % random.getrandbits(48))
        with open(path, 'w') as f:
            for it in items:
                f.write(json.dumps({k: v for k, v in it.items() if k != 'script' and not k.startswith('_')}) + '\n')
        cfg = 'SPECIFICATION TraceSpec\nINVARIANT TraceInv\n' + ('CONSTANTS\n' + consts if consts else '')
        r = self.tlc(module, cfg, files={'traces.ndjson': path}, workers=workers, timeout=timeout, heap=heap)
        os.unlink(path)
        shutil.rmtree(r.dir, ignore_errors=True)
        if r.ok:
            want = sum(len(it['ev']) + 1 for it in items)
            if r.distinct != want:
                raise ToolError('trace validation of %s visited %d states, expected %d' % (module, r.distinct, want))
            return None
        st = self.last_state(r.text)
        if 'tid' not in st or 'l' not in st:
            raise ToolError('cannot locate the rejected event:\n' + r.text[-3000:])
        l = int(st['l'])
        if r.violated:
            l -= 1
        return int(st['tid']) - 1, l - 1

    # ---------------------------------------------------------------- replay of generated tests
    def compare(self, label, tests, actual, key='exp', describe=None):
        """tests[i][key] is what the specification expects; actual[i] is what the code did."""
        self.tests += len(tests)
        for i, t in enumerate(tests):
            if t[key] != actual[i]:
                return i
        return None

    # ---------------------------------------------------------------- end
    def write_evidence(self):
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces + self.tests,
               'recorded_traces_validated': self.traces, 'recorded_events_validated': self.events,
               'spec_generated_tests_replayed': self.tests, 'models': self.models, 'samples': self.samples[:14],
               'exhaustive_parts': self.exhaustive}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': self.assumptions or ['TLC and the harness compiler are trusted'],
              'wall_s': round(self.elapsed(), 2), 'violations': len(self.violations)}
        os.makedirs(OUT + '/evidence', exist_ok=True)
        with open(OUT + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')

    def cleanup(self):
        shutil.rmtree(self.work, ignore_errors=True)


def run_check(prop, fn, tier, seed):
    c = Check(prop, tier, seed)
    rc = 2
    try:
        try:
            fn(c)
            c.write_evidence()
            print('OK property=%s tier=%s seed=%d wall=%.1fs states=%d transitions=%d traces=%d events=%d tests=%d' %
                  (prop, tier, seed, c.elapsed(), c.states, c.transitions, c.traces, c.events, c.tests))
            rc = 0
        except Violation as v:
            c.violations.append(v.desc)
            os.makedirs(OUT + '/out', exist_ok=True)
            path = OUT + '/out/%s-%s-%d.json' % (prop, tier, seed)
            with open(path, 'w') as f:
                json.dump({'property': prop, 'what': v.desc, 'replay': v.replay}, f, indent=1)
                f.write('\n')
            c.samples.append({'violation': v.desc})
            c.write_evidence()
            print('violation: ' + v.desc)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            rc = 1
        except ToolError as e:
            print('ERROR of the check %s: %s' % (prop, e))
            rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            c.cleanup()
    return rc
