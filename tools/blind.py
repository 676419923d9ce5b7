#!/usr/bin/env python3
"""blind.py [property...] [-n SAMPLES]: looks for blind spots of the trace specifications. Runs the quick check of each
property; of every recorded kind of event, and every field of it, samples are altered one field at a time and the trace up
to there is validated again. Prints how often the specification rejected the alteration, per module, event and field.
Alterations of arguments may legitimately be accepted (the same observation fits other arguments too)."""
import argparse, copy, collections, json, os, random, re, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V]
sys.dont_write_bytecode = True
os.environ.setdefault('VERIF_OUT', '/tmp/blind_out')
import vf
from checks import REGISTRY
ap = argparse.ArgumentParser()
ap.add_argument('props', nargs='*')
ap.add_argument('-n', type=int, default=4)
ap.add_argument('-m', type=int, default=60, help='longest trace prefix used')
ap.add_argument('-v', action='store_true', help='print an example of every accepted alteration')
A = ap.parse_args()
rng = random.Random(5)


def alter(v):
    """other values of the same type"""
    if isinstance(v, bool):
        return [not v]
    if isinstance(v, int):
        return [v + 1, v - 1] if v not in (0, 1) else [1 - v]
    if isinstance(v, str):
        return [v + 'x'] if v else ['x']
    if isinstance(v, list):
        r = []
        if v:
            r += [v[:-1]]
            i = rng.randrange(len(v))
            r += [v[:i] + [w] + v[i + 1:] for w in alter(v[i])]
            r += [v + [v[-1]]]
        else:
            r += [[0]]
        return r
    if isinstance(v, dict):
        return [dict(v, **{k: w}) for k in v for w in alter(v[k])[:1]]
    return []


table = collections.OrderedDict()
plain = vf.Check._validate_once


def audit(c, module, items, consts, timeout, heap):
    pool = collections.defaultdict(list)      # (op, field) -> candidates (item, index)
    for it in items:
        seen = collections.Counter()
        for i, e in enumerate(it['ev'][:A.m]):
            for f in e:
                if f == 'op':
                    continue
                key = (e.get('op', '-'), f)
                seen[key] += 1
                if seen[key] <= 3 and len(json.dumps(it['ev'][:i + 1])) < 20000:
                    pool[key].append((it, i))
    cases = []
    for key, cand in pool.items():
        n = 0
        for it, i in rng.sample(cand, min(len(cand), A.n)):
            alts = alter(it['ev'][i][key[1]])
            for w in rng.sample(alts, min(2, len(alts))):
                e = copy.deepcopy(it['ev'][i])
                old, e[key[1]] = e[key[1]], w
                it2 = {k: v for k, v in it.items() if k != 'ev'}
                it2['ev'] = it['ev'][:i] + [e]
                cases.append((key, it2, e, old))
    print('   audit of %s: %d alterations' % (module, len(cases)), flush=True)
    while cases:
        batch, cases = cases[:400], cases[400:]
        todo = list(range(len(batch)))
        verdict = {}
        while todo:
            path = os.path.join(c.work, 'blind.ndjson')
            with open(path, 'w') as f:
                for j in todo:
                    f.write(json.dumps({k: v for k, v in batch[j][1].items() if k != 'script' and not k.startswith('_')}) + '\n')
            cfg = 'SPECIFICATION TraceSpec\n' + ('CONSTANTS\n' + consts if consts else '')
            r = c.tlc(module, cfg, files={'traces.ndjson': path}, workers=vf.NCPU, timeout=timeout, heap=heap, deadlock=False,
                      args=['-dump', 'states'])
            far = collections.Counter()
            for name in ('states', 'states.dump'):
                if os.path.exists(os.path.join(r.dir, name)):
                    text = open(os.path.join(r.dir, name)).read()
                    for b in text.split('\nState ')[0:]:
                        t, l = re.search(r'\btid = (\d+)', b), re.search(r'(?:^|\n|/\\ )l = (\d+)', b)
                        if t and l:
                            far[int(t.group(1))] = max(far[int(t.group(1))], int(l.group(1)))
            bad = None
            if r.undefined:
                st = c.last_state(r.text)
                bad = int(st['tid'])
            shutil.rmtree(r.dir, ignore_errors=True)
            if bad is not None:
                verdict[todo[bad - 1]] = 'undefined'
                todo.pop(bad - 1)
                continue
            for n, j in enumerate(todo, 1):
                verdict[j] = 'accepted' if far[n] == len(batch[j][1]['ev']) + 1 else 'rejected'
            break
        for j, v in verdict.items():
            key, it, e, old = batch[j]
            row = table.setdefault((module,) + key, [0, 0, 0, None])
            row[{'rejected': 0, 'accepted': 1, 'undefined': 2}[v]] += 1
            if v == 'accepted' and not row[3]:
                row[3] = (old, e)


def hook(c, module, items, consts, timeout, workers, heap):
    r = plain(c, module, items, consts, timeout, workers, heap)
    if r is None and len(items) > 1 or r is None:
        try:
            audit(c, module, items, consts, timeout, heap)
        except vf.ToolError as e:
            print('   audit failed:', str(e)[:1500])
    return r


vf.Check._validate_once = hook
for p in A.props or sorted(REGISTRY):
    print('==', p, flush=True)
    table.clear()
    vf.run_check(p, REGISTRY[p], 'quick', 1)
    for (m, op, f), (rej, acc, und, ex) in table.items():
        if acc:
            print('%s %-18s %-8s %-8s rejected %d accepted %d undefined %d' % (p, m, op, f, rej, acc, und))
            if A.v:
                print('      %s -> %s' % (json.dumps(ex[0])[:80], json.dumps(ex[1])[:200]))
