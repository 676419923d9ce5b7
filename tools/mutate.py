#!/usr/bin/env python3
"""mutate.py OUT [-n PER_FILE] [-w WORKERS] [-s SEED] [file...]: runs the checks against small random changes of the
repository's sources (in scratch copies, never in /repo) and lists the changes that no check notices, for a person to judge.
No check uses it."""
import os, random, re, shutil, subprocess, sys, argparse, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, J = 'include/eni/adt/', 'include/eni/json/'
HASH = ['C01', 'C03', 'C02', 'C04', 'C05']
FILES = {
    A + 'bits/HashBase.tcc': HASH, A + 'bits/HashTable.tcc': HASH, A + 'bits/HashIterator.tcc': ['C03', 'C01', 'C24', 'C05', 'C04'],
    A + 'HashIterator.h': ['C03', 'C24', 'C05'], A + 'HashBase.h': HASH,
    A + 'bits/Vector.tcc': ['C06', 'C07', 'C08', 'C14'], A + 'bits/PointerIterator.tcc': ['C09', 'C06'],
    A + 'StringHasher.h': ['C10'], A + 'StringMap.h': ['C05'], A + 'StringHashTable.h': ['C05', 'C27', 'C04'],
    'include/eni/support/MallocAllocator.h': ['C27', 'C04'],
    J + 'Parser.h': ['C11', 'C12'], J + 'Callbacks.h': ['C12'], J + 'Value.h': ['C14', 'C13'], J + 'Notation.h': ['C14'],
    'lib/json/Value.cpp': ['C13', 'C14', 'C12'], 'lib/json/Object.cpp': ['C13', 'C14'], 'lib/json/Array.cpp': ['C13', 'C14'],
    'lib/json/Notation.cpp': ['C14', 'C13'], 'include/eni/eni.h': ['C16', 'C17'], 'lib/eni.cpp': ['C16'],
    'tools/eni_scrypt/eni_scrypt.cpp': ['C19', 'C17', 'C18'], 'tools/eni_scrypt/scrypt.cpp': ['C20'],
    'tools/eni_crypto/eni_crypto.cpp': ['C22', 'C21', 'C17', 'C18'],
    'tools/eni_cli/eni_gas.cpp': ['C23'], 'tools/eni_cli/eni_run.cpp': ['C23'], 'tools/eni_cli/optParser.cpp': ['C23'],
    'include/eni/diagnostic/Exception.h': ['C24'], 'lib/eni_types.cpp': ['C15'], 'include/eni/eni_types.h': ['C15'],
    'examples/eni/reverse/eni_reverse.cpp': ['C26'], 'examples/eni/json/eni_json.cpp': ['C25']}
SWAP = {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '&&': ['||'], '||': ['&&'], '<': ['<='], '>': ['>='], '++': ['--'],
        '--': ['++'], '+=': ['-=', '='], '-=': ['+='], '+': ['-'], '-': ['+'], '*': ['+'], '/': ['*'], '%': ['/'], '<<': ['>>'], '>>': ['<<'],
        '^': ['|'], '|': ['&'], '&': ['|'], 'true': ['false'], 'false': ['true'], '!': [''], 'break': ['continue'], '~': ['']}
TOK = re.compile(r'"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|//.*|/\*.*?\*/|[A-Za-z_]\w*|0[xX][0-9a-fA-F]+\w*|\d+\w*|<<=|>>=|<=|>=|==|!=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|<<|>>|->|::|.')


def mutants(path):
    src = open('/repo/' + path).read().split('\n')
    out, comment = [], False
    for n, line in enumerate(src):
        st = line.strip()
        if comment or st.startswith('/*'):
            comment = '*/' not in st
            continue
        if not st or st.startswith(('//', '#', 'template', 'typedef', 'using', 'class ', 'namespace', '*')):
            continue
        toks = [m for m in TOK.finditer(line)]
        for k, m in enumerate(toks):
            t = m.group(0)
            reps = []
            if t in SWAP:
                before, after = line[:m.start()], line[m.end():]
                if t in ('<', '>') and (re.search(r'(template|cast|Iter\w*|Base|Table|Error|Range|vector|Vector|pair|Type|Entry|Map|Exception|function)\s*$', before) or '<' in after and '>' in after):
                    continue
                if t in ('*', '&') and not (before.endswith(' ') and after.startswith(' ') or before.endswith(')')):
                    continue
                if before.rstrip().endswith('operator'):
                    continue
                reps = SWAP[t]
            elif re.fullmatch(r'\d+', t):
                v = int(t)
                reps = [str(v + 1)] + ([str(v - 1)] if v else [])
            for r in reps:
                out.append((n, line[:m.start()] + r + line[m.end():], '%s -> %s' % (t, r)))
        if re.fullmatch(r'[^={]*\(.*\);|[\w.\->\[\]:]+ [+\-^|]?= .*;|(\+\+|--)?[\w.]+(\+\+|--)?;|break;|return;', st) and not st.startswith(('return', 'throw')):
            out.append((n, ';', 'deleted'))
        if re.match(r'(\} else )?if \(.*\)( \{)?$', st):
            i = line.index('if (')
            out.append((n, line[:i] + 'if (false && ' + line[i + 4:], 'never'))
            out.append((n, line[:i] + 'if (true || ' + line[i + 4:], 'always'))
    return src, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('-n', type=int, default=40)
    ap.add_argument('-w', type=int, default=2)
    ap.add_argument('-s', type=int, default=1)
    ap.add_argument('files', nargs='*')
    a = ap.parse_args()
    rng = random.Random(a.s)
    jobs = []
    for f in FILES:
        if a.files and not any(x in f for x in a.files):
            continue
        src, ms = mutants(f)
        rng.shuffle(ms)
        jobs += [(f, src, m) for m in ms[:a.n]]
    rng.shuffle(jobs)
    lock, log = threading.Lock(), open(a.out, 'a')
    base = '/tmp/mut/src%d' % os.getpid()
    shutil.copytree('/repo', base, ignore=shutil.ignore_patterns('_build', '.git'), symlinks=True)
    print(len(jobs), 'mutants', flush=True)

    def work(j):
        i, (f, src, (n, new, what)) = j
        d = '/tmp/mut/%d-%d' % (os.getpid(), i)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(base, d, symlinks=True)
        open(d + '/' + f, 'w').write('\n'.join(src[:n] + [new] + src[n + 1:]))
        verdict = 'SURVIVED'
        for c in FILES[f]:
            e = dict(os.environ, VERIF_REPO=d, VERIF_OUT='/tmp/mut/out')
            try:
                p = subprocess.run(['timeout', '600', 'python3', V + '/check.py', c], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            except Exception as x:
                verdict = 'ERROR %s' % x
                break
            if p.returncode == 1 and 'VIOLATION' in p.stdout:
                verdict = 'killed ' + c
                break
            if p.returncode != 0:
                verdict = 'stillborn' if 'compile failed' in p.stdout or 'link failed' in p.stdout else 'ERROR %s %s' % (c, p.stdout[-200:].replace('\n', ' '))
                break
        shutil.rmtree(d, ignore_errors=True)
        with lock:
            log.write('%s | %s:%d | %s | %s\n' % (verdict, f, n + 1, what, src[n].strip()))
            log.flush()
    with ThreadPoolExecutor(a.w) as ex:
        list(ex.map(work, enumerate(jobs)))


main()
