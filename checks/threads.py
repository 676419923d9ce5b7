"""C28: threads with objects of their own do not disturb each other."""
import vf
import rsakeys
from checks import alloc, crypto, enibase, eniops, enitypes, hashtab, jsonapi, jsontext, strhash, tools, vector

hexs = lambda b: bytes(b).hex() or '-'


def models(c):
    cfg = 'SPECIFICATION Spec\nINVARIANT Independent\nCONSTANTS\n Threads = {1, 2, 3}\n Args = {2, 5}\n Calls = 2\n Shared = %s\n'
    c.model('Threads', cfg % 'FALSE', 'threads with places of their own', deadlock=False)
    # one place for all threads is what the property excludes
    if c.tlc('Threads', cfg % 'TRUE', deadlock=False).violated != 'Independent':
        raise vf.ToolError('the model does not see a shared place')


def C28(c):
    models(c)
    rng = c.rng
    k = c.scale(1, 6)
    done = []

    def part(label, binary, mode, module, its, rounds, consts='', drop=()):
        """its: items with a script each: run by several threads at once, every record a behaviour of the part's specification"""
        clean = lambda ev: [{x: v for x, v in e.items() if x not in drop} for e in ev]
        run = lambda ss, par=vf.NCPU: [clean(ev) for ev in c.run_harness(binary, ss, mode, par=par)]
        for it in its:
            it['script'] = '@threads %d;%s' % (rounds * c.scale(1, 3), it['script'])
        for it, ev in zip(its, run([it['script'] for it in its], 4)):
            it['ev'] = ev
        c.validate(module, its, rerun=lambda it: run([it['script']], 1)[0], consts=consts, label=label)
        done.append(label)

    # hash tables and string maps
    b = hashtab.binary(c)
    w = dict(ed=50, fnd=5, cfnd=5, itr=4, citr=3, mitr=3, chn=3, mchn=3, cnt=2, cpy=2, asg=2, mov=1, mas=1, clr=0.5, reh=1, rehn=1)
    mw = dict(ed=50, fnd=6, cfnd=6, itr=4, citr=3, mitr=3, at=8, cat=8, cidx=8, atset=5, cpy=2, asg=2, add=3, cnt=2, rehn=1, clr=0.5)
    specs = hashtab.int_specs(c, 10 * k, [3, 8, 30], [60, 150], 3, w)
    specs += hashtab.map_specs(c, 21 * k, ['map', 'mapi', 'mapc', 'maps', 'sdbm', 'elf', 'bp'], mw, 3)
    part('tables and maps', b, 'hash', 'HashTrace', [dict(h, script=';'.join([o] + ops)) for h, o, ops in specs], 20, drop=hashtab.COUNT)
    # vectors and iterators
    b = vector.binary(c)
    ops = vector.SEQ + vector.OWN
    its = [{'script': 'vec %s;' % kd + ';'.join(vector.history(rng, ops, rng.choice([40, 100]), False, 40, kd != 'val'))} for kd in vector.KINDS for _ in range(4 * k)]
    part('vectors', b, 'vec', 'VectorTrace', its, 20)
    its = []
    for i in range(16 * k):
        kind = ['int', 'cint', 'uchar', 'cuchar'][i % 4]
        vals, o = vector.it_script(rng, kind, rng.choice([1, 5, 20]), 60)
        its.append({'script': 'it %s %s;' % (kind, ' '.join(map(str, vals))) + ';'.join(o), 'init': vals})
    part('iterators', b, 'it', 'PtrIterTrace', its, 60)
    # string hashes
    b = c.build('strhash', ['strhash.cpp'])
    rb = lambda n: bytes(rng.randrange(256) for _ in range(n))
    its = []
    for _ in range(8 * k):
        o = ['hash ' + hexs(rb(rng.choice([1, 5, 31, 64, 100]))) for _ in range(12)]
        for _ in range(12):
            t = bytes(rng.choice(b'._aZ09z- ') for _ in range(rng.randrange(1, 40)))
            i = rng.randrange(len(t))
            o.append('inc %s %s' % (hexs(rng.choice([t[i:rng.randrange(i, len(t)) + 1], rb(3), t[::-1]])), hexs(t)))
        its.append({'script': ';'.join(o)})
    part('string hashes', b, 'h', 'StrHashTrace', its, 150)
    # integers
    b = c.build('types', ['types.cpp'] + c.repo_lib())
    part('integers', b, 'types', 'EniTypesTrace', [{'script': enitypes.program(rng, t, 40), 'type': t} for t in enitypes.WIDTH for _ in range(2 * k)], 100)
    # JSON: texts and values
    b = jsontext.binary(c)
    for what, valid in (('verdict', 0.3), ('value', 0.95), ('print', 1)):
        its = [{'script': ';'.join(hexs(t) for t in jsontext.texts(c, 12, valid) if len(t) < 800)} for _ in range(4 * k)]
        part('texts (%s)' % what, b, 'text', 'JsonTextTrace', [it for it in its if it['script']], 80, ' What = "%s"\n' % what)
    for what in ('value', 'print'):
        part('values (%s)' % what, b, 'api', 'JsonApiTrace', [{'script': jsonapi.program(rng, 50, what == 'print')} for _ in range(6 * k)], 30, ' What = "%s"\n' % what)
    # lives of operations
    b = c.build('life', ['life.cpp'] + c.repo_lib())
    its = [{'script': ';'.join(o for o in enibase.history(rng, 40).split(';') if not o.startswith('xnew'))} for _ in range(10 * k)]
    part('lives', b, 'life', 'EniBaseTrace', its, 40)
    # diagnostics and allocators
    b = c.build('diag', ['diag.cpp'] + c.repo_lib())
    its = []
    for _ in range(8 * k):
        o = []
        for _ in range(6):
            o.append(rng.choice(['make 1 1 %s %s' % (rng.choice(tools.IDS), rng.choice(tools.KINDS)), 'site 1 1 ' + rng.choice(tools.SITES)]))
            o.append('copy 2 1;cap 3 1;base 4 2;nest 2 3;drop 1 1')
        its.append({'script': ';'.join(o)})
    part('diagnostics', b, 'diag', 'DiagTrace', its, 8)
    b = c.build('alloc', ['alloc.cpp'] + c.repo_lib())
    part('allocators', b, 'alloc', 'AllocTrace', [{'script': s} for s in alloc.histories(c, 12 * k)], 60)
    # the operations and what they are made of
    b = eniops.builds(c, examples=False)
    keys = rsakeys.load()
    its = []
    for _ in range(6 * k):
        o = []
        for _ in range(15):
            d = rb(rng.choice([1, 4, 33, 80]))
            o += ['enc ' + hexs(d), 'dec ' + hexs(d.hex().encode()), 'dec ' + hexs(rng.choice([b'0g', b'abc', d]))]
        its.append({'script': ';'.join(o), 'decide': 0, 'keys': []})
    part('codings', b, 'ops', 'CryptoTrace', its, 200)
    its = [{'script': ';'.join('pbk %s %s %d %d %d' % (hexs(rb(rng.choice([5, 64, 65, 80]))), hexs(rb(rng.choice([8, 80]))), rng.choice([1, 2]), rng.choice([20, 32, 40]),
                                                     rng.randrange(8)) for _ in range(3)), 'decide': 0, 'keys': []} for _ in range(4 * k)]
    part('derived keys', b, 'ops', 'CryptoTrace', its, 150)
    its = []
    for f in ('own', 'pad', 'generic'):
        its.append({'script': 'scr %s %s 0 1 2' % (hexs(rb(80)), f), 'decide': 1, 'keys': []})
    its.append({'script': ';'.join('here scrypt %s %s' % (hexs(b'["%s"]' % rb(n).hex().encode()), rng.choice('bcopq')) for n in (0, 5, 80)), 'decide': 0, 'keys': []})
    part('scrypt', b, 'ops', 'CryptoTrace', its, 10)
    names = ['pub512', 'priv512', 'pub520', 'priv520']
    its = []
    for _ in range(2 * k):
        table = rsakeys.table(keys, names)
        for i, n in enumerate(names):
            table[i]['e'] = rsakeys.be(keys['pub' + n[-3:]]['e'])
        o = []
        for n in names:
            size = (keys[n]['n'].bit_length() + 7) // 8
            m = bytes([1]) + rb(size - 1)
            pem = eniops.jstr(keys[n]['pem'].encode())
            if n.startswith('pub'):
                o.append('here rsa_encrypt ' + hexs(eniops.L('[%s,%s]' % (pem, eniops.jstr(m)))) + ' b')
            else:
                o.append('here rsa_decrypt ' + hexs(eniops.L('[%s,"%s"]' % (pem, m.hex()))) + ' b')
        its.append({'script': ';'.join(o), 'decide': 0, 'keys': table})
    part('RSA', b, 'ops', 'CryptoTrace', its, 20)
    c.extra['parts'] = done


CHECKS = {'C28': C28}
