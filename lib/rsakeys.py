"""The RSA keys of /verif/data: PEM texts with their numbers."""
import base64, glob, os, re
import vf


def _tlv(b, i):
    t, n = b[i], b[i + 1]
    i += 2
    if n & 0x80:
        k = n & 0x7f
        n = int.from_bytes(b[i:i + k], 'big')
        i += k
    return t, b[i:i + n], i + n


def _seq(b):
    out, i = [], 0
    while i < len(b):
        t, x, i = _tlv(b, i)
        out.append((t, x))
    return out


def _ints(b):
    return [int.from_bytes(x, 'big', signed=True) for t, x in _seq(b) if t == 2]


def numbers(pem):
    der = base64.b64decode(''.join(re.findall(r'^[A-Za-z0-9+/=]+$', pem, re.M)))
    top = _seq(_tlv(der, 0)[1])
    if 'BEGIN PUBLIC KEY' in pem:
        return _ints(_tlv(top[1][1][1:], 0)[1])
    if 'BEGIN PRIVATE KEY' in pem:
        return _ints(_tlv(top[2][1], 0)[1])[1:]
    return _ints(_tlv(der, 0)[1])[1:]


def be(n, size=None):
    return list(n.to_bytes(size or (n.bit_length() + 7) // 8, 'big'))


def load():
    """name -> dict(pem, pub, priv, odd, n, e, d)"""
    keys = {}
    for f in sorted(glob.glob(vf.VERIF + '/data/*.pem')):
        name = os.path.basename(f)[:-4]
        pem = open(f).read()
        k = {'pem': pem, 'pub': 0, 'priv': 0, 'odd': 0, 'n': 0, 'e': 0, 'd': 0}
        if name.startswith('pub') or name == 'repo_pub':
            k['pub'] = 1
            k['n'], k['e'] = numbers(pem)[:2]
        elif name.startswith(('priv', 'p8_', 'odd_')) or name == 'repo_priv':
            k['priv'] = 1
            k['n'], k['e'], k['d'] = numbers(pem)[:3]
            k['odd'] = int(name.startswith('odd_'))
        keys[name] = k
    return keys


def table(keys, names):
    """The key table of the trace specifications."""
    return [{'pem': list(keys[x]['pem'].encode()), 'pub': keys[x]['pub'], 'priv': keys[x]['priv'], 'odd': keys[x]['odd'],
             'n': be(keys[x]['n']) if keys[x]['n'] > 0 else [], 'e': be(keys[x]['e']) if keys[x]['e'] > 0 else []} for x in names]


def _der(t, b):
    n = len(b)
    l = bytes([n]) if n < 128 else (lambda x: bytes([0x80 | len(x)]) + x)(n.to_bytes((n.bit_length() + 7) // 8, 'big'))
    return bytes([t]) + l + b


def _int(n):
    return _der(2, n.to_bytes(n.bit_length() // 8 + 1, 'big'))


def _pem(kind, der):
    b = base64.b64encode(der).decode()
    return '-----BEGIN %s-----\n%s-----END %s-----\n' % (kind, ''.join(b[i:i + 64] + '\n' for i in range(0, len(b), 64)), kind)


def relative(keys, name, e):
    """A pair with the modulus of private key `name` and another exponent: the two PEM texts are almost the same."""
    n, _, d, p, q = numbers(keys[name]['pem'])[:5]
    d = pow(e, -1, (p - 1) * (q - 1))
    alg = _der(0x30, bytes.fromhex('06092a864886f70d0101010500'))
    pub = _pem('PUBLIC KEY', _der(0x30, alg + _der(3, b'\0' + _der(0x30, _int(n) + _int(e)))))
    priv = _pem('RSA PRIVATE KEY', _der(0x30, b''.join(map(_int, (0, n, e, d, p, q, d % (p - 1), d % (q - 1), pow(q, -1, p))))))
    return ({'pem': pub, 'pub': 1, 'priv': 0, 'odd': 0, 'n': n, 'e': e, 'd': 0}, {'pem': priv, 'pub': 0, 'priv': 1, 'odd': 0, 'n': n, 'e': e, 'd': d})
