"""Template encoding shared by the job specs."""
import struct

L = 'abcdefghijklmnopqrstuvwxyz'
D = '0123456789'
CLASSES = {
    'bare': 'abz019-_',
    'any': ''.join(chr(c) for c in range(32, 127)) + '\t\n\r',
    'print': ''.join(chr(c) for c in range(32, 127)),
    'digit': D,
    'hex': D + 'abcdefABCDEF',
    'lower': L,
    'struct': 'ab1=[]{},.#\n "\'',
    'ctl': '\t\n\r\0\x08\x0b\x0c\x1f\x7f',
    'ascii': ''.join(chr(c) for c in range(128)),
}


def hole(alpha):
    b = bytes(dict.fromkeys(alpha.encode()))
    assert 0 < len(b) < 256 and max(b) < 128
    return bytes([2, len(b)]) + b


def choice(opts):
    o = bytes([3, len(opts)])
    for s in opts:
        e = s.encode() if isinstance(s, str) else s
        o += bytes([len(e)]) + e
    return o


def template(t):
    """'«@cls»' one symbolic byte of a named class, '«=abc»' of the given characters,
    '«a|bc|»' a symbolic choice of strings, '«^k»' hole k again."""
    if isinstance(t, bytes):
        return t
    out = b''
    i = 0
    while True:
        j = t.find('«', i)
        if j < 0:
            return out + t[i:].encode()
        out += t[i:j].encode()
        k = t.index('»', j)
        h = t[j + 1:k]
        if h[0] == '@':
            n = 1
            if '*' in h:
                h, n = h.split('*')
            out += hole(CLASSES[h[1:]]) * int(n)
        elif h[0] == '=':
            out += hole(h[1:])
        elif h[0] == '^':
            out += bytes([4, int(h[1:])])
        else:
            out += choice(h.split('|'))
        i = k + 1


def params(ints=(), blobs=()):
    p = [len(ints)] + list(ints)
    for b in blobs:
        b = template(b)
        p.append(len(b))
        b = b + b'\0' * (-len(b) % 8)
        p += [struct.unpack('<q', b[i:i + 8])[0] for i in range(0, len(b), 8)]
    return ','.join(map(str, p))
