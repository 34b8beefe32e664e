"""Reference implementations, written from the standards (RFC 4648, BIP 13/32/141/173/350-less, RFC 2104, FIPS 180-4, SEC 1)."""
import hashlib
import hmac as _hmac


# ------------------------------------------------------------------ hex / base32 / base64
def to_hex(b, upper):
    s = b.hex()
    return (s.upper() if upper else s).encode()


HEX = {c: i for i, c in enumerate(b'0123456789abcdef')}
HEX.update({c: i for i, c in enumerate(b'0123456789ABCDEF')})


def from_hex(s):
    out = bytearray()
    for i in range(0, len(s) - 1, 2):
        if s[i] not in HEX or s[i + 1] not in HEX:
            break
        out.append(HEX[s[i]] * 16 + HEX[s[i + 1]])
    return bytes(out)


B32 = b'abcdefghijklmnopqrstuvwxyz234567'
B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
B64U = B64[:62] + b'-_'


def groups(b, w):
    """w-bit groups, most significant first, zero padded"""
    n = -(-8 * len(b) // w)
    x = int.from_bytes(b, 'big') << (n * w - 8 * len(b))
    return [x >> (w * (n - 1 - i)) & ((1 << w) - 1) for i in range(n)]


def encode(b, alpha, w, block, pad):
    s = bytes(alpha[g] for g in groups(b, w)) if alpha else bytes(groups(b, w))
    if pad:
        s += b'=' * (-len(s) % block)
    return s


def decode(s, vals, w, cb, bb):
    """block by block; stops at the first block with an illegal character; a tail no encoder produces or with an illegal
    character contributes nothing"""
    out = bytearray()
    nb = len(s) // cb
    for j in range(nb):
        c = s[cb * j:cb * j + cb]
        if any(x not in vals for x in c):
            return bytes(out)
        x = 0
        for v in c:
            x = x << w | vals[v]
        out += x.to_bytes(bb, 'big')
    t = s[cb * nb:]
    r = len(t) * w // 8
    if t and -(-8 * r // w) == len(t) and all(x in vals for x in t):
        x = 0
        for v in t:
            x = x << w | vals[v]
        out += (x >> (len(t) * w - 8 * r)).to_bytes(r, 'big')
    return bytes(out)


V32 = {c: i for i, c in enumerate(B32)}
V32.update({c: i for i, c in enumerate(B32.upper())})
VRAW = {i: i for i in range(32)}
V64 = {c: i for i, c in enumerate(B64)}
V64U = {c: i for i, c in enumerate(B64U)}


def to_base32(b): return encode(b, B32, 5, 8, True)
def to_base32_raw(b): return encode(b, None, 5, 8, False)
def to_base64(b): return encode(b, B64, 6, 4, True)
def to_base64u(b): return encode(b, B64U, 6, 4, False)


def cut32(s):
    i = s.find(b'=')
    return s if i < 0 else s[:i]


def cut64(s):
    if s[-1:] == b'=':
        s = s[:-1]
        if s[-1:] == b'=':
            s = s[:-1]
    return s


def from_base32(s): return decode(cut32(s), V32, 5, 8, 5)
def from_base32_raw(s): return decode(s, VRAW, 5, 8, 5)
def from_base64(s): return decode(cut64(s), V64, 6, 4, 3)
def from_base64u(s): return decode(s, V64U, 6, 4, 3)


def cap(n, w, cb, bb):
    t = n % cb
    r = t * w // 8
    return n // cb * bb + (r if -(-8 * r // w) == t else 0)


# ------------------------------------------------------------------ variable length integers
def BASE(L):
    return sum(128 ** i for i in range(1, L))


def varint(v):
    L = 1
    while v >= BASE(L + 1):
        L += 1
    d = v - BASE(L)
    return bytes((d >> 7 * (L - 1 - i) & 127) | (128 if i < L - 1 else 0) for i in range(L))


def unvarint(b):
    """(bytes used, value); (0, None) when there is no complete 64-bit encoding"""
    d = 0
    for i in range(min(len(b), 10)):
        d = d << 7 | b[i] & 127
        if not b[i] & 128:
            v = d + BASE(i + 1)
            return (i + 1, v) if v < 1 << 64 else (0, None)
    return 0, None


def zig(v):
    return (-v << 1 | 1) & (1 << 64) - 1 if v < 0 else v << 1


def unzig(u):
    m = u >> 1
    if u & 1:
        return -(1 << 63) if m == 0 else -m
    return m


# ------------------------------------------------------------------ hashes
def sha1(b): return hashlib.sha1(b).digest()
def sha256(b): return hashlib.sha256(b).digest()
def sha512(b): return hashlib.sha512(b).digest()


def _rmd():
    rl = [list(range(16)), [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8], [3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12],
          [1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2], [4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13]]
    rr = [[5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12], [6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2],
          [15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13], [8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14],
          [12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11]]
    sl = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12],
          [11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5], [11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12],
          [9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6]]
    sr = [[8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6], [9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11],
          [9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5], [15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8],
          [8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11]]
    kl = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e]
    kr = [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
    M = 0xffffffff
    f = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & M & z), lambda x, y, z: (x | ~y & M) ^ z,
         lambda x, y, z: (x & z) | (y & ~z & M), lambda x, y, z: x ^ (y | ~z & M)]
    rol = lambda x, n: ((x << n) | (x >> (32 - n))) & M

    def h(b):
        H = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0]
        m = b + b'\x80' + bytes(-(len(b) + 9) % 64) + (8 * len(b)).to_bytes(8, 'little')
        for o in range(0, len(m), 64):
            X = [int.from_bytes(m[o + 4 * i:o + 4 * i + 4], 'little') for i in range(16)]
            L, R = list(H), list(H)
            for j in range(5):
                for i in range(16):
                    a, bb, c, d, e = L
                    t = (rol((a + f[j](bb, c, d) + X[rl[j][i]] + kl[j]) & M, sl[j][i]) + e) & M
                    L = [e, t, bb, rol(c, 10), d]
                    a, bb, c, d, e = R
                    t = (rol((a + f[4 - j](bb, c, d) + X[rr[j][i]] + kr[j]) & M, sr[j][i]) + e) & M
                    R = [e, t, bb, rol(c, 10), d]
            H = [(H[1] + L[2] + R[3]) & M, (H[2] + L[3] + R[4]) & M, (H[3] + L[4] + R[0]) & M, (H[4] + L[0] + R[1]) & M, (H[0] + L[1] + R[2]) & M]
        return b''.join(x.to_bytes(4, 'little') for x in H)
    return h


ripemd160_own = _rmd()


def ripemd160(b):
    try:
        return hashlib.new('ripemd160', b).digest()
    except ValueError:
        return ripemd160_own(b)


def hash160(b): return ripemd160(sha256(b))
def hash256(b): return sha256(sha256(b))
def hmac256(k, m): return _hmac.new(k, m, hashlib.sha256).digest()
def hmac512(k, m): return _hmac.new(k, m, hashlib.sha512).digest()
def bip32_hash(cc, child, header, data): return hmac512(cc, bytes([header]) + data + child.to_bytes(4, 'big'))


# ------------------------------------------------------------------ base58
B58 = b'123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'
V58 = {c: i for i, c in enumerate(B58)}
SPACE = b' \t\n\v\f\r'


def to_base58(b):
    z = len(b) - len(b.lstrip(b'\0'))
    x = int.from_bytes(b, 'big')
    s = bytearray()
    while x:
        x, r = divmod(x, 58)
        s.append(B58[r])
    return b'1' * z + bytes(reversed(s))


def from_base58(s):
    """bytes or None"""
    s = s.strip(SPACE)
    z = len(s) - len(s.lstrip(b'1'))
    x = 0
    for c in s:
        if c not in V58:
            return None
        x = x * 58 + V58[c]
    return bytes(z) + x.to_bytes((x.bit_length() + 7) // 8, 'big')


def to_base58check(b, prefix):
    d = prefix + b
    return to_base58(d + hash256(d)[:4])


def from_base58check(s):
    """payload (prefix included) or None"""
    d = from_base58(s)
    if d is None or len(d) < 4 or hash256(d[:-4])[:4] != d[-4:]:
        return None
    return d[:-4]


# ------------------------------------------------------------------ bech32
CH = b'qpzry9x8gf2tvdw0s3jn54khce6mua7l'
VCH = {c: i for i, c in enumerate(CH)}


def polymod(vs):
    c = 1
    for v in vs:
        b = c >> 25
        c = (c & 0x1ffffff) << 5 ^ v
        for i, g in enumerate((0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3)):
            if b >> i & 1:
                c ^= g
    return c


def expand(h):
    return [x >> 5 for x in h] + [0] + [x & 31 for x in h]


def bech32_encode(h, d):
    p = polymod(expand(h) + list(d) + [0] * 6) ^ 1
    return h + b'1' + bytes(CH[x] for x in d) + bytes(CH[p >> 5 * (5 - i) & 31] for i in range(6))


def bech32_decode(s):
    """(hrp, data) or None"""
    if any(c < 33 or c > 126 for c in s) or (s.lower() != s and s.upper() != s) or len(s) > 90:
        return None
    s = s.lower()
    p = s.rfind(b'1')
    if p < 1 or p + 7 > len(s):
        return None
    h, d = s[:p], s[p + 1:]
    if any(c not in VCH for c in d):
        return None
    d = [VCH[c] for c in d]
    if polymod(expand(h) + d) != 1:
        return None
    return h, bytes(d[:-6])


# ------------------------------------------------------------------ addresses
MAIN = dict(pub=b'\x00', script=b'\x05', sec=b'\x80', xpub=b'\x04\x88\xB2\x1E', xprv=b'\x04\x88\xAD\xE4', hrp=b'bc')
TEST = dict(pub=b'\x6f', script=b'\xc4', sec=b'\xef', xpub=b'\x04\x35\x87\xcf', xprv=b'\x04\x35\x83\x94', hrp=b'tb')
REG = dict(TEST, hrp=b'bcrt')


def decode_address(s, P):
    """(kind, payload): 0 bad, 1 pubkey, 2 script, 3 v0 keyhash, 4 v0 scripthash, 5 other witness (version || program)"""
    d = from_base58check(s)
    if d:
        if d[:len(P['pub'])] == P['pub']:
            return 1, d[len(P['pub']):]
        if d[:len(P['script'])] == P['script']:
            return 2, d[len(P['script']):]
    r = bech32_decode(s)
    if r is None or r[0] != P['hrp'] or len(r[1]) < 1:
        return 0, None
    ver, g = r[1][0], r[1][1:]
    bits = len(g) * 5 % 8
    if bits > 4 or (bits and g[-1] & (1 << bits) - 1):
        return 0, None
    prog = from_base32_raw(g)
    if ver == 0:
        return (3, prog) if len(prog) == 20 else (4, prog) if len(prog) == 32 else (0, None)
    if ver > 16 or not 2 <= len(prog) <= 40:
        return 0, None
    return 5, bytes([ver]) + prog


# ------------------------------------------------------------------ secp256k1
P_ = 2 ** 256 - 2 ** 32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798, 0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def padd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P_ == 0:
            return None
        m = 3 * a[0] * a[0] * pow(2 * a[1], -1, P_) % P_
    else:
        m = (b[1] - a[1]) * pow(b[0] - a[0], -1, P_) % P_
    x = (m * m - a[0] - b[0]) % P_
    return x, (m * (a[0] - x) - a[1]) % P_


def pmul(k, p=G):
    r = None
    while k:
        if k & 1:
            r = padd(r, p)
        p = padd(p, p)
        k >>= 1
    return r


def ser(p, compressed=True):
    x = p[0].to_bytes(32, 'big')
    return bytes([2 + (p[1] & 1)]) + x if compressed else b'\x04' + x + p[1].to_bytes(32, 'big')


def parse(b):
    if len(b) == 33 and b[0] in (2, 3):
        x = int.from_bytes(b[1:], 'big')
        if x >= P_:
            return None
        y2 = (x ** 3 + 7) % P_
        y = pow(y2, (P_ + 1) // 4, P_)
        if y * y % P_ != y2:
            return None
        if y & 1 != b[0] & 1:
            y = P_ - y
        return x, y
    if len(b) == 65 and b[0] in (4, 6, 7):
        x, y = int.from_bytes(b[1:33], 'big'), int.from_bytes(b[33:], 'big')
        if x >= P_ or y >= P_ or (y * y - x ** 3 - 7) % P_:
            return None
        if b[0] != 4 and y & 1 != b[0] & 1:
            return None
        return x, y
    return None


def ckd_priv(k, cc, i):
    """(key, chain code) or None"""
    if i >> 31:
        I = bip32_hash(cc, i, 0, k)
    else:
        s = ser(pmul(int.from_bytes(k, 'big')))
        I = bip32_hash(cc, i, s[0], s[1:])
    t = int.from_bytes(I[:32], 'big')
    if t >= N:
        return None
    r = (t + int.from_bytes(k, 'big')) % N
    return (r.to_bytes(32, 'big'), I[32:]) if r else None


def ckd_pub(K, cc, i):
    p = parse(K)
    if p is None:
        return None
    I = bip32_hash(cc, i, K[0], K[1:])
    t = int.from_bytes(I[:32], 'big')
    if t >= N:
        return None
    q = padd(p, pmul(t))
    return (ser(q), I[32:]) if q else None


# ------------------------------------------------------------------ DER
def der_priv(k, compressed):
    p = pmul(int.from_bytes(k, 'big'))
    fp = P_.to_bytes(32, 'big')

    def tlv(t, v):
        n = len(v)
        return bytes([t]) + (bytes([n]) if n < 128 else b'\x81' + bytes([n]) if n < 256 else b'\x82' + n.to_bytes(2, 'big')) + v
    par = tlv(0x30, tlv(2, b'\x01') + tlv(0x30, tlv(6, bytes.fromhex('2a8648ce3d0101')) + tlv(2, b'\0' + fp)) +
              tlv(0x30, tlv(4, b'\0') + tlv(4, b'\x07')) + tlv(4, ser(G, compressed)) + tlv(2, b'\0' + N.to_bytes(32, 'big')) + tlv(2, b'\x01'))
    return tlv(0x30, tlv(2, b'\x01') + tlv(4, k) + tlv(0xa0, par) + tlv(0xa1, tlv(3, b'\0' + ser(p, compressed))))


def der_priv_decode(b):
    """32-byte key or None"""
    if len(b) < 2 or b[0] != 0x30 or not b[1] & 0x80:
        return None
    lb = b[1] & 0x7f
    if not 1 <= lb <= 2 or len(b) < 2 + lb:
        return None
    n = int.from_bytes(b[2:2 + lb], 'big')
    r = b[2 + lb:]
    if len(r) < n or r[:3] != b'\x02\x01\x01' or len(r) < 5 or r[3] != 4:
        return None
    o = r[4]
    if o > 32 or len(r) < 5 + o:
        return None
    k = r[5:5 + o].rjust(32, b'\0')
    return k if 0 < int.from_bytes(k, 'big') < N else None


def sig_lax(b):
    """(r, s) with (0, 0) standing for out of range, or None when refused"""
    pos = 0
    if b[0:1] != b'\x30':
        return None
    pos = 1
    if pos >= len(b):
        return None
    L = b[pos]
    pos += 1
    if L & 0x80:
        if L - 0x80 > len(b) - pos:
            return None
        pos += L - 0x80
    vals = []
    for _ in range(2):
        if pos >= len(b) or b[pos] != 2:
            return None
        pos += 1
        if pos >= len(b):
            return None
        L = b[pos]
        pos += 1
        if L & 0x80:
            L -= 0x80
            if L > len(b) - pos:
                return None
            f = b[pos:pos + L].lstrip(b'\0')
            if len(f) >= 4:
                return None
            pos += L
            n = int.from_bytes(f, 'big')
        else:
            n = L
        if n > len(b) - pos:
            return None
        vals.append(int.from_bytes(b[pos:pos + n], 'big'))
        pos += n
    r, s = vals
    if r >= N or s >= N:
        return 0, 0
    return r, s


def rfc6979(d, m, extra=b''):
    """nonces of libsecp256k1's secp256k1_nonce_function_rfc6979"""
    mac = lambda k, *a: _hmac.new(k, b''.join(a), 'sha256').digest()
    x = d.to_bytes(32, 'big') + (int.from_bytes(m, 'big') % N).to_bytes(32, 'big') + extra
    V, K = b'\1' * 32, b'\0' * 32
    K = mac(K, V, b'\0', x)
    V = mac(K, V)
    K = mac(K, V, b'\1', x)
    V = mac(K, V)
    while True:
        V = mac(K, V)
        yield int.from_bytes(V, 'big')
        K = mac(K, V, b'\0')
        V = mac(K, V)


def sign_low_r(d, m):
    """the deterministic signature: RFC 6979, then the counter 1, 2, ... as extra data until R is low; low S"""
    e, n = int.from_bytes(m, 'big') % N, 0
    while True:
        for k in rfc6979(d, m, n.to_bytes(32, 'little') if n else b''):
            if not 0 < k < N:
                continue
            r = pmul(k)[0] % N
            s = pow(k, -1, N) * (e + r * d) % N
            if r and s:
                break
        n += 1
        if r < 1 << 255:
            return r, min(s, N - s)


def sig_der(r, s):
    def i(x):
        b = x.to_bytes((x.bit_length() + 8) // 8, 'big')
        return b'\x02' + bytes([len(b)]) + b
    v = i(r) + i(s)
    return b'\x30' + bytes([len(v)]) + v


def ecdsa_ok(pub, h, r, s):
    if not (0 < r < N and 0 < s < N):
        return False
    w = pow(s, -1, N)
    e = int.from_bytes(h, 'big')
    q = padd(pmul(e * w % N), pmul(r * w % N, pub))
    return q is not None and q[0] % N == r


# ------------------------------------------------------------------ hex dump
def hexdump(b, upper):
    s = ''
    for i, x in enumerate(b):
        if i:
            if i % 4 == 0:
                s += ' '
            if i % 8 == 0:
                s += ' '
            if i % 16 == 0:
                s += ' '
            if i % 32 == 0:
                s += '\n'
        s += '%02X' % x if upper else '%02x' % x
    return (s + '\n').encode()
