"""Reference MD5 (RFC 1321), SHA-1/224/256/512 (FIPS 180-4) and HMAC (RFC 2104) over values that are
either concrete ints or symbolic terms.  Constants are derived from their definitions, not copied."""
import math, hashlib, hmac as hmacmod


def primes(n):
    out, k = [], 2
    while len(out) < n:
        if all(k % p for p in out):
            out.append(k)
        k += 1
    return out


def isqrt(n):
    return math.isqrt(n)


def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x:
            return x
        x = y


def md5_k():
    # floor(2^32 * |sin(i+1)|), with enough digits through integer Taylor series
    P = 1 << 200
    out = []
    # pi by Machin
    def arctan_inv(x):
        s, t, k, sg = 0, P // x, 1, 1
        while t:
            s += sg * (t // k)
            t //= x * x
            k += 2
            sg = -sg
        return s
    pi = 4 * (4 * arctan_inv(5) - arctan_inv(239))
    for i in range(64):
        x = (i + 1) * P % (2 * pi)
        s, t, k = 0, x, 1
        while t:
            s += t
            t = -(t * x // P * x // P) // ((k + 1) * (k + 2)) if False else -((t * x // P) * x // P) // ((k + 1) * (k + 2))
            k += 2
            if abs(t) <= 1:
                break
        out.append((abs(s) << 32) // P & 0xffffffff)
    return out


MD5_K = md5_k()
SHA256_K = [icbrt(p << 96) & 0xffffffff for p in primes(64)]
SHA512_K = [icbrt(p << 192) & 0xffffffffffffffff for p in primes(80)]
SHA256_H = [isqrt(p << 64) & 0xffffffff for p in primes(8)]
SHA512_H = [isqrt(p << 128) & 0xffffffffffffffff for p in primes(8)]
# SHA-224: second 32 bits of the fractional parts of the square roots of the 9th..16th primes
SHA224_H = [isqrt(p << 128) & 0xffffffff for p in primes(16)[8:]]
MD5_H = [int.from_bytes(bytes(b), "little") for b in
         ([0x01, 0x23, 0x45, 0x67], [0x89, 0xab, 0xcd, 0xef], [0xfe, 0xdc, 0xba, 0x98], [0x76, 0x54, 0x32, 0x10])]
SHA1_H = MD5_H + [int.from_bytes(bytes([0xf0, 0xe1, 0xd2, 0xc3]), "little")]
SHA1_K = [isqrt(2 << 60) & 0xffffffff, isqrt(3 << 60) & 0xffffffff, isqrt(5 << 60) & 0xffffffff, isqrt(10 << 60) & 0xffffffff]
MD5_S = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]]
IV = {"md5": MD5_H, "sha1": SHA1_H, "sha224": SHA224_H, "sha256": SHA256_H, "sha512": SHA512_H}
BLOCK = {"md5": 64, "sha1": 64, "sha224": 64, "sha256": 64, "sha512": 128}
SIZE = {"md5": 16, "sha1": 20, "sha224": 28, "sha256": 32, "sha512": 64}


class Spec(object):
    def __init__(self, store):
        self.st = store
        self.memo = {}

    def op(self, o, w, a, b):
        if type(a) is int and type(b) is int:
            m = (1 << w) - 1
            if o == "add":
                return (a + b) & m
            if o == "xor":
                return a ^ b
            if o == "and":
                return a & b
            if o == "or":
                return a | b
            if o == "shl":
                return (a << b) & m
            if o == "lshr":
                return a >> b
        return self.st.mk(o, w, a, b)

    def add(self, w, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = self.op("add", w, r, x)
        return r

    def x(self, w, *xs):
        r = xs[0]
        for y in xs[1:]:
            r = self.op("xor", w, r, y)
        return r

    def nt(self, w, a):
        return self.op("xor", w, a, (1 << w) - 1)

    def rotr(self, w, a, n):
        return self.op("or", w, self.op("lshr", w, a, n), self.op("shl", w, a, w - n))

    def rotl(self, w, a, n):
        return self.rotr(w, a, w - n)

    def word(self, bs, big):
        w = 8 * len(bs)
        acc = None
        for k, b in enumerate(bs):
            sh = 8 * (len(bs) - 1 - k) if big else 8 * k
            if type(b) is int:
                v = b << sh
            else:
                v = self.st.mk("zext", w, b)
                if sh:
                    v = self.st.mk("shl", w, v, sh)
            acc = v if acc is None else self.op("or", w, acc, v)
        return acc

    def unword(self, v, w, big):
        out = []
        for k in range(w // 8):
            if type(v) is int:
                out.append((v >> (8 * k)) & 255)
            else:
                x = self.st.mk("lshr", w, v, 8 * k) if k else v
                out.append(x & 255 if type(x) is int else self.st.mk("trunc", 8, x))
        return out[::-1] if big else out

    def compress(self, algo, h, blk):
        """One application of the compression function; h: state words, blk: bytes."""
        key = (algo, tuple(v if type(v) is int else (v.id,) for v in h), tuple(v if type(v) is int else (v.id,) for v in blk))
        r = self.memo.get(key)
        if r is None:
            r = getattr(self, "c_" + algo)(list(h), list(blk))
            self.memo[key] = r
        return list(r)

    def c_md5(self, h, blk):
        W = [self.word(blk[4 * i:4 * i + 4], False) for i in range(16)]
        a, b, c, d = h
        A, X, O, N = (lambda *z: self.add(32, *z)), (lambda p, q: self.op("and", 32, p, q)), \
                     (lambda p, q: self.op("or", 32, p, q)), (lambda p: self.nt(32, p))
        for i in range(64):
            r = i // 16
            if r == 0:
                f, g = O(X(b, c), X(N(b), d)), i
            elif r == 1:
                f, g = O(X(b, d), X(c, N(d))), (5 * i + 1) % 16
            elif r == 2:
                f, g = self.x(32, b, c, d), (3 * i + 5) % 16
            else:
                f, g = self.x(32, c, O(b, N(d))), (7 * i) % 16
            t = A(a, f, MD5_K[i], W[g])
            a, d, c, b = d, c, b, A(b, self.rotl(32, t, MD5_S[r][i % 4]))
        return [self.add(32, x, y) for x, y in zip(h, (a, b, c, d))]

    def c_sha1(self, h, blk):
        W = [self.word(blk[4 * i:4 * i + 4], True) for i in range(16)]
        for t in range(16, 80):
            W.append(self.rotl(32, self.x(32, W[t - 3], W[t - 8], W[t - 14], W[t - 16]), 1))
        a, b, c, d, e = h
        AN, N = (lambda p, q: self.op("and", 32, p, q)), (lambda p: self.nt(32, p))
        for t in range(80):
            r = t // 20
            if r == 0:
                f = self.x(32, AN(b, c), AN(N(b), d))
            elif r == 2:
                f = self.x(32, AN(b, c), AN(b, d), AN(c, d))
            else:
                f = self.x(32, b, c, d)
            T = self.add(32, self.rotl(32, a, 5), f, e, SHA1_K[r], W[t])
            e, d, c, b, a = d, c, self.rotl(32, b, 30), a, T
        return [self.add(32, x, y) for x, y in zip(h, (a, b, c, d, e))]

    def sha2(self, w, K, S, h, blk):
        n = w // 8
        W = [self.word(blk[n * i:n * i + n], True) for i in range(16)]
        R = lambda x, k: self.rotr(w, x, k)
        SH = lambda x, k: self.op("lshr", w, x, k)
        AN = lambda p, q: self.op("and", w, p, q)
        for t in range(16, len(K)):
            s0 = self.x(w, R(W[t - 15], S[6]), R(W[t - 15], S[7]), SH(W[t - 15], S[8]))
            s1 = self.x(w, R(W[t - 2], S[9]), R(W[t - 2], S[10]), SH(W[t - 2], S[11]))
            W.append(self.add(w, s1, W[t - 7], s0, W[t - 16]))
        a, b, c, d, e, f, g, hh = h
        for t in range(len(K)):
            S1 = self.x(w, R(e, S[3]), R(e, S[4]), R(e, S[5]))
            ch = self.x(w, AN(e, f), AN(self.nt(w, e), g))
            T1 = self.add(w, hh, S1, ch, K[t], W[t])
            S0 = self.x(w, R(a, S[0]), R(a, S[1]), R(a, S[2]))
            mj = self.x(w, AN(a, b), AN(a, c), AN(b, c))
            T2 = self.add(w, S0, mj)
            hh, g, f, e, d, c, b, a = g, f, e, self.add(w, d, T1), c, b, a, self.add(w, T1, T2)
        return [self.add(w, x, y) for x, y in zip(h, (a, b, c, d, e, f, g, hh))]

    def c_sha256(self, h, blk):
        return self.sha2(32, SHA256_K, (2, 13, 22, 6, 11, 25, 7, 18, 3, 17, 19, 10), h, blk)

    c_sha224 = c_sha256

    def c_sha512(self, h, blk):
        return self.sha2(64, SHA512_K, (28, 34, 39, 14, 18, 41, 1, 8, 7, 19, 61, 6), h, blk)

    def pad(self, algo, n):
        B = BLOCK[algo]
        L = 8 if B == 64 else 16
        z = (-(n + 1 + L)) % B
        bits = (8 * n) % (1 << (8 * L))
        return [0x80] + [0] * z + list(bits.to_bytes(L, "little" if algo == "md5" else "big"))

    def output(self, algo, h):
        w = 64 if algo == "sha512" else 32
        out = []
        for v in h:
            out += self.unword(v, w, algo != "md5")
        return out[:SIZE[algo]]

    def digest(self, algo, msg):
        B = BLOCK[algo]
        m = list(msg) + self.pad(algo, len(msg))
        h = list(IV[algo])
        for i in range(0, len(m), B):
            h = self.compress(algo, h, m[i:i + B])
        return self.output(algo, h)

    def hmac(self, algo, key, msg):
        B = BLOCK[algo]
        key = list(key)
        if len(key) > B:
            key = self.digest(algo, key)
        key = key + [0] * (B - len(key))
        ip = [self.op("xor", 8, k, 0x36) for k in key]
        op = [self.op("xor", 8, k, 0x5c) for k in key]
        return self.digest(algo, op + self.digest(algo, ip + list(msg)))


def selftest(store_cls):
    """The reference itself against published implementations (hashlib) on concrete data."""
    sp = Spec(store_cls())
    n = 0
    for a in IV:
        for ln in (0, 1, 3, 55, 56, 57, 63, 64, 65, 111, 112, 113, 127, 128, 129, 200, 255, 256, 257):
            m = bytes((i * 7 + ln) & 255 for i in range(ln))
            assert bytes(sp.digest(a, m)) == hashlib.new(a, m).digest(), (a, ln)
            k = bytes((i * 11 + 3) & 255 for i in range(ln))
            assert bytes(sp.hmac(a, k, m)) == hmacmod.new(k, m, a).digest(), (a, ln)
            n += 2
    return n
