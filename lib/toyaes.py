"""AES, used only to craft inputs (ciphertexts that decipher to chosen cleartext).
It decides nothing: replies are judged by TLC."""


def _xt(b):
    return ((b << 1) ^ 0x1B) & 0xFF if b & 0x80 else b << 1


def _mul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


def _sbox():
    s = [0] * 256
    for x in range(256):
        inv = next((y for y in range(256) if _mul(x, y) == 1), 0)
        r = 0x63
        for k in range(5):
            r ^= ((inv << k) | (inv >> (8 - k))) & 0xFF
        s[x] = r
    return s


S = _sbox()
M2 = [_mul(i, 2) for i in range(256)]
M3 = [_mul(i, 3) for i in range(256)]


def schedule(key):
    nk = len(key) // 4
    nr = nk + 6
    w = [list(key[4 * i:4 * i + 4]) for i in range(nk)]
    rc = 1
    for i in range(nk, 4 * (nr + 1)):
        t = list(w[i - 1])
        if i % nk == 0:
            t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]
            rc = _xt(rc)
        elif nk > 6 and i % nk == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - nk], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(nr + 1)]


def encrypt(rk, block):
    s = [a ^ b for a, b in zip(block, rk[0])]
    for r in range(1, len(rk)):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < len(rk) - 1:
            t = []
            for c in range(0, 16, 4):
                a, b, d, e = s[c:c + 4]
                t += [M2[a] ^ M3[b] ^ d ^ e, a ^ M2[b] ^ M3[d] ^ e, a ^ b ^ M2[d] ^ M3[e], M3[a] ^ b ^ d ^ M2[e]]
            s = t
        s = [a ^ b for a, b in zip(s, rk[r])]
    return bytes(s)


IS = [S.index(i) for i in range(256)]
M9, MB, MD, ME = ([_mul(i, k) for i in range(256)] for k in (9, 11, 13, 14))


def _mix(s):
    t = []
    for c in range(0, 16, 4):
        a, b, d, e = s[c:c + 4]
        t += [M2[a] ^ M3[b] ^ d ^ e, a ^ M2[b] ^ M3[d] ^ e, a ^ b ^ M2[d] ^ M3[e], M3[a] ^ b ^ d ^ M2[e]]
    return t


def _unmix(s):
    t = []
    for c in range(0, 16, 4):
        a, b, d, e = s[c:c + 4]
        t += [ME[a] ^ MB[b] ^ MD[d] ^ M9[e], M9[a] ^ ME[b] ^ MB[d] ^ MD[e], MD[a] ^ M9[b] ^ ME[d] ^ MB[e], MB[a] ^ MD[b] ^ M9[d] ^ ME[e]]
    return t


def through(rk, point, r, state):
    """the (plaintext, ciphertext) whose encryption passes through the given state: entering round
    r ("sub"), or before ("mix") or after ("key") its column mix, 1 <= r < rounds"""
    last = len(rk) - 1
    s = list(state)
    if point == "key":
        s = _unmix(s)
    if point in ("key", "mix"):
        s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
        s = [IS[x] for x in s]
    back = [a ^ b for a, b in zip(s, rk[r - 1])]
    for k in range(r - 1, 0, -1):
        back = _unmix(back)
        back = [back[(i - 4 * (i % 4)) % 16] for i in range(16)]
        back = [IS[x] ^ y for x, y in zip(back, rk[k - 1])]
    for k in range(r, last + 1):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if k < last:
            s = _mix(s)
        s = [a ^ b for a, b in zip(s, rk[k])]
    return bytes(back), bytes(s)


def cbc(key, iv, data):
    """CBC over whole blocks"""
    rk = schedule(key)
    out, prev = b"", iv
    for i in range(0, len(data), 16):
        prev = encrypt(rk, bytes(a ^ b for a, b in zip(data[i:i + 16], prev)))
        out += prev
    return out


def pad(m):
    n = 16 - len(m) % 16
    return m + bytes([n]) * n


assert encrypt(schedule(bytes(range(16))), bytes(17 * i for i in range(16))).hex() == "69c4e0d86a7b0430d8cdb78070b4c55a"
for _p in ("sub", "mix", "key"):
    for _r in (1, 5, 9):
        _a, _b = through(schedule(bytes(range(16))), _p, _r, bytes(range(7, 23)))
        assert encrypt(schedule(bytes(range(16))), _a) == _b
