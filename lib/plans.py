"""Call histories for the harness.  Contents come from the seed; the shapes of the histories on
stream objects come from TLC (spec/Gen.tla)."""
import toyaes
from tools import Session


def hx(b):
    return b.hex() if len(b) else "-"


class Maker:
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def sid(self, tag):
        self.n += 1
        return "%s-%d" % (tag, self.n)

    def session(self, tag, lines):
        return Session(self.sid(tag), lines)

    # ------------------------------------------------------------ contents
    WORDS = [x.to_bytes(4, o) for o in ("big", "little")
             for x in (0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xffffffff, 0xfffffffe, 0x0000ffff, 0x00010000, 0xffff0000, 0x00ff00ff)]

    def bytes(self, n, kind=None):
        """Mostly random; otherwise one of the shapes implementations are known to trip over."""
        r = self.rng
        if kind is None:
            kind = r.choice(["random"] * 9 + ["zero", "ff", "80", "ramp", "tail0", "head0", "low", "text", "one", "words"])
        if kind == "random":
            return r.randbytes(n)
        if kind == "zero":
            return bytes(n)
        if kind == "ff":
            return b"\xff" * n
        if kind == "80":
            return b"\x80" * n
        if kind == "ramp":
            a = r.randrange(256)
            return bytes((a + i) & 255 for i in range(n))
        if kind == "tail0":
            k = r.randrange(n + 1)
            return r.randbytes(n - k) + bytes(k)
        if kind == "head0":
            k = r.randrange(n + 1)
            return bytes(k) + r.randbytes(n - k)
        if kind == "low":
            return bytes(r.choice((0, 1, 2, 3, 16, 15, 127, 128)) for _ in range(n))
        if kind == "words":      # 32-bit words next to where sums carry
            return b"".join(r.choice(self.WORDS) for _ in range(n // 4 + 1))[:n]
        if kind == "text":
            return bytes(r.choice(b"abcdefghijklmnopqrstuvwxyz 0123456789") for _ in range(n))
        if kind == "one":
            return bytes([r.randrange(256)]) * n
        raise ValueError(kind)

    def pieces(self, data, sizes):
        """data cut at random into pieces of the given sizes"""
        out, at = [], 0
        while at < len(data):
            k = self.rng.choice(sizes)
            out.append(data[at:at + k])
            at += k
        if self.rng.random() < 0.2:
            out.insert(self.rng.randrange(len(out) + 1), b"")
        return out

    def family(self, x):
        """inputs that a careless cache or comparison takes for x"""
        r = self.rng
        v = [x, x + b"\0", x + r.randbytes(1), self.bytes(len(x))]
        if x:
            for i in (0, len(x) - 1, r.randrange(len(x))):
                y = bytearray(x)
                y[i] ^= 1 << r.randrange(8)
                v.append(bytes(y))
            v += [x[:-1], x[1:], x[::-1], x[:len(x) // 2] + r.randbytes(len(x) - len(x) // 2)]
        return v + self.cancelling(x)

    def cancelling(self, x):
        """changes that sums, xors or looks at the ends of the contents do not see"""
        r, n, v = self.rng, len(x), []
        if n < 2:
            return v
        for k in {1, 4 % n, 8 % n, 16 % n, 32 % n, n // 2} - {0}:
            i, d = r.randrange(n), r.randrange(1, 256)
            y, z, w = bytearray(x), bytearray(x), bytearray(x)
            j = (i + k) % n
            y[i] ^= d
            y[j] ^= d
            z[i] = (z[i] + d) & 255
            z[j] = (z[j] - d) & 255
            w[i], w[j] = w[j], w[i]
            v += [bytes(y), bytes(z), bytes(w)]
        v.append(x[1:] + x[:1])
        if n > 16:
            v += [x[:8] + r.randbytes(n - 16) + x[-8:], x[:n // 2] + bytes(n - n // 2), x[n // 2:] + x[:n // 2]]
        return v

    def pair_family(self, a, b):
        """pairs that are the same when put together, swapped or cut elsewhere, or differ in one part"""
        v = [(a, b), (b, a), (a + b, b""), (b"", a + b), (b"", b""), (a, b""), (b"", b), (a + b"\0", b), (a, b + b"\0"), (a, a), (b, b)]
        for k in (1, len(a) // 2, len(a) - 1):
            v.append((a[:k], a[k:] + b))
        for k in (1, len(b) // 2, len(b) - 1):
            v.append((a + b[:k], b[k:]))
        v += [(x, b) for x in self.family(a)] + [(a, x) for x in self.family(b)]
        out = []
        for x in v:
            if x not in out:
                out.append(x)
        return out

    def mesh(self, tag, tasks):
        """each of these short histories directly after each other and itself"""
        lines = ["mesh %d" % self.rng.randrange(1 << 30)]
        for k, t in enumerate(tasks):
            lines += (["--"] if k else []) + t
        return self.session(tag, lines)

    def key_family(self, k=None):
        """keys of all sizes that begin or end alike, or differ in a bit"""
        r = self.rng
        k = k or r.randbytes(32)
        v = [k[:16], k[:24], k, k[8:], k[16:], k[:16] + k[:8], k[:16] * 2, bytes(16), bytes(24), bytes(32)]
        for n in (16, 24, 32):
            for i in (0, n - 1, r.randrange(n)):
                y = bytearray(k[:n])
                y[i] ^= 1 << r.randrange(8)
                v.append(bytes(y))
            c = self.cancelling(k[:n])
            v += r.sample(c, len(c) // 3)
        r.shuffle(v)
        return v

    def state(self):
        """an AES state of columns with some structure"""
        r = self.rng

        def column():
            k = r.randrange(8)
            if k == 0:
                return bytes(4)
            if k == 1:
                return bytes([r.randrange(256)]) * 4
            if k == 2:
                b = bytearray(4)
                b[r.randrange(4)] = r.randrange(256)
                return bytes(b)
            if k == 3:
                return b"\xff" * 4
            if k == 4:
                b = r.randbytes(2)
                return r.choice((b + b, b[:1] * 2 + b[1:] * 2, b + b[::-1]))
            if k == 5:
                return bytes(r.choice((0, 1, 2, 0x1b, 0x52, 0x63, 0x7f, 0x80, 0x81, 0xff)) for _ in range(4))
            return r.randbytes(4)
        k = r.randrange(4)
        c = column()
        if k == 0:
            return c * 4
        if k == 1:
            return b"".join(r.sample([c, c, column(), column()], 4))
        return b"".join(column() for _ in range(4))

    def new(self, kind, o):
        return "%s.new %d%s" % (kind, o, " default" if self.rng.random() < 0.5 else "")

    # ------------------------------------------------------------ whole computations
    def sha(self, data, pieces=None):
        return [self.new("sha", 1)] + ["sha.update 1 " + hx(p) for p in (pieces if pieces is not None else [data])] + ["sha.digest 1"]

    def hmac(self, key, pieces):
        return ["hmac.new 1 " + hx(key)] + ["hmac.update 1 " + hx(p) for p in pieces] + ["hmac.digest 1"]

    # ------------------------------------------------------------ histories from Gen
    def from_hash(self, kind, hist):
        lines = [self.new("sha", 1) if kind == "sha" else "hmac.new 1 " + hx(self.bytes(self.rng.choice((0, 1, 32, 63, 64, 65, 100))))]
        for h in hist:
            if h["a"] == "feed":
                lines.append("%s.update 1 %s" % (kind, hx(self.bytes(h["n"]))))
            else:
                lines.append("%s.digest 1" % kind)
        if not hist or hist[-1]["a"] != "digest":
            lines.append("%s.digest 1" % kind)
        return lines

    def from_aes(self, hist):
        lines = [self.new("aes", 1)]
        last = None
        for h in hist:
            if h["a"] == "init":
                last = self.bytes(h["n"])
                lines.append("aes.init 1 " + hx(last))
            else:
                lines.append("aes.%s 1 %s" % ("enc" if h["n"] else "dec", hx(self.bytes(16))))
        b = self.bytes(16)
        if last is None or len(last) not in (16, 24, 32):
            lines += ["aes.enc 1 " + hx(b), "aes.dec 1 " + hx(b)]
        if not any(h["a"] == "init" and h["n"] in (16, 24, 32) for h in hist):
            lines.append("aes.init 1 " + hx(self.bytes(self.rng.choice((16, 24, 32)))))
        return lines + ["aes.enc 1 " + hx(b), "aes.dec 1 " + hx(b)]

    def from_cipher(self, hist, probe=True):
        lines = ["cipher.new 1 " + hx(self.bytes(16))]
        for h in hist:
            if h["a"] == "init":
                lines.append("cipher.init 1 " + hx(self.bytes(h["n"])))
            elif h["a"] == "feed":
                lines.append("cipher.write 1 " + hx(self.bytes(h["n"])))
            else:
                lines.append("cipher.flush 1")
        if probe:      # make what the object holds visible
            if not any(h["a"] == "init" and h["n"] in (16, 24, 32) for h in hist):
                r = self.rng
                lines += r.sample(["cipher.flush 1", "cipher.write 1 " + hx(self.bytes(r.randrange(40)))], r.randrange(3))
                lines.append("cipher.init 1 " + hx(self.bytes(r.choice((16, 24, 32)))))
            lines += ["cipher.write 1 " + hx(self.bytes(16)), "cipher.flush 1", "cipher.flush 1"]
        return lines

    def from_decipher(self, hist, probe=True):
        """Ciphertext is crafted so that the last block completed by a piece deciphers to valid
        padding (g = 1) or not (g = 0), under the key in force at that call."""
        if probe:
            fill = sum(h["n"] for h in hist if h["a"] == "feed") % 16
            flush = {"a": "flush", "n": 0, "g": 0}
            if not any(h["a"] == "init" and h["n"] in (16, 24, 32) for h in hist):
                hist = hist + [flush, {"a": "init", "n": self.rng.choice((16, 24, 32)), "g": 0}]
            hist = hist + [flush, {"a": "feed", "n": 16 - fill, "g": self.rng.randrange(2)}, flush, flush]
        iv = self.bytes(16)
        keys, rk, total, plan = [], None, 0, {}
        for h in hist:                      # which block gets which ending, under which key
            if h["a"] == "init":
                k = self.bytes(h["n"])
                keys.append(k)
                if h["n"] in (16, 24, 32):
                    rk = toyaes.schedule(k)
            elif h["a"] == "feed":
                last = (total + h["n"]) // 16 - 1
                for i in range(total // 16, last + 1):
                    plan[i] = (rk, h["g"] if i == last else None)
                total += h["n"]
        stream, prev = b"", iv
        for i in range(total // 16):
            r, g = plan[i]
            blk = self.bytes(16) if r is None or g is None else self.block_for(r, prev, g)
            stream += blk
            if r is not None:       # else it was refused
                prev = blk
        stream += self.bytes(total % 16)
        lines, at = ["decipher.new 1 " + hx(iv)], 0
        for h in hist:
            if h["a"] == "init":
                lines.append("decipher.init 1 " + hx(keys.pop(0)))
            elif h["a"] == "feed":
                lines.append("decipher.write 1 " + hx(stream[at:at + h["n"]]))
                at += h["n"]
            else:
                lines.append("decipher.flush 1")
        return lines

    def from_api(self, hist):
        """A history of GenApi: calls on several objects and functions, each with its thread."""
        kinds = [h["a"] for h in hist if h["a"] in ("sha", "hmac", "aes", "cipher", "decipher")]
        todo = {}
        for o, kind in enumerate(kinds, 1):
            own = [h for h in hist if h["o"] == o and h["a"] != kind]
            if kind in ("sha", "hmac"):
                lines = self.from_hash(kind, own)
            elif kind == "aes":
                lines = self.from_aes(own)
            elif kind == "cipher":
                lines = self.from_cipher(own, probe=False)
            else:
                lines = self.from_decipher(own, probe=False)
            for k, line in enumerate(lines):
                w = line.split(" ")
                w[1] = str(o)
                lines[k] = " ".join(w)
            todo[o] = lines
        out = []
        for h in hist:
            line = self.function(h["a"], h["n"]) if h["o"] == 0 else todo[h["o"]].pop(0)
            out.append("@%d %s" % (h["th"], line))
        rest = [o for o in todo for _ in todo[o]]       # what shows the state at the end
        self.rng.shuffle(rest)
        th = sorted({h["th"] for h in hist})
        return out + ["@%d %s" % (self.rng.choice(th), todo[o].pop(0)) for o in rest]

    def function(self, f, n):
        r = self.rng
        x = b"same" * n if r.random() < 0.3 else self.bytes((0, 5, 16, 64)[n])
        if f == "pbkdf2":
            return "pbkdf2 %s %s %d %d %d" % (hx(x), hx(self.bytes(r.randrange(9))), (1, 1, 2, 3)[n], r.randrange(70), r.choice((0, 255, 1)))
        if f == "salsa20":
            return "salsa20 %s %d %d" % (hx(self.bytes(64 * r.randrange(3))), (0, 1, 4, 10)[n], r.choice((0, 255, 1)))
        q = (((1, 2, 1), (2, 2, 1), (1, 4, 1)), ((1, 2, 1), (1, 2, 2)), ((1, 3, 1), (0, 2, 1), (1, 1, 1)), ((1, 1 << 16, 1), (1 << 30, 2, 1), (1, 2, 0)))[n]
        return "scrypt %d %d %d %s %s %d %d 1" % (r.choice(q) + (hx(x), hx(self.bytes(r.randrange(9))), r.randrange(70), r.choice((0, 255, 1))))

    def ending(self, good):
        r = self.rng
        if good:
            n = r.choice((1, 2, 3, 8, 15, 16, r.randrange(1, 17)))
            return r.randbytes(16 - n) + bytes([n]) * n
        while True:
            k = r.randrange(4)
            if k == 0:
                b = r.randbytes(15) + bytes([r.choice((0, 17, 18, 32, 128, 255, r.randrange(17, 256)))])
            elif k == 1:
                n = r.randrange(2, 17)
                b = bytearray(r.randbytes(16 - n) + bytes([n]) * n)
                b[16 - n + r.randrange(n - 1)] ^= 1 << r.randrange(8)
                b = bytes(b)
            elif k == 2:
                b = bytes([r.choice((0, 255, 17))]) * 16
            else:
                b = r.randbytes(16)
            if not (1 <= b[15] <= 16 and b[-b[15]:] == bytes([b[15]]) * b[15]):
                return b

    def block_for(self, rk, prev, good):
        """ciphertext block that deciphers (after prev) to a block with such an ending"""
        return toyaes.encrypt(rk, bytes(a ^ b for a, b in zip(self.ending(good), prev)))
