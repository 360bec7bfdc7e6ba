"""What each property's check explores: models, executed histories, in two tiers."""
import toyaes
import tools
from plans import Maker, hx
from tools import Session

KEYS = (16, 24, 32)
DEV = [("seq", "dev")]
BOTH = [("seq", "dev"), ("seq", "release")]


class Plan:
    def __init__(self, run):
        self.run, self.thorough = run, run.tier == "thorough"
        self.m = Maker(run.rng)
        self.models, self.batches, self.generated, self.what = [], [], [], []

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def model(self, module, cfg=None, **kw):
        if cfg:
            kw["cfg"] = cfg
        self.models.append((module, kw))

    def batch(self, sessions, runs=None, what=None, **kw):
        self.batches.append(dict(sessions=sessions, runs=runs or DEV, **kw))
        if what:
            self.what.append("%s (%d histories)" % (what, len(sessions)))

    def histories(self, walks=None, depth=None, **cfg):
        """histories from spec/Gen.tla"""
        text = {"Kind": '"%s"' % cfg["Kind"], "BL": cfg["BL"], "Messages": cfg.get("Messages", 1)}
        for k in ("Pieces", "GoodKeys", "BadKeys"):
            text[k] = "{%s}" % ", ".join(str(x) for x in sorted(cfg.get(k, ())))
        hs, info = tools.generate(text, self.run.dir, walks, depth, self.run.seed)
        self.generated.append(info)
        return hs

    def interleavings(self, walks=None, depth=None, **cfg):
        """histories from spec/GenApi.tla"""
        text = {"MaxObjects": cfg["MaxObjects"]}
        for k in ("Threads", "Pieces", "GoodKeys", "BadKeys"):
            text[k] = "{%s}" % ", ".join(str(x) for x in sorted(cfg.get(k, ())))
        for k in ("Kinds", "Functions"):
            text[k] = "{%s}" % ", ".join('"%s"' % x for x in sorted(cfg.get(k, ())))
        hs, info = tools.generate(text, self.run.dir, walks, depth, self.run.seed, module="GenApi")
        self.generated.append(info)
        return hs

    def many(self, *ops, runs=None, memory=None):
        """ops: (name, how many calls, how many sessions, more); each session takes as many calls, judges a few
        itself and every one that an independent computation does not share"""
        s = []
        for op in ops:
            name, count, sessions = op[:3]
            if self.thorough:
                sessions *= 12
            for _ in range(sessions):
                s.append(self.m.session("many", [" ".join([name, str(count), str(self.run.rng.randrange(1, 1 << 40)), str(self.thorough and 40 or 16)] + list(op[3:]))]))
        self.batch(s, runs=runs or [("threads:8", "dev")], limit=400, memory=memory,
                   what="; ".join("%s: %d random calls" % (op[0], op[1] * op[2] * (12 if self.thorough else 1)) for op in ops) + ", a sample and every suspect judged")

    def sha(self, tag, datas):
        return [self.m.session(tag, self.m.sha(d)) for d in datas]


# ------------------------------------------------------------------ related inputs, one after another

def related(m, kind, big=False):
    """short whole computations on inputs that are nearly the same"""
    r = m.rng
    if kind == "sha":
        x = m.bytes(r.choice((3, 8, 55, 56, 63, 64, 65, 100, 128, 200)))
        fam = m.family(x) + [x + bytes(k) for k in (2, 3)] + [x[:k] for k in (0, 1, len(x) // 2)] + [x + x]
        t = [m.sha(d, None if r.random() < 0.5 else m.pieces(d, (1, 7, 16, 63, 64, 65))) for d in fam]
        t += [t[0][:-1], ["sha.new 1"], m.sha(x, [x[:1], x[1:]])]
    elif kind == "hmac":
        fam = m.pair_family(m.bytes(r.choice((1, 8, 20, 32, 63, 64, 65, 100))), m.bytes(r.choice((1, 8, 20, 63, 64, 65))))
        t = [m.hmac(k, [d] if r.random() < 0.5 else m.pieces(d, (1, 7, 64))) for k, d in fam]
        t += [t[0][:1], t[0][:2]]
    elif kind == "pbkdf2":
        a, b = m.bytes(r.choice((1, 4, 8, 16, 63, 64, 65, 70))), m.bytes(r.choice((1, 4, 8, 16, 31, 32, 60)))
        fam = m.pair_family(a, b)
        t = [[pbkdf(m, x, y, 1, 20, r.choice(PATTERNS))] for x, y in fam]
        t += [[pbkdf(m, a, b, c, n, 1)] for c, n in ((1, 0), (1, 1), (1, 32), (1, 33), (2, 20), (3, 20), (2, 32))]
    elif kind == "salsa":
        x = m.bytes(64, "random")
        fam = [y for y in m.family(x) if len(y) == 64] + [x + x, x + m.bytes(64), b""]
        t = [["salsa20 %s %d %d" % (hx(y), n, r.choice(PATTERNS))] for y in fam for n in (1, 4)] + [["salsa20 %s %d 1" % (hx(x), n)] for n in (0, 2, 3, 8)]
    elif kind == "scrypt":
        a, b = m.bytes(r.choice((1, 4, 8, 16, 64, 65))), m.bytes(r.choice((1, 4, 8, 16, 32)))
        fam = m.pair_family(a, b)
        t = [[scrypt(1, 2, 1, x, y, 20, 1)] for x, y in fam]
        t += [[scrypt(*q, a, b, n, 1)] for q, n in (((2, 2, 1), 20), ((1, 4, 1), 20), ((1, 2, 2), 20), ((2, 4, 2), 20), ((4, 2, 1), 20), ((1, 8, 1), 20), ((2, 2, 4), 20), ((4, 4, 1), 20), ((1, 2, 1), 0), ((1, 2, 1), 33))]
        t += [[scrypt(*q, a, b, 20, 1)] for q in ((0, 2, 1), (1, 0, 1), (1, 1, 1), (1, 3, 1), (1, 2, 0), (1, 1 << 16, 1), (1 << 30, 2, 1), (1, 2, 1 << 30), (1 << 32, 2, 1 << 32), (1, (1 << 32) + 2, 1))]
    elif kind == "aes":
        b = m.state()
        fam = [y for y in m.family(b) if len(y) == 16]
        t = [["aes.new 1", "aes.init 1 " + hx(k), "aes.%s 1 %s" % (r.choice(("enc", "dec")), hx(b if r.random() < 0.7 else r.choice(fam)))] for k in m.key_family()]
        k = m.bytes(r.choice(KEYS))
        t += [["aes.new 1", "aes.init 1 " + hx(k), "aes.%s 1 %s" % (d, hx(x))] for x in fam for d in ("enc", "dec")]
        t += [["aes.new 1", "aes.enc 1 " + hx(b)], ["aes.new 1", "aes.init 1 " + hx(k), "aes.init 1 " + hx(k[:15]), "aes.enc 1 " + hx(b)]]
    else:
        iv, k = m.bytes(16), m.bytes(r.choice(KEYS))
        ivs = [y for y in m.family(iv) if len(y) == 16]
        msg = m.bytes(r.choice((5, 16, 20, 32, 40)))
        cases = [(x, k, msg) for x in ivs] + [(iv, x, msg) for x in m.key_family(k + m.bytes(32 - len(k)))] + [(iv, k, x) for x in m.family(msg)]
        t = []
        for v, kk, d in r.sample(cases, min(len(cases), 60)):
            head = ["%s.new 1 %s" % (kind, hx(v)), "%s.init 1 %s" % (kind, hx(kk))]
            if kind == "decipher":
                d = cbc_message(m, kk, v, d)[0] if r.random() < 0.8 else d
            w = ["%s.write 1 %s" % (kind, hx(x)) for x in ([d] if r.random() < 0.5 else m.pieces(d, (1, 15, 16, 17)))]
            t.append(head + w + (["%s.flush 1" % kind] if r.random() < 0.8 else []))
        t += [t[0][:2], t[0][:1] + ["%s.flush 1" % kind], [t[0][0], t[0][1]]]
    return t if len(t) <= 90 or big else r.sample(t, 90)


def mesh(p, kinds, n=1, runs=None):
    s = [p.m.mesh("mesh", related(p.m, k)) for k in kinds for _ in range(n * p.pick(1, 12))]
    p.batch(s, runs=runs or DEV, what="%s: computations on inputs that are nearly the same, each directly after each other and itself" % ", ".join(kinds))


# ------------------------------------------------------------------ hashes

def c01(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Arith")
    p.model("MC_Lengths")
    p.model("SpecKat")
    p.model("MC_HashStream")
    # every length over several blocks, twice with different contents; the lengths next to a block
    # boundary also with contents that look like padding
    top = p.pick(330, 1100)
    s = p.sha("len", [m.bytes(n) for n in range(top)])
    for n in range(top):
        if n % 64 in (0, 1, 54, 55, 56, 57, 62, 63):
            s += p.sha("edge", [m.bytes(n, k) for k in ("zero", "ff", "80")])
    p.batch(s, what="every length below %d, boundary lengths with zero/ff/80 contents" % top)
    # one-block messages: each is a different compression input
    p.batch(p.sha("byte", [bytes([b]) for b in range(256)])
            + p.sha("one", [m.bytes(r.randrange(33, 56)) for _ in range(p.pick(700, 8000))])
            + p.sha("two", [m.bytes(r.randrange(56, 128)) for _ in range(p.pick(400, 5000))])
            + p.sha("words", [m.bytes(r.choice((52, 55, 60, 64, 120)), "words") for _ in range(p.pick(150, 2000))])
            + p.sha("long", [m.bytes(r.randrange(256, 4000)) for _ in range(p.pick(40, 600))])
            # a single set bit, at every position of a block
            + p.sha("bit", [(1 << k).to_bytes(64, "big") for k in range(0, 512, p.pick(3, 1))]),
            what="all one-byte messages, single-bit blocks, random messages of one block and more")
    # lengths where the bit count or byte count needs another byte or word
    mid = [(1 << 8, 0), (1 << 10, 0), (1 << 10, 63), (1 << 16, 0), (1 << 16, 55), ((1 << 18) - 1, 63), (1 << 18, 0)]
    s = [m.session("mid", ["sha.bulk %d %d %d %d 0 1 %s" % (b, q, r.randrange(1, 1 << 30), r.choice((1021, 4096, 65536)), hx(m.bytes(70)))])
         for b, q in mid]
    big = [(1 << 23, 0, 1), ((1 << 26) + 1, 5, 0)]         # 2^29 bytes; just over 2^32 bytes
    if p.thorough:
        big += [((1 << 23) - 1, 63, 1), (1 << 23, 17, 1), (1 << 24, 0, 1), ((1 << 25) + 3, 61, 1), (1 << 25, 0, 0),
                (1 << 26, 0, 0), ((1 << 27) + 9, 9, 1)]
    for b, q, pat in big:
        # 2^32 bytes in one call; zeros, so that the message needs no memory until it is read
        s.append(m.session("big", ["sha.bulk %d %d %d %d %d 1 %s" % (b, q, pat * 77, 1 << 16, 1 if pat == 0 and (p.thorough or b < (1 << 27)) else 0, hx(m.bytes(70)))]))
    p.batch(s, runs=[("threads:3", "dev")], what="messages up to 2^32 bytes and beyond, by inductive observation", limit=600)
    p.many(("sha.many", 150000, 8))
    mesh(p, ("sha",))
    return p


def c02(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("MC_HashStream")
    pieces = set(range(0, 67)) | {126, 127, 128, 129, 191, 192, 193}
    hs = p.histories(Kind="sha", BL=64, Pieces=pieces, Messages=1)
    p.batch([m.session("gen", m.from_hash("sha", h)) for h in hs],
            what="every transition (fill of the block) x (piece length) of the quotient machine")
    hs = p.histories(walks=p.pick(150, 3000), depth=12, Kind="sha", BL=64, Pieces=pieces | {255, 256, 257, 320}, Messages=1)
    p.batch([m.session("walk", m.from_hash("sha", h)) for h in hs], what="random walks of 12 calls")
    lens = p.pick([0, 1, 2, 55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 191, 192, 200, 256, 300, 640, 1000],
                  list(range(0, 400)) + [511, 512, 513, 640, 700, 1000, 1024, 2049, 4096])
    p.batch([m.session("class", ["sha.class %s %d" % (hx(m.bytes(n)), r.randrange(1 << 30))]) for n in lens],
            what="all two-piece cuts and about fifty others, one outcome per message")
    # pieces of many blocks at odd places, against the same bytes in one call
    s = []
    for _ in range(p.pick(6, 40)):
        blk, rest = r.randrange(200, 3000), r.randrange(64)
        s.append(m.session("bulk", ["sha.bulk %d %d %d %d 0 1 %s" % (blk, rest, r.randrange(1, 1 << 30), r.randrange(1, 3000), hx(m.bytes(r.randrange(200))))]))
    for chunk, blk in ((1, 1100), (2, 2100), (3, 3200), (70000, 20000), (1 << 17, 20000)):
        s.append(m.session("bulk", ["sha.bulk %d %d %d %d 0 1 %s" % (blk, r.randrange(64), r.randrange(1, 1 << 30), chunk, hx(m.bytes(5)))]))
    for k in p.pick((20, 22, 24, 25, 26), range(18, 29)):         # one piece of that many bytes, give or take
        for d in (0, r.choice((-64, -1, 1, 63, 64, 65))):
            chunk = (1 << k) + d
            s.append(m.session("bulk", ["sha.bulk %d %d %d %d 0 1 %s" % (chunk // 64 + r.randrange(3000), r.randrange(64), r.randrange(1, 1 << 30), chunk, hx(m.bytes(5)))]))
    s.append(m.session("bulk", ["sha.bulk %d %d 0 4096 1 1 61" % ((1 << 26) + 1, 3)]))
    p.batch(s, runs=[("threads:6", "dev")], limit=400, what="long messages in odd pieces, one to 2^26 bytes each, and one of more than 2^32 bytes")
    p.many(("sha.many", 150000, 8))
    mesh(p, ("sha",))
    return p


def c03(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("SpecKat")
    p.model("MC_HashStream")
    top = p.pick(200, 600)
    klens = list(range(top)) + [255, 256, 257, 511, 512, 1000, 4095, 4096, 4097]
    s = []
    for n in klens:
        s.append(m.session("key", m.hmac(m.bytes(n), [m.bytes(r.randrange(80))])))
    for n in range(54, 76):
        for kind in ("zero", "ff", "36", "5c"):
            k = bytes([int(kind, 16)]) * n if kind in ("36", "5c") else m.bytes(n, kind)
            s.append(m.session("key", m.hmac(k, [m.bytes(r.randrange(140))])))
    s += [m.session("key", m.hmac(m.bytes(n), [m.bytes(9)])) for n in p.pick((65536,), (65535, 65536, 65537, 70000))]
    p.batch(s, what="key lengths 0..%d and powers of two" % top)
    # keys that are equal after zero padding, keys that start alike, key against message roles
    s = []
    for _ in range(p.pick(20, 200)):
        k, msg = m.bytes(r.randrange(1, 63)), m.bytes(r.randrange(100))
        for kk in (k, k + b"\0", k[:-1], k + bytes(64 - len(k)), k + bytes(65 - len(k))):
            s.append(m.session("pad", m.hmac(kk, [msg])))
    for _ in range(p.pick(8, 100)):
        x = m.bytes(r.choice((1, 20, 32, 63, 64, 65, 66, 130)), "random")
        s.append(m.session("fam", [l for k in m.family(x) + [x] for l in m.hmac(k, [b"same"])]))
    p.batch(s, what="keys related by zero padding, prefixes, single bits")
    s = [m.session("msg", m.hmac(m.bytes(r.choice((0, 20, 64, 65, 131))), [m.bytes(n)])) for n in range(p.pick(150, 500))]
    p.batch(s, what="message lengths")
    pieces = set(range(0, 130, 1 if p.thorough else 7)) | {0, 1, 63, 64, 65, 127, 128, 129}
    hs = p.histories(Kind="hmac", BL=64, Pieces=pieces, Messages=1)
    p.batch([m.session("gen", m.from_hash("hmac", h)) for h in hs], what="every transition fill x piece of the inner hash")
    hs = p.histories(walks=p.pick(60, 1500), depth=9, Kind="hmac", BL=64, Pieces=pieces, Messages=1)
    p.batch([m.session("walk", m.from_hash("hmac", h)) for h in hs], what="random walks of 9 calls")
    s = []
    for kl in (0, 1, 63, 64, 65, 128, 200):
        for n in p.pick([0, 55, 64, 130, 333], list(range(0, 200, 3)) + [333, 512, 700]):
            s.append(m.session("class", ["hmac.class %s %s %d" % (hx(m.bytes(kl)), hx(m.bytes(n)), r.randrange(1 << 30))]))
    p.batch(s, what="partitions of the message, one outcome each")
    s = [m.session("bulk", ["hmac.bulk %s %d %d" % (hx(m.bytes(kl)), n, r.randrange(1, 1 << 30))])
         for kl, n in [(40, 100000), (100, 65536), (64, 1 << 22)] + ([(7, (1 << 29) - 64), (80, (1 << 33) + 55)] if p.thorough else [(7, (1 << 32) + 33)])]
    p.batch(s, runs=[("threads:4", "dev")], what="long messages, the inner hash by an independent computation", limit=600)
    long_args(p, ("hmac.key",), p.pick([1000, 5000, 1 << 15, 1 << 16, 1 << 16, (1 << 16) + 64, 1 << 17, 1 << 20, 1 << 24, 1 << 26, 1 << 32],
                                       [n << k for k in range(8, 28) for n in (1, 3)] + [1 << 31, 1 << 32, 3 << 31]), p.pick(600, 2000))
    p.many(("hmac.many", 120000, 8))
    mesh(p, ("hmac",), 2)
    return p


def stream(p, kinds, quick, seconds):
    """one message of 2^quick blocks (thorough: 2^28) and a few through one object"""
    m, r = p.m, p.run.rng
    n = p.pick(quick, 28)
    s = [m.session("stream", ["stream %s %s %s %d %d %d %d %d" % (k, hx(m.bytes(r.choice(KEYS))), hx(m.bytes(16)), (1 << n) + 5, r.randrange(16), r.randrange(1, 1 << 30), 1 << 20, p.pick(seconds, 1200))])
         for k in kinds]
    p.batch(s, runs=[("threads:2", "dev")], limit=p.pick(400, 2000), what="one message of 2^%d blocks (as far as the time goes) and one after it" % n)


def long_args(p, whats, sizes, limit=600, **kw):
    """keys, passwords, salts of n bytes"""
    m, r = p.m, p.run.rng
    s = []
    for what in whats:
        for n in sizes:
            n += r.randrange(1, 64)
            scr, c = what.startswith("scrypt"), r.choice((1, 2, 3)) if n < 1 << 24 else 1
            rr, nn, pp = r.choice(((1, 2, 1), (1, 4, 2), (2, 2, 1))) if scr and n < 1 << 24 else (1, 2, 1)
            length = 32 if what == "hmac.key" or n > 1 << 24 else r.randrange(1, 80)
            s.append(m.session("long", ["long %s %d %d %s %d %d %d %d %d" % (what, n, r.randrange(1, 1 << 30), hx(m.bytes(r.randrange(100))), length, c, rr, nn, pp)]))
    p.batch(s, runs=[("threads:4", "dev")], limit=limit, what="%s of %d bytes and more, by an independent computation of the hash state after them" % (", ".join(whats), max(sizes)), **kw)


def vast(p, params):
    """scrypt with large r and p"""
    m, r = p.m, p.run.rng
    s = [m.session("vast", ["scrypt.vast %d %d %d %s %s %d %d" % (rr, n, pp, hx(m.bytes(r.randrange(70))), hx(m.bytes(r.randrange(70))), r.choice((32, 32, 20, 31)), r.randrange(1 << 30))]) for rr, n, pp in params]
    p.batch(s, runs=[("threads:4", "dev")], limit=600, what="r and p to 65537 and more (thorough 2^20), by an independent computation of which sampled pieces and the end are the specification's")


def pbkdf(m, pw, salt, c, n, pat):
    return "pbkdf2 %s %s %d %d %d" % (hx(pw), hx(salt), c, n, pat)


PATTERNS = (0, 255, 165, 1)


# counts whose lower halves, quarters or signs are small
HUGE = (1 << 31, (1 << 31) + 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 33) + 5, 3 << 32, (1 << 40) + 1, (1 << 48) + 1, 1 << 62, 1 << 63, (1 << 63) + 1, (1 << 64) - 1)


def c04(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Arith")
    p.model("SpecKat")
    p.model("MC_Pbkdf2")
    s = []
    for c, top in p.pick([(1, 260), (2, 100), (3, 66)], [(1, 700), (2, 500), (3, 300), (7, 200), (20, 100)]):
        s.append(m.session("prefix", ["pbkdf2.prefix %s %s %d %d" % (hx(m.bytes(r.randrange(1, 40))), hx(m.bytes(r.randrange(1, 40))), c, top)]))
    for n in list(range(0, 100, p.pick(3, 1))) + [31, 32, 33, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 191, 192, 193, 256, 257]:
        s.append(m.session("len", [pbkdf(m, m.bytes(r.randrange(70)), m.bytes(r.randrange(70)), r.choice((1, 1, 2, 3)), n, r.choice(PATTERNS))]))
    for n in (1, 20, 32, 40, 64, 70):
        for pat in PATTERNS:
            s.append(m.session("dirty", [pbkdf(m, m.bytes(8), m.bytes(8), 2, n, pat)]))
    p.batch(s, what="output lengths, every length a prefix of the longest; buffers with earlier contents")
    s = []
    for n in list(range(0, 130, p.pick(5, 1))) + [55, 56, 63, 64, 65, 119, 120, 127, 128, 129, 256, 1000]:
        s.append(m.session("pw", [pbkdf(m, m.bytes(n), m.bytes(r.randrange(20)), 2, r.randrange(1, 65), 1)]))
        s.append(m.session("salt", [pbkdf(m, m.bytes(r.randrange(20)), m.bytes(n), 2, r.randrange(1, 65), 1)]))
    s.append(m.session("pw", [pbkdf(m, m.bytes(65600), m.bytes(5), 2, 33, 1)]))
    s.append(m.session("salt", [pbkdf(m, m.bytes(5), m.bytes(65600), 2, 33, 1)]))
    for _ in range(p.pick(6, 60)):
        pw, salt = m.bytes(r.choice((1, 8, 63, 64, 65, 70))), m.bytes(r.choice((1, 8, 60, 61)))
        for order in (0, 1):
            s.append(m.session("fam", [pbkdf(m, x, salt, 2, 40, 1) for x in m.family(pw)] + [pbkdf(m, pw, x, 2, 40, 1) for x in m.family(salt)]
                               + [pbkdf(m, pw, salt, c, 40, 1) for c in (1, 2, 3)] + [pbkdf(m, salt, pw, 2, 40, 1), pbkdf(m, pw + salt[:1], salt[1:], 2, 40, 1), pbkdf(m, pw, salt, 2, 40, 1)]))
    for k in ("zero", "ff", "80", "text"):
        s.append(m.session("pw", [pbkdf(m, m.bytes(64, k), m.bytes(60, k), 2, 64, 0)]))
    p.batch(s, what="password and salt lengths")
    s = [m.session("c", [pbkdf(m, m.bytes(9), m.bytes(9), c, r.choice((20, 32, 33)), r.choice(PATTERNS))])
         for c in list(range(1, p.pick(24, 70))) + p.pick([100, 128, 255, 256, 257], [100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025])]
    at = [2, 3, 127, 128, 255, 256, 257, 1000, 4095, 4096, 10000]
    if p.thorough:
        at += [32767, 32768, 65535, 65536, 65537, 100000, (1 << 20) - 1]
    for c, n in [(127, 70), (999, 100), (1 << 14, 40), (32768, 33), (65535, 33), (65536, 20), (65537, 64), (100000, 32), (1 << 17, 32), (1 << 20, 31), ((1 << 20) + 1, 40), ((1 << 22) + 3, 32), ((1 << 24) + 1, 20)] \
            + ([((1 << 24) - 1, 20), ((1 << 25) + 1, 70), ((1 << 26) + 1, 32)] if p.thorough else []):
        s.append(m.session("high", ["pbkdf2.witness %s %s %d %d" % (hx(m.bytes(r.randrange(1, 80))), hx(m.bytes(r.randrange(40))), c, n)]))
    for c in at:
        s.append(m.session("step", ["pbkdf2.steps %s %s %d" % (hx(m.bytes(r.randrange(1, 80))), hx(m.bytes(r.randrange(40))), c)]))
    p.batch(s, runs=[("threads:8", "dev")], what="iteration counts, directly, as steps c-1, c, c+1, and to 2^22 (thorough 2^26) by an independent computation whose first and sampled steps are the specification's", limit=600)
    s = [m.session("blk", ["pbkdf2.blocks %s %s 1 %d 1,2,3,127,128,129,255,256,257,258" % (hx(m.bytes(10)), hx(m.bytes(10)), 258 * 32 - 5)]),
         m.session("blk", ["pbkdf2.blocks %s %s 2 %d 1,255,256,257,32767,32768,65534,65535,65536,65537,65538,65792" % (hx(m.bytes(10)), hx(m.bytes(61)), 65792 * 32 - 31)])]
    n = 1 << 24
    s.append(m.session("blk", ["pbkdf2.blocks %s %s 1 %d 1,256,65536,%s" % (hx(m.bytes(3)), hx(b""), (n + 258) * 32 - 1, ",".join(str(n + k) for k in (-1, 0, 1, 2, 255, 256, 257, 258)))]))
    p.batch(s, runs=[("threads:3", "dev")], what="block indices of one to four bytes, suspects among all 2^24 + 258 blocks", limit=800)
    s = [m.session("huge", ["pbkdf2.huge %s %s %d %d 1500" % (hx(m.bytes(9)), hx(m.bytes(9)), c, r.choice((20, 32)))]) for c in HUGE]
    p.batch(s, runs=[("threads:6", "dev"), ("threads:6", "release")], what="iteration counts of 2^31 and more do not end early")
    long_args(p, ("pbkdf2.pw", "pbkdf2.salt"), p.pick([1000, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 32],
                                                      [n << k for k in range(8, 26) for n in (1, 3)] + [1 << 31, 1 << 32]), p.pick(600, 2000))
    p.many(("pbkdf2.many", 40000, 8))
    mesh(p, ("pbkdf2",), 2)
    return p


def c05(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Arith")
    p.model("SpecKat")
    s = []

    def call(d, n, pat):
        return "salsa20 %s %d %d" % (hx(d), n, pat)
    for n in p.pick(list(range(0, 14)) + [16, 20, 31, 32, 63, 64, 100, 128, 255, 256, 257],
                    list(range(0, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000]):
        for _ in range(3):
            s.append(m.session("rounds", [call(m.bytes(64), n, r.choice(PATTERNS))]))
    for n in (0, 1, 4, 10):
        for k in ("zero", "ff", "80", "ramp", "head0", "tail0", "low"):
            s.append(m.session("pattern", [call(m.bytes(64, k), n, r.choice(PATTERNS))]))
    for k in range(16):     # carries and rotations word by word
        for w in (b"\xff\xff\xff\xff", b"\x00\x00\x00\x80", b"\x01\x00\x00\x00"):
            d = bytearray(64)
            d[4 * k:4 * k + 4] = w
            s.append(m.session("word", [call(bytes(d), r.choice((1, 2, 4)), 0)]))
    for _ in range(p.pick(500, 8000)):
        s.append(m.session("random", [call(m.bytes(64), r.choice((0, 1, 2, 3, 4, 4, 4, 5, 6, 8, 10)), r.choice(PATTERNS))]))
    s += [m.session("random", [call(m.bytes(64, "words"), r.choice((0, 1, 2, 3, 4, 10)), r.choice(PATTERNS))]) for _ in range(p.pick(150, 2000))]
    for blocks in list(range(0, 10)) + [15, 16, 17, 33, 100, 255, 256, 257]:
        for n in (0, 1, 4):
            s.append(m.session("blocks", [call(m.bytes(64 * blocks), n, r.choice(PATTERNS))]))
    b = m.bytes(64)     # equal blocks, equal outputs; a block's output does not depend on its neighbours
    s.append(m.session("blocks", [call(b * 5, 4, 1), call(b, 4, 0), call(m.bytes(64) + b + m.bytes(64), 4, 1)]))
    p.batch(s, what="blocks x round counts x earlier buffer contents; inputs of several blocks")
    at = [0, 1, 2, 127, 128, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537, 1000000, (1 << 24) - 1, 1 << 24]
    s = [m.session("step", ["salsa.steps %s %s" % (hx(m.bytes(64)), ",".join(map(str, at)))]) for _ in range(p.pick(3, 12))]
    p.batch(s, runs=[("threads:8", "dev")], what="high round counts as single steps of the round function", limit=800)
    s = [m.session("bulk", ["salsa.bulk %d %d %d 12" % (r.randrange(1 << 30), b, n)]) for b, n in ((65540, 1), (1000, 0), (300, 4), (70001, 4))]
    p.batch(s, runs=[("threads:4", "dev")], what="inputs of up to 70001 blocks, each as the block alone")
    s = [m.session("bulk", ["salsa.bulk %d %d %d 12" % (r.randrange(1 << 30), b + r.randrange(1, 50), n)]) for b, n in ((1 << 20, 1), (1 << 24, 2), (1 << 26, 1))]
    p.batch(s, runs=[("seq", "dev")], what="an input of 2^26 blocks and more, beyond 2^32 bytes", limit=800)
    at = p.pick([(1 << 32) - 1], [(1 << 31) - 1, (1 << 31), (1 << 32) - 1, 1 << 32])
    s = [m.session("step", ["salsa.steps %s %d" % (hx(m.bytes(64)), n)]) for n in at]
    p.batch(s, runs=[("threads:4", "dev")], what="round counts around 2^32", limit=1500)
    s = [m.session("huge", ["salsa.huge %s %d 700" % (hx(m.bytes(64)), n)]) for n in HUGE]
    p.batch(s, runs=[("threads:6", "dev"), ("threads:6", "release")], what="round counts of 2^31 and more do not end early")
    p.many(("salsa.many", 150000, 8))
    mesh(p, ("salsa",), 2)
    return p


# ------------------------------------------------------------------ scrypt

def scrypt(r, n, p, pw, salt, length, pat, checked=1):
    return "scrypt %d %d %d %s %s %d %d %d" % (r, n, p, hx(pw), hx(salt), length, pat, checked)


LENS = (0, 1, 8, 16, 31, 32, 33, 63, 64, 65, 100, 128, 200)


def c06(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Arith")
    p.model("MC_Bounds")
    p.model("SpecKat")
    p.model("MC_Scrypt")
    s = []

    def one(rr, n, pp):
        return scrypt(rr, n, pp, m.bytes(r.randrange(70)), m.bytes(r.randrange(70)), r.choice(LENS), r.choice(PATTERNS))
    params = []
    for rr in (1, 2, 3, 4, 5, 7, 8, 9, 16, 17):
        for n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024):
            for pp in (1, 2, 3, 4, 5, 8):
                cost = 4 * rr * n * pp
                if cost <= p.pick(280, 9000):
                    params.append((rr, n, pp))
    for q in params:
        s.append(m.session("param", [one(*q)]))
    s += [m.session("param", [one(*q)]) for q in ((1, 128, 1), (1, 256, 1), (2, 128, 1), (1, 2, 33), (33, 2, 1), (8, 16, 1), (1, 512, 1), (40, 2, 1), (1, 2, 64))]
    for n in LENS + tuple(range(2, 70, 9)):
        for pat in (0, 1):
            s.append(m.session("len", [scrypt(1, 4, 1, m.bytes(5), m.bytes(5), n, pat)]))
    for n in (0, 1, 55, 56, 63, 64, 65, 128, 200):
        s.append(m.session("pw", [scrypt(2, 2, 2, m.bytes(n), m.bytes(9), 40, 1)]))
        s.append(m.session("salt", [scrypt(2, 2, 2, m.bytes(9), m.bytes(n), 40, 1)]))
    s.append(m.session("long", [scrypt(1, 2, 1, m.bytes(9), m.bytes(9), 3000, 1), scrypt(1, 2, 1, m.bytes(9), m.bytes(20000), 32, 1), scrypt(1, 2, 1, m.bytes(20000), m.bytes(9), 32, 1)]))
    for _ in range(p.pick(4, 40)):
        pw, salt = m.bytes(r.choice((1, 8, 64, 65))), m.bytes(r.choice((1, 8, 60)))
        s.append(m.session("fam", [scrypt(1, 2, 1, x, salt, 40, 1) for x in m.family(pw)] + [scrypt(1, 2, 1, pw, x, 40, 1) for x in m.family(salt)]
                           + [scrypt(*q, pw, salt, 40, 1) for q in ((1, 2, 1), (2, 2, 1), (1, 4, 1), (1, 2, 2), (1, 2, 1))]))
    for _ in range(p.pick(6, 60)):        # one object, several derivations: same, different, same again
        rr, n, pp = r.choice(((1, 4, 1), (1, 8, 2), (2, 4, 1), (3, 2, 2)))
        a = [(m.bytes(r.randrange(20)), m.bytes(r.randrange(20))) for _ in range(2)]
        s.append(m.session("again", [scrypt(rr, n, pp, *a[k], r.choice(LENS), r.choice(PATTERNS)) for k in (0, 0, 1, 0)]))
    p.batch(s, runs=[("threads:8", "dev")], what="parameter sets evaluated in full: r to 40, N to 512, p to 64; lengths; repeated use of one object")
    big = [(1, 2, 300), (300, 2, 1), (129, 2, 1), (257, 2, 1), (1, 4, 257), (17, 8, 9), (1, 1 << 10, 2), (1, 1 << 15, 1), (8, 1 << 10, 3), (8, 1 << 14, 1), (2, 1 << 16, 1), (2, 1 << 17, 1), (8, 1024, 16), (3, 1 << 12, 5), (2, 1 << 20, 1), (3, 1 << 18, 1)]
    if p.thorough:
        big += [(4, 1 << 16, 2), (8, 1 << 16, 1), (16, 1 << 14, 2), (2, 1 << 21, 1), (8, 1 << 18, 1), (1, 2, 1000), (520, 4, 1), (2, 2, 513), (100, 64, 2), (3, 1 << 15, 3), (1024, 16, 1)]
    s = [m.session("witness", ["scrypt.witness %d %d %d %s %s %d %d %d" % (rr, n, pp, hx(m.bytes(r.randrange(70))), hx(m.bytes(r.randrange(70))),
                                                                        r.choice((32, 64, 50)), max(2, p.pick(24, 60) // rr), r.randrange(1 << 30))])
         for rr, n, pp in big]
    vast(p, p.pick([(1, 2, 65537 + r.randrange(3000)), (65537 + r.randrange(3000), 2, 1), (513, 4, 3), (2, 8, 513), (1025, 2, 2), (16, 16, 300), (257, 8, 257), (3, 4, 5000)],
                   [(1, 2, (1 << 20) + 3), ((1 << 20) + 3, 2, 1), (1 << 16, 4, 2), (2, 4, 1 << 16), (300, 16, 300), (5, 2, 70001), (70001, 4, 3), (1, 8, 200000), (4097, 64, 9), (255, 256, 33)]
                   + [(r.randrange(1, 3000), 2 << r.randrange(4), r.randrange(1, 300)) for _ in range(20)]))
    p.batch(s, runs=[("threads:4", "dev")], what="N up to 2^20 (thorough 2^21), by an independent computation whose ends and sampled steps are the specification's", limit=800)
    long_args(p, ("scrypt.pw", "scrypt.salt"), p.pick([1000, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24], [n << k for k in range(8, 25) for n in (1, 3)] + [1 << 31, 1 << 32]), p.pick(600, 2000))
    if p.thorough:                        # the fourth byte of the index; the crate keeps about 15 GB
        p.batch([m.session("vast N", ["scrypt.witness 2 %d 1 %s %s 64 8 %d" % (1 << 25, hx(m.bytes(12)), hx(m.bytes(9)), r.randrange(1 << 30))])],
                runs=[("seq", "dev")], what="N = 2^25, witnessed", limit=2000)
    p.many(("scrypt.many", 8000, 8))
    mesh(p, ("scrypt",))
    return p


def c07(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Bounds")
    p.model("MC_Scrypt")
    M = (1 << 64) - 1
    lim = (1 << 30) - 1            # r p at most this
    rej, acc = [], []

    def call(rr, n, pp, checked=1, length=None):
        return scrypt(rr, n, pp, m.bytes(r.randrange(9)), m.bytes(r.randrange(9)), r.choice((0, 1, 32, 40)) if length is None else length, r.choice(PATTERNS), checked)
    # a bound in one parameter while the others are in range
    ns_bad = [0, 1, 3, 5, 6, 7, 9, 10, 12, 15, 17, 24, 48, 63, 65, 96, 127, 129, 255, 257, 1000, 1023, 1025, 65535, 65537, (1 << 31) - 1, (1 << 31) + 1,
              (1 << 32) - 1, (1 << 32) + 1, (1 << 32) + (1 << 31), (1 << 63) + 1, (1 << 63) - 1, M - 1, M, 3 << 32, (1 << 63) + (1 << 62)]
    for n in ns_bad:
        for rr, pp in ((1, 1), (2, 3), (8, 1)):
            rej.append(call(rr, n, pp))
    for rr in (1, 2, 3):           # N >= 2^(16 r)
        for k in sorted({16 * rr, 16 * rr + 1, 16 * rr + 8, 31, 32, 33, 47, 48, 62, 63}):
            if k >= 16 * rr:
                rej.append(call(rr, 1 << k, 1))
                rej.append(call(rr, 1 << k, 4))
    for n in (2, 16, 1 << 15):
        for rr in (1, 2, 3, 4, 8, 1000, 65536, 1 << 20, 1 << 29, (1 << 30) - 1):
            if n < (1 << 16 * min(rr, 4)):
                for pp in (lim // rr + 1, lim // rr + 2, 2 * lim, 1 << 30, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 62, 1 << 63, M):
                    if pp > lim // rr:
                        rej.append(call(rr, n, pp))
        for rr in (1 << 30, (1 << 30) + 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 57, 1 << 60, 1 << 62, 1 << 63, M):
            for pp in (1, 2, M):
                rej.append(call(rr, n, pp))
        for pp in (1, 2, M):
            rej.append(call(0, n, pp))
        for rr in (1, 2, 8, 1 << 29, M):
            rej.append(call(rr, n, 0))
    # several at once
    pool_r = [0, 1, 2, 3, 4, 8, lim, lim + 1, 1 << 32, 1 << 57, 1 << 63, M]
    pool_n = [0, 1, 2, 3, 16, 255, 1 << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63, M]
    pool_p = [0, 1, 2, lim, lim + 1, 1 << 31, 1 << 32, 1 << 63, M]

    def ok(rr, n, pp):
        return rr >= 1 and n >= 2 and n & (n - 1) == 0 and n < (1 << (16 * min(rr, 4))) and 1 <= pp <= lim // rr
    for rr in pool_r:
        for n in pool_n:
            for pp in pool_p:
                if not ok(rr, n, pp):
                    rej.append(call(rr, n, pp))
    for _ in range(p.pick(1500, 20000)):
        def some():
            k = r.randrange(4)
            return r.randrange(20) if k == 0 else (1 << r.randrange(64)) if k == 1 else r.getrandbits(r.randrange(1, 65)) if k == 2 else min(M, (1 << r.randrange(65)) - 1 + r.randrange(3))
        q = (some(), some(), some())
        if not ok(*q):
            rej.append(call(*q))
    r.shuffle(rej)
    s = [m.session("reject", rej[i:i + 12]) for i in range(0, len(rej), 12)]
    # a derivation still works after the object or another one refused
    for i in range(12):
        s.append(m.session("after", [call(1, 4, 1), call(0, 4, 1), call(1, 4, 1), call(1, 6, 1), call(1, 4, 2)]))
    p.batch(s, what="%d parameter sets out of range: each bound alone, all combinations of edge values, random 64-bit values" % len(rej), limit=60, memory=8 << 30)
    # accepted: small ones are evaluated, large ones only observed to succeed
    for rr in range(1, 10):
        for n in (2, 4, 8):
            for pp in (1, 2, 3):
                if rr * n * pp <= 30:
                    acc.append(call(rr, n, pp))
    s = [m.session("accept", acc[i:i + 3]) for i in range(0, len(acc), 3)]
    big = [(1, 1 << 15, 1), (1, 1 << 14, 2), (2, 1 << 16, 1), (2, 1 << 17, 1), (3, 1 << 16, 1), (4, 1 << 16, 1), (8, 1 << 15, 1),
           (1, 2, 5000), (700, 2, 1), (5000, 2, 2), (256, 2, 256), (1, 2, 65536), (65536, 2, 1), (70000, 2, 1), (1, 2, 70000)]
    if p.thorough:
        big += [(2, 1 << 18, 1), (2, 1 << 19, 1), (1 << 20, 2, 1), (1, 2, 1 << 20), (4, 1 << 18, 1)]
    s += [m.session("large", [call(*q, checked=0, length=64)]) for q in big]
    p.batch(s, runs=[("threads:4", "dev")], what="accepted parameter sets, to the edge of each bound that memory allows", limit=400)
    big = [(3, 1 << 32, 1), (3, 1 << 47, 1), (4, 1 << 32, 1), (4, 1 << 33, 2), (4, 1 << 48, 1), (4, 1 << 62, 1), (4, 1 << 63, 1), (8, 1 << 63, 1), (2, 1 << 31, 1), (2, 1 << 30, 4),
           (3, 1 << 31, 3), (1000, 1 << 40, 5), (1, 2, (1 << 30) - 1), (2, 1 << 16, (1 << 29) - 1), ((1 << 30) - 1, 2, 1), ((1 << 30) - 1, 1 << 63, 1), (1 << 29, 16, 1), (1 << 15, 2, (1 << 15) - 1)]
    s = [m.session("huge", ["scrypt.huge %d %d %d 1000" % q]) for q in big]
    p.batch(s, runs=[("threads:6", "dev")], what="accepted parameter sets beyond what memory allows are not refused", memory=4 << 30)
    p.many(("scrypt.refuse", 500000, 8), ("scrypt.many", 2000, 8), memory=12 << 30)
    mesh(p, ("scrypt",))
    return p


# ------------------------------------------------------------------ AES

def aes_session(m, key, blocks):
    lines = [m.new("aes", 1), "aes.init 1 " + hx(key)]
    for b in blocks:
        lines += ["aes.enc 1 " + hx(b), "aes.dec 1 " + hx(b)]
    return lines


def special_keys(m, n):
    return [m.bytes(n, k) for k in ("zero", "ff", "80", "ramp", "head0", "tail0", "low", "text", "one")]


def c08(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("SpecKat")
    s = []
    for n in KEYS:
        for _ in range(p.pick(400, 4000)):
            s.append(m.session("random", aes_session(m, m.bytes(n), [m.bytes(16) for _ in range(3)])))
        for k in special_keys(m, n):
            s.append(m.session("special", aes_session(m, k, [m.bytes(16, q) for q in ("zero", "ff", "80", "ramp", "low", "random")])))
        # every byte value at every position goes through the S-box somewhere
        key = m.bytes(n)
        for base in range(0, 256, p.pick(4, 1)):
            s.append(m.session("sbox", aes_session(m, key, [bytes((base + 16 * j + k * 17) & 255 for j in range(16)) for k in range(p.pick(1, 4))])))
        for bit in range(0, 128, p.pick(5, 1)):
            s.append(m.session("bit", aes_session(m, key, [(1 << bit).to_bytes(16, "big")])))
        for bit in range(0, 8 * n, p.pick(7, 1)):
            s.append(m.session("keybit", aes_session(m, (1 << bit).to_bytes(n, "big"), [bytes(16)])))
    p.batch(s, what="keys of each size, random and structured, several blocks each, encrypted and decrypted")
    s = []                       # blocks whose encryption passes through chosen states
    for n in KEYS:
        for _ in range(p.pick(200, 1500)):
            key = m.bytes(n)
            rk = toyaes.schedule(key)
            lines = [m.new("aes", 1), "aes.init 1 " + hx(key)]
            for _ in range(p.pick(16, 40)):
                a, b = toyaes.through(rk, r.choice(("sub", "mix", "key")), r.randrange(1, len(rk) - 1), m.state())
                lines += ["aes.enc 1 " + hx(a), "aes.dec 1 " + hx(b)]
            s.append(m.session("through", lines))
    s += [m.session("rekey", ["aes.rekey %d %d 20" % (p.pick(20000, 100000), r.randrange(1 << 30))]) for _ in range(p.pick(2, 8))]
    p.batch(s, runs=[("threads:8", "dev")], what="blocks that pass through chosen intermediate states in chosen rounds")
    p.many(("aes.many", 40000, 16))
    mesh(p, ("aes",), 2)
    return p


def c09(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("SpecKat")
    s = []
    for n in KEYS:
        keys = [m.bytes(n, "random") for _ in range(p.pick(60, 1500))] + special_keys(m, n)
        for k in keys:
            s.append(m.session("law", ["aes.law %s %d %d" % (hx(k), p.pick(20000, 60000), r.randrange(1 << 30))]))
        for _ in range(p.pick(25, 300)):       # the same, evaluated: results of results
            key, b = m.bytes(n), m.bytes(16)
            rk = toyaes.schedule(key)
            e = toyaes.encrypt(rk, b)
            lines = aes_session(m, key, [b, e, b]) + ["aes.enc 1 " + hx(b), "aes.dec 1 " + hx(e), "aes.dec 1 " + hx(e), "aes.enc 1 " + hx(b)]
            s.append(m.session("chain", lines))
        # results do not depend on which blocks went before
        key, bs = m.bytes(n), [m.bytes(16) for _ in range(6)]
        s.append(m.session("order", aes_session(m, key, bs) + aes_session(m, key, list(reversed(bs)))[2:]))
        # one object's calls between another's
        a, b = m.bytes(n), m.bytes(n)
        s.append(m.session("two", [m.new("aes", 1), m.new("aes", 2), "aes.init 1 " + hx(a), "aes.init 2 " + hx(b)]
                           + ["aes.%s %d %s" % (r.choice(("enc", "dec")), r.choice((1, 2)), hx(r.choice(bs))) for _ in range(20)]))
    s += [m.session("rekey", ["aes.rekey %d %d 20" % (p.pick(20000, 100000), r.randrange(1 << 30))]) for _ in range(p.pick(2, 8))]
    p.batch(s, runs=[("threads:8", "dev")], what="D(E(b)) = b, E(D(b)) = b and repeated calls, %d blocks per key, with evaluated chains" % p.pick(20000, 60000))
    s = [m.session("shared", ["aes.shared %s %d %d 60000" % (hx(m.bytes(k)), r.randrange(1 << 30), n)]) for k in KEYS for n in (2, 8)]
    p.batch(s, runs=[("seq", "dev"), ("seq", "release")], what="one object used by 2 and 8 threads at the same time")
    p.many(("aes.many", 40000, 8))
    mesh(p, ("aes",), 2)
    return p


def c10(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Keys")
    p.model("MC_Decipher")
    bad = sorted(set(range(0, p.pick(70, 140))) - set(KEYS)) + [128, 192, 255, 256, 257, 272, 280, 288, 512, 4112, 65552]
    s = []
    for h in p.histories(Kind="aes", BL=16, GoodKeys=KEYS, BadKeys=bad, Messages=1):
        s.append(m.session("aes", m.from_aes(h)))
    p.batch(s, what="AES: each key size (bad sizes 0..%d and multiples of 256 plus good ones) in each state" % bad[-12])
    few = [0, 1, 15, 17, 31, 33, 48, 64] if not p.thorough else [0, 1, 8, 15, 17, 20, 23, 25, 31, 33, 48, 64, 128]
    s = []
    for kind in ("cipher", "decipher"):
        hs = p.histories(Kind=kind, BL=16, Pieces=(0, 1, 16, 31), GoodKeys=KEYS, BadKeys=few, Messages=1)
        hs = [h for h in hs if h[-1]["a"] == "init" or p.thorough or r.random() < 0.4]
        cap = p.pick(900, 100000)
        r.shuffle(hs)
        s += [m.session(kind, getattr(m, "from_" + kind)(h)) for h in hs[:cap]]
    p.batch(s, what="Cipher and Decipher: key changes, refused keys and missing keys at each fill")
    s = []
    for kind in ("cipher", "decipher"):
        for n in bad:
            lines = ["%s.new 1 %s" % (kind, hx(m.bytes(16))), "%s.init 1 %s" % (kind, hx(m.bytes(n))), "%s.write 1 %s" % (kind, hx(m.bytes(20)))]
            s.append(m.session("bad", lines))
            lines = ["%s.new 1 %s" % (kind, hx(m.bytes(16))), "%s.init 1 %s" % (kind, hx(m.bytes(r.choice(KEYS)))), "%s.init 1 %s" % (kind, hx(m.bytes(n))),
                     "%s.write 1 %s" % (kind, hx(m.bytes(40))), "%s.flush 1" % kind]
            s.append(m.session("bad", lines))
    for a in KEYS:                # every sequence of three accepted keys
        for b in KEYS:
            for c in KEYS:
                s.append(m.session("rekey", m.from_aes([{"a": "init", "n": a}, {"a": "block", "n": 1}, {"a": "init", "n": b}, {"a": "block", "n": 0},
                                                        {"a": "init", "n": 17}, {"a": "init", "n": c}, {"a": "block", "n": 1}])))
                for kind in ("cipher", "decipher"):
                    for cut in (0, 7):
                        h = []
                        for k in (a, b, c):
                            h += [{"a": "init", "n": k, "g": 0}, {"a": "feed", "n": 32 + cut, "g": 1}] + ([{"a": "flush", "n": 0, "g": 0}] if r.random() < 0.5 else [])
                        s.append(m.session("rekey", getattr(m, "from_" + kind)(h)))
    for kind in ("aes", "cipher", "decipher"):
        for _ in range(p.pick(60, 1200)):
            hs = []
            for _ in range(10):
                k = r.randrange(4)
                if k == 0:
                    hs.append({"a": "init", "n": r.choice(KEYS + (0, 1, 15, 17, 33)), "g": 0})
                elif kind == "aes":
                    hs.append({"a": "block", "n": r.randrange(2), "g": 0})
                elif k == 3:
                    hs.append({"a": "flush", "n": 0, "g": 0})
                else:
                    hs.append({"a": "feed", "n": r.randrange(40), "g": r.randrange(2)})
            s.append(m.session("mix", getattr(m, "from_" + kind)(hs)))
    for kind in ("aes", "cipher", "decipher"):        # keys that begin or end alike, one after the other
        for _ in range(p.pick(8, 120)):
            lines = [m.new("aes", 1)] if kind == "aes" else ["%s.new 1 %s" % (kind, hx(m.bytes(16)))]
            b = m.bytes(16)
            for k in m.key_family():
                if r.random() < 0.2:
                    lines.append("%s.init 1 %s" % (kind, hx(k[:-1])))
                lines.append("%s.init 1 %s" % (kind, hx(k)))
                lines += ["aes.enc 1 " + hx(b), "aes.dec 1 " + hx(b)] if kind == "aes" else ["%s.write 1 %s" % (kind, hx(m.bytes(r.choice((16, 17, 33)))))]
            s.append(m.session("alike", lines))
    s += [m.session("bulk", ["aes.rekey %d %d 60" % (p.pick(70000, 300000), r.randrange(1 << 30))]) for _ in range(p.pick(2, 8))]
    p.batch(s, what="refused sizes, re-keying between and inside messages, random mixtures")
    p.many(("cipher.many", 60000, 4, "wild"), ("decipher.many", 60000, 4, "wild"))
    mesh(p, ("aes",), 2)
    return p


# ------------------------------------------------------------------ CBC

def keyed(kind, m, n=None):
    n = n or m.rng.choice(KEYS)
    return ["%s.new 1 %s" % (kind, hx(m.bytes(16))), "%s.init 1 %s" % (kind, hx(m.bytes(n)))]


def with_key(hs, r):
    """give keyless generated histories a key at the start (any size)"""
    return [[{"a": "init", "n": r.choice(KEYS), "g": 0}] + h if h[0]["a"] != "init" else h for h in hs]


def cbc_message(m, key, iv, pt):
    """(ciphertext of padded pt, next iv)"""
    c = toyaes.cbc(key, iv, toyaes.pad(pt))
    return c, c[-16:]


def c11(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("SpecKat")
    p.model("MC_Channel")
    pieces = set(range(0, 35)) | {47, 48, 49, 63, 64, 65, 80}
    hs = p.histories(Kind="cipher", BL=16, Pieces=pieces, GoodKeys={16}, Messages=p.pick(1, 2))
    hs = [h for h in hs if any(x["a"] == "init" for x in h)]
    for h in hs:                    # the quotient forgets which key size
        for x in h:
            if x["a"] == "init":
                x["n"] = r.choice(KEYS)
    p.batch([m.session("gen", m.from_cipher(h)) for h in hs], what="every transition fill x piece of the keyed Cipher")
    hs = p.histories(walks=p.pick(100, 2500), depth=14, Kind="cipher", BL=16, Pieces=pieces, GoodKeys=set(KEYS), Messages=3)
    p.batch([m.session("walk", m.from_cipher(with_key(hs, r)[k])) for k in range(len(hs))], what="random walks of 14 calls")
    s = []
    for n in p.pick(list(range(0, 70)) + [79, 80, 81, 127, 128, 129, 255, 256, 257, 300], list(range(0, 300)) + [511, 512, 513, 700, 1000, 1024]):
        iv = m.bytes(16)
        s.append(m.session("class", ["cipher.class %s %s %s %d" % (hx(m.bytes(r.choice(KEYS))), hx(iv), hx(m.bytes(n)), r.randrange(1 << 30))]))
    for k in ("zero", "ff", "one"):
        for n in (0, 16, 32, 47):
            s.append(m.session("class", ["cipher.class %s %s %s 1" % (hx(m.bytes(16, k)), hx(m.bytes(16, k)), hx(m.bytes(n, k)))]))
    # a message that ends like padding still gets its own
    for n in range(1, 17):
        s.append(m.session("padlike", keyed("cipher", m) + ["cipher.write 1 " + hx(m.bytes(32 - n) + bytes([n]) * n), "cipher.flush 1"]))
    p.batch(s, what="partitions of a message, one outcome each; messages ending like padding")
    s = [m.session("bulk", ["cipher.bulk %s %s %d %d %d %d" % (hx(m.bytes(k)), hx(m.bytes(16)), n, r.randrange(1 << 30), p.pick(30, 200), top)])
         for k, n, top in [(16, 65536, 100), (24, 100003, 1000), (32, 300000, 5000), (16, (1 << 20) + 1, 270000), (32, 4096 * 16, 3)]
         + ([(24, 1 << 24, 1 << 20), (16, (1 << 24) + 5, 33), (32, 1 << 26, 1 << 22)] if p.thorough else [])]
    # pieces of more than a million bytes, whole messages in one call
    s += [m.session("bulk", ["cipher.bulk %s %s %d %d 8 %d" % (hx(m.bytes(k)), hx(m.bytes(16)), n, r.randrange(1 << 30), 1 << 40)])
          for k, n in [(16, 4097), (24, 65537), (32, (1 << 21) + 7), (16, (1 << 22))]]
    s += [m.session("bulk", ["cipher.bulk %s %s %d %d 4 %d" % (hx(m.bytes(r.choice(KEYS))), hx(m.bytes(16)), r.randrange(3 << j, 5 << j), r.randrange(1 << 30), 2 << j)])
          for j in p.pick((10, 13, 15, 16, 16, 17, 18, 20, 21), list(range(9, 25)) * 3)]
    p.batch(s, runs=[("threads:4", "dev")], what="long messages, sampled and suspect blocks")
    stream(p, ("cipher",), 26, 200)
    p.many(("cipher.many", 100000, 8))
    mesh(p, ("cipher",), 2)
    return p


def mend(h, r):
    for x in h:
        if x["a"] == "init":
            x["n"] = r.choice(KEYS)
    return h


def c12(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("SpecKat")
    p.model("MC_Channel")
    p.model("MC_Decipher", p.pick("MC_Decipher.cfg", "MC_Decipher_deep.cfg"))
    pieces = set(range(0, 35)) | {47, 48, 49, 64, 65}
    hs = p.histories(Kind="decipher", BL=16, Pieces=pieces if p.thorough else {0, 1, 2, 7, 8, 14, 15, 16, 17, 18, 24, 31, 32, 33, 48}, GoodKeys={16}, Messages=1)
    hs = [mend(h, r) for h in hs if any(x["a"] == "init" for x in h)]
    r.shuffle(hs)
    p.batch([m.session("gen", m.from_decipher(h)) for h in hs[:p.pick(2500, 20000)]], what="transitions fill x held x piece of the keyed Decipher")
    s = []
    for n in p.pick(list(range(0, 70)) + [79, 80, 81, 96, 128, 255, 256, 300], list(range(0, 300)) + [512, 700, 1000, 1024]):
        key, iv, pt = m.bytes(r.choice(KEYS)), m.bytes(16), m.bytes(n)
        c, _ = cbc_message(m, key, iv, pt)
        s.append(m.session("class", ["decipher.class %s %s %s %d" % (hx(key), hx(iv), hx(c), r.randrange(1 << 30))]))
    for n in range(1, 17):      # cleartext that itself ends like padding
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        for pt in (m.bytes(32 - n) + bytes([n]) * n, m.bytes(16) + bytes([n]) * 16):
            c, _ = cbc_message(m, key, iv, pt)
            s.append(m.session("padlike", ["decipher.new 1 " + hx(iv), "decipher.init 1 " + hx(key)]
                               + ["decipher.write 1 " + hx(x) for x in m.pieces(c, (1, 15, 16, 17, 32))] + ["decipher.flush 1"]))
    p.batch(s, what="valid ciphertext in many partitions, one outcome each")
    s = []
    for _ in range(p.pick(150, 2500)):        # Cipher and Decipher side by side, the Cipher's own output passed on
        key, iv, pt = m.bytes(r.choice(KEYS)), m.bytes(16), m.bytes(r.randrange(0, 150))
        c, _ = cbc_message(m, key, iv, pt)
        lines = ["cipher.new 1 " + hx(iv), "cipher.init 1 " + hx(key), "decipher.new 2 " + hx(iv), "decipher.init 2 " + hx(key)]
        lines += ["cipher.write 1 " + hx(x) for x in m.pieces(pt, (0, 1, 5, 15, 16, 17, 33, 64))] + ["cipher.flush 1"]
        lines += ["decipher.write 2 " + hx(x) for x in m.pieces(c, (0, 1, 5, 15, 16, 17, 33, 64))] + ["decipher.flush 2"]
        s.append(m.session("pair", lines))
    p.batch(s, what="Cipher to Decipher, both cut at random")
    s = [m.session("bulk", ["cipher.bulk %s %s %d %d 10 %d" % (hx(m.bytes(k)), hx(m.bytes(16)), n, r.randrange(1 << 30), top)])
         for k, n, top in [(16, 65535, 100), (24, 100003, 1000), (32, 300000, 5000), (16, (1 << 20), 17), (24, (1 << 20) + 3, 270000), (32, 4096 * 16, 3)]
         + ([(24, 1 << 24, 1 << 20), (16, (1 << 24) + 5, 33)] if p.thorough else [])]
    s += [m.session("bulk", ["cipher.bulk %s %s %d %d 8 %d" % (hx(m.bytes(k)), hx(m.bytes(16)), n, r.randrange(1 << 30), 1 << 40)])
          for k, n in [(16, 4097), (24, 65537), (32, (1 << 21) + 7), (16, (1 << 22))]]
    s += [m.session("bulk", ["cipher.bulk %s %s %d %d 4 %d" % (hx(m.bytes(r.choice(KEYS))), hx(m.bytes(16)), r.randrange(3 << j, 5 << j), r.randrange(1 << 30), 2 << j)])
          for j in p.pick((10, 13, 15, 16, 16, 17, 18, 20, 21), list(range(9, 25)) * 3)]
    p.batch(s, runs=[("threads:4", "dev")], what="long round trips")
    stream(p, ("decipher",), 26, 200)
    p.many(("decipher.many", 100000, 8))
    mesh(p, ("decipher",), 2)
    return p


def decipher_lines(key, iv, writes, flushes=1, o=1):
    lines = ["decipher.new %d %s" % (o, hx(iv)), "decipher.init %d %s" % (o, hx(key))]
    return lines + ["decipher.write %d %s" % (o, hx(w)) for w in writes] + ["decipher.flush %d" % o] * flushes


def c13(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Decipher", p.pick("MC_Decipher.cfg", "MC_Decipher_deep.cfg"))
    hs = p.histories(Kind="decipher", BL=16, Pieces={0, 1, 2, 8, 14, 15, 16, 17, 31, 32, 33, 48}, GoodKeys={16}, Messages=2)
    hs = [mend(h, r) for h in hs if any(x["a"] == "init" for x in h)]
    last = [h for h in hs if h[-1]["a"] == "flush"]
    rest = [h for h in hs if h[-1]["a"] != "flush"]
    r.shuffle(rest)
    p.batch([m.session("gen", m.from_decipher(h)) for h in last + rest[:p.pick(1300, 20000)]], what="transitions of the keyed Decipher, all that flush among them")
    s = []

    def final(pt_blocks, cut=0, flushes=2, more=True):
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        rk = toyaes.schedule(key)
        c = toyaes.cbc(key, iv, pt_blocks)
        if cut:
            c = c[:-cut]
        writes = m.pieces(c, r.choice(((16,), (1, 5, 16), (15, 17), (200,))))
        lines = decipher_lines(key, iv, writes, flushes)
        if more:           # after an error: more ciphertext that ends well; after success: the next message
            prev = c[len(c) - len(c) % 16 - 16:len(c) - len(c) % 16] if len(c) >= 16 else iv
            fill = len(c) % 16
            if fill == 0:
                lines += ["decipher.write 1 " + hx(m.block_for(rk, prev, 1)), "decipher.flush 1", "decipher.flush 1"]
            else:
                lines += ["decipher.write 1 " + hx(m.bytes(16 - fill)), "decipher.flush 1", "decipher.write 1 -", "decipher.flush 1"]
        return m.session("pad", lines)
    # every last byte; well-formed padding of every size with each of its bytes spoiled
    for v in range(256):
        for blocks in p.pick((1,), (1, 2, 4)):
            s.append(final(m.bytes(16 * blocks - 16) + r.randbytes(15) + bytes([v])))
            s.append(final(m.bytes(16 * blocks - 16) + bytes([v]) * 16))
    for n in range(1, 17):
        good = r.randbytes(16 - n) + bytes([n]) * n
        s.append(final(m.bytes(16) + good))
        s.append(final(good))
        for k in range(16):
            for d in p.pick((1, r.choice((2, 4, 8, 16, 32, 64, 128))), [1 << b for b in range(8)] + [255]):
                b = bytearray(good)
                b[k] ^= d
                s.append(final(m.bytes(16 * r.randrange(3)) + bytes(b)))
        # two or three bytes spoiled so that differences cancel
        for _ in range(p.pick(6, 60)):
            if n < 3:
                break
            b = bytearray(good)
            i, j = r.sample(range(16 - n, 15), 2)
            d = r.randrange(1, 256)
            k = r.randrange(3)
            if k == 0:
                b[i] ^= d
                b[j] ^= d
            elif k == 1:
                b[i] = (b[i] + d) & 255
                b[j] = (b[j] - d) & 255
            elif n > 3:
                l = r.choice([x for x in range(16 - n, 15) if x not in (i, j)])
                e = r.randrange(1, 256)
                b[i] ^= d
                b[j] ^= e
                b[l] ^= d ^ e
            s.append(final(m.bytes(16 * r.randrange(2)) + bytes(b)))
        # the count right, one byte short: n - 1 equal bytes
        if n > 1:
            s.append(final(r.randbytes(16 - n) + bytes([n ^ 1]) + bytes([n]) * (n - 1)))
    # truncated streams, all lengths, with endings that would be valid
    for n in range(0, 80):
        blocks = n // 16 + 1
        s.append(final(m.bytes(16 * blocks - 1 - 0, "random") + b"\1", cut=16 * blocks - n))
        s.append(final(m.bytes(16 * blocks, "one"), cut=16 * blocks - n))
    for n in range(1, 16):         # a whole valid message, then a few bytes of another block
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        c, _ = cbc_message(m, key, iv, m.bytes(r.randrange(40)))
        s.append(m.session("trail", decipher_lines(key, iv, m.pieces(c + m.bytes(n), (1, 16, 17, 64)), 3) + ["decipher.write 1 " + hx(m.bytes(16 - n)), "decipher.flush 1"]))
        s.append(m.session("trail", decipher_lines(key, iv, [c], 1) + ["decipher.write 1 " + hx(m.bytes(n)), "decipher.flush 1", "decipher.flush 1"]))
    for flushes in (1, 2, 3):      # nothing received
        s.append(m.session("empty", decipher_lines(m.bytes(16), m.bytes(16), [], flushes)))
        s.append(m.session("empty", ["decipher.new 1 " + hx(m.bytes(16))] + ["decipher.flush 1"] * flushes))
    p.batch(s, what="every last byte value, every padding size with every byte spoiled, truncations to every length, repeated flush, more data after an error")
    s = []
    for k in range(p.pick(20, 300)):      # wrong key or IV, spoiled ciphertext: many partitions, one outcome
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        c, _ = cbc_message(m, key, iv, m.bytes(r.randrange(60)))
        c = bytearray(c)
        c[r.randrange(len(c))] ^= 1 << r.randrange(8)
        if k % 2:
            c = c[:r.randrange(len(c) + 1)]
        s.append(m.session("class", ["decipher.class %s %s %s %d" % (hx(key), hx(iv), hx(bytes(c)), r.randrange(1 << 30))]))
    p.batch(s, what="spoiled or cut ciphertext in many partitions, one outcome each")
    p.many(("decipher.many", 100000, 6), ("decipher.many", 60000, 2, "wild"))
    mesh(p, ("cipher", "decipher"))
    return p


def c14(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("MC_Channel")
    s = []
    for _ in range(p.pick(220, 4000)):
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        msgs = [m.bytes(r.choice((0, 0, 1, 15, 16, 17, 31, 32, 33, r.randrange(80)))) for _ in range(r.randrange(2, 7))]
        a = ["cipher.new 1 " + hx(iv), "cipher.init 1 " + hx(key)]
        b = ["decipher.new 2 " + hx(iv), "decipher.init 2 " + hx(key)]
        v = iv
        rekey = r.random() < 0.2
        for k, pt in enumerate(msgs):
            if rekey and k:
                key = m.bytes(r.choice(KEYS))
                a.append("cipher.init 1 " + hx(key))
                b.append("decipher.init 2 " + hx(key))
            c, nv = cbc_message(m, key, v, pt)
            a += ["cipher.write 1 " + hx(x) for x in m.pieces(pt, (0, 1, 5, 15, 16, 17, 33, 64))] + ["cipher.flush 1"]
            b += ["decipher.write 2 " + hx(x) for x in m.pieces(c, (0, 1, 5, 15, 16, 17, 33, 64))] + ["decipher.flush 2"]
            if r.random() < 0.15:        # flushing at once again: an empty message, an unfinished one
                a.append("cipher.flush 1")
                b.append("decipher.flush 2")
                c, nv = cbc_message(m, key, nv, b"")
                b += ["decipher.write 2 " + hx(c), "decipher.flush 2"]
            v = nv
        s.append(m.session("chain", a + b))
        # the same messages, each with a fresh Cipher and the chained IV
    p.batch(s, what="chains of messages, empty ones among them, through one Cipher and one Decipher")
    s = []
    for n in range(0, 34):           # first message's length x second message's length
        for k in p.pick((0, 1, 15, 16, 17, 32), range(0, 34)):
            key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
            x, y = m.bytes(n), m.bytes(k)
            c1, v = cbc_message(m, key, iv, x)
            c2, v = cbc_message(m, key, v, y)
            s.append(m.session("two", ["cipher.new 1 " + hx(iv), "cipher.init 1 " + hx(key), "cipher.write 1 " + hx(x), "cipher.flush 1", "cipher.write 1 " + hx(y), "cipher.flush 1"]
                               + decipher_lines(key, iv, [c1], 1, 2) + ["decipher.write 2 " + hx(c2), "decipher.flush 2", "decipher.flush 2"]))
    p.batch(s, what="pairs of message lengths")
    s = []
    for _ in range(p.pick(40, 500)):      # an error in between: the message goes on, then ends well, then the next
        key, iv = m.bytes(r.choice(KEYS)), m.bytes(16)
        rk = toyaes.schedule(key)
        lines, prev = decipher_lines(key, iv, [], 0), iv
        for _ in range(r.randrange(2, 6)):
            for _ in range(r.randrange(0, 3)):
                b = m.block_for(rk, prev, 0)
                prev = b
                cut = r.randrange(17)
                lines += ["decipher.write 1 " + hx(b[:cut]), "decipher.flush 1", "decipher.write 1 " + hx(b[cut:]), "decipher.flush 1"]
            b = m.block_for(rk, prev, 1)
            prev = b
            lines += ["decipher.write 1 " + hx(b), "decipher.flush 1"]
        s.append(m.session("mended", lines))
    s += [m.session("bulk", ["chain.bulk %s %s %d %d 30" % (hx(m.bytes(k)), hx(m.bytes(16)), p.pick(70000, 200000), r.randrange(1 << 30))]) for k in KEYS]
    s += [m.session("bulk", ["chain.bulk %s %s %d %d 30 %d" % (hx(m.bytes(k)), hx(m.bytes(16)), p.pick(n, 6 * n), r.randrange(1 << 30), top)]) for k in KEYS for n, top in ((3000, 600), (400, 70000), (16, 3 << 20))]
    stream(p, ("cipher", "decipher"), 25, 200)
    p.batch(s, runs=[("threads:4", "dev")], what="failed flushes inside messages; 70000 messages, and some to 3 MiB, through one Cipher and Decipher")
    pieces = {0, 1, 2, 8, 15, 16, 17, 31, 32, 33}
    hs = p.histories(walks=p.pick(80, 2000), depth=20, Kind="cipher", BL=16, Pieces=pieces, GoodKeys=set(KEYS), Messages=9)
    s = [m.session("walk", m.from_cipher(h)) for h in with_key(hs, r)]
    hs = p.histories(walks=p.pick(80, 2000), depth=20, Kind="decipher", BL=16, Pieces=pieces, GoodKeys=set(KEYS), Messages=9)
    s += [m.session("walk", m.from_decipher(h)) for h in with_key(hs, r)]
    hs = p.histories(Kind="decipher", BL=16, Pieces={0, 1, 15, 16, 17, 32}, GoodKeys={16}, Messages=p.pick(2, 4))
    hs = [mend(h, r) for h in hs if any(x["a"] == "init" for x in h) and sum(x["a"] == "flush" for x in h) >= 1]
    r.shuffle(hs)
    s += [m.session("gen", m.from_decipher(h)) for h in hs[:p.pick(500, 10000)]]
    hs = p.histories(Kind="cipher", BL=16, Pieces={0, 1, 8, 15, 16, 17, 32}, GoodKeys={16}, Messages=p.pick(2, 4))
    hs = [mend(h, r) for h in hs if any(x["a"] == "init" for x in h) and sum(x["a"] == "flush" for x in h) >= 1]
    s += [m.session("gen", m.from_cipher(h)) for h in hs]
    p.batch(s, what="transitions and walks past message boundaries")
    p.many(("cipher.many", 100000, 4), ("decipher.many", 100000, 4))
    mesh(p, ("cipher", "decipher"))
    return p


# ------------------------------------------------------------------ everything together

def mixture(m, r, objects, calls, wild=False):
    """Interleaved calls on several objects of all kinds, and stand-alone functions."""
    kinds = ["sha", "hmac", "aes", "cipher", "decipher"]
    lines, objs = [], {}
    keys = [m.bytes(r.choice(KEYS)) for _ in range(2)]
    shared = m.bytes(r.randrange(1, 40))           # equal inputs to different objects
    for _ in range(calls):
        k = r.random()
        live = [o for o in objs if wild or not objs[o]["done"]]
        if (k < 0.25 and len(objs) < objects) or not live:
            o = max(objs, default=0) + 1
            kind = r.choice(kinds)
            objs[o] = {"kind": kind, "done": False, "key": False, "fill": 0}
            arg = {"sha": " default" if r.random() < 0.5 else "", "aes": " default" if r.random() < 0.5 else "", "hmac": " " + hx(m.bytes(r.randrange(80)))}.get(kind, " " + hx(m.bytes(16)))
            lines.append("%s.new %d%s" % (kind, o, arg))
            continue
        if k < 0.33:
            f = r.randrange(3)
            if f == 0:
                lines.append(pbkdf(m, shared if r.random() < 0.5 else m.bytes(5), m.bytes(r.randrange(9)), r.randrange(1, 4), r.randrange(70), r.choice(PATTERNS)))
            elif f == 1:
                lines.append("salsa20 %s %d %d" % (hx(m.bytes(64 * r.randrange(3))), r.randrange(6), r.choice(PATTERNS)))
            else:
                q = r.choice(((1, 2, 1), (1, 4, 2), (2, 2, 1), (0, 2, 1), (1, 3, 1), (1, 1, 1), (1, 2, 0), (1, 1 << 16, 1)))
                lines.append(scrypt(*q, shared, m.bytes(r.randrange(9)), r.randrange(40), r.choice(PATTERNS)))
            continue
        o = r.choice(live)
        ob = objs[o]
        kind = ob["kind"]
        data = shared if r.random() < 0.2 else m.bytes(r.choice((0, 1, 16, 55, 56, 63, 64, 65, r.randrange(130))))
        if kind in ("sha", "hmac"):
            if r.random() < 0.3:
                lines.append("%s.digest %d" % (kind, o))
                ob["done"] = True
            else:
                lines.append("%s.update %d %s" % (kind, o, hx(data)))
        elif not ob["key"] and not (wild and r.random() < 0.3):
            lines.append("%s.init %d %s" % (kind, o, hx(r.choice(keys) if r.random() < 0.8 else m.bytes(r.randrange(40)))))
            ob["key"] = True
        elif r.random() < 0.1:
            lines.append("%s.init %d %s" % (kind, o, hx(r.choice(keys) if r.random() < 0.5 else m.bytes(r.randrange(40)))))
        elif kind == "aes":
            lines.append("aes.%s %d %s" % (r.choice(("enc", "dec")), o, hx(m.bytes(16))))
        elif r.random() < 0.3:
            lines.append("%s.flush %d" % (kind, o))
        else:
            lines.append("%s.write %d %s" % (kind, o, hx(data[:70])))
    for o, ob in objs.items():                  # what is in there now
        kind = ob["kind"]
        if kind in ("sha", "hmac"):
            if wild or not ob["done"]:
                lines.append("%s.digest %d" % (kind, o))
        elif kind == "aes":
            lines += ["aes.enc %d %s" % (o, hx(m.bytes(16)))]
        else:
            lines += ["%s.flush %d" % (kind, o)]
    return lines


def copies(sessions, n):
    """the same sessions again, so that equal calls run at the same time"""
    out = list(sessions)
    for k in range(2, n + 1):
        out += [Session("%s~%d" % (s.sid, k), s.lines) for s in sessions]
    return out


def twice(lines):
    """A, and A again with other object numbers, calls alternating"""
    def up(l):
        w = l.split(" ")
        if w[0] in ("pbkdf2", "salsa20", "scrypt"):
            return l
        w[1] = str(int(w[1]) + 100)
        return " ".join(w)
    return [x for l in lines for x in (l, up(l))]


def first_calls(p, groups, runs):
    """groups of eight short histories, each group in a process of its own whose first calls they are, made at the same moment"""
    m, r = p.m, p.run.rng
    def one(kind):
        key, d = m.bytes(r.choice(KEYS)), m.bytes(r.choice((9, 16, 40, 64)))
        return {"sha": lambda: m.sha(d), "hmac": lambda: m.hmac(key, [d]),
                "pbkdf2": lambda: [pbkdf(m, key, d, r.randrange(1, 3), 33, 1)] * 3, "scrypt": lambda: [scrypt(1, 2, r.choice((1, 2)), key, d, 33, 1)] * 3,
                "refuse": lambda: [scrypt(*r.choice(((0, 2, 1), (1, 3, 1), (1, 2, 0), (1, 1 << 16, 1))), key, d, 33, 1)] * 3,
                "salsa20": lambda: ["salsa20 %s %d 1" % (hx(m.bytes(64)), r.randrange(1, 5)) for _ in range(3)],
                "enc": lambda: ["aes.new 1", "aes.init 1 " + hx(key)] + ["aes.enc 1 " + hx(m.bytes(16))] * 2,
                "dec": lambda: ["aes.new 1", "aes.init 1 " + hx(key)] + ["aes.dec 1 " + hx(m.bytes(16))] * 2,
                "cipher": lambda: ["cipher.new 1 " + hx(m.bytes(16)), "cipher.init 1 " + hx(key), "cipher.write 1 " + hx(m.bytes(40)), "cipher.flush 1"],
                "decipher": lambda: ["decipher.new 1 " + hx(m.bytes(16)), "decipher.init 1 " + hx(key), "decipher.write 1 " + hx(m.bytes(48)), "decipher.flush 1"],
                }[kind]()
    kinds = ("sha", "hmac", "pbkdf2", "scrypt", "refuse", "salsa20", "enc", "dec", "cipher", "decipher")
    s = []
    for g in range(groups):
        k = r.randrange(4)
        a, b = kinds[g % len(kinds)], r.choice(kinds)
        for i in range(8):
            s.append(m.session("first", one(b if (k == 0 and i % 2) or (k == 1 and i == 7) else a)))
    p.batch(s, runs=runs, what="the first calls of a process, made by eight threads at the same moment (%d processes)" % groups)


def c15(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Api")
    first_calls(p, p.pick(300, 5000), [("fresh:8", "dev"), ("fresh:8", "release")])
    s = []
    for _ in range(p.pick(60, 900)):
        s.append(m.session("mix", mixture(m, r, r.choice((2, 3, 5, 8)), r.choice((20, 40, 60)))))
    for _ in range(p.pick(20, 300)):
        s.append(m.session("twin", twice(mixture(m, r, 3, 15))))
    both = copies(s, 4)
    r.shuffle(both)
    p.batch(both, runs=[("seq", "dev"), ("rev", "dev"), ("threads:8", "dev"), ("threads:8", "release"), ("threads:16", "dev")],
            what="interleaved objects of every kind; each history four times in each of five runs (in order, in reverse, on 8 and 16 threads), one record expected")
    ALL, FUN = ("sha", "hmac", "aes", "cipher", "decipher"), ("pbkdf2", "salsa20", "scrypt")
    relay = [("seq", "dev"), ("relay:4", "dev"), ("relay:4", "release"), ("threads:8", "dev")]
    s = []
    for pieces in ((24, 32), (40, 64)):
        hs = p.interleavings(Kinds=ALL, MaxObjects=2, Threads=(1, 2), Pieces=pieces, GoodKeys=(16,))
        r.shuffle(hs)
        for h in hs[:p.pick(1000, 12000)]:
            for x in h:
                if x["a"] == "init":
                    x["n"] = r.choice(KEYS)
            s.append(m.session("api", m.from_api(h)))
    p.batch(s, runs=relay, what="transitions of the product of two objects' machines, each call by the thread of the one before or by another")
    hs = p.interleavings(walks=p.pick(200, 4000), depth=40, Kinds=ALL, Functions=FUN, MaxObjects=5, Threads=(1, 2, 3),
                         Pieces=(0, 1, 8, 15, 16, 17, 33, 55, 56, 64, 65, 100), GoodKeys=KEYS, BadKeys=(0, 17))
    p.batch(copies([m.session("api", m.from_api(h)) for h in hs], 2), runs=relay,
            what="walks of 40 calls on five objects and the stand-alone functions, handed between three threads")
    s = [m.session("shared", ["aes.shared %s %d %d 60000" % (hx(m.bytes(k)), r.randrange(1 << 30), n)]) for k in KEYS for n in (2, 8)]
    s += [m.session("shared", ["scrypt.shared %d %d %d %d 8 %d" % (q + (r.randrange(1 << 30), p.pick(300, 3000)))]) for q in ((1, 4, 1), (2, 4, 2), (1, 16, 1))]
    p.batch(s, runs=[("seq", "dev"), ("seq", "release")], what="one AES and one Scrypt used by several threads at the same time")
    many = [("sha.many", 20000), ("hmac.many", 15000), ("pbkdf2.many", 8000), ("salsa.many", 20000), ("scrypt.many", 800), ("scrypt.refuse", 50000),
            ("aes.many", 4000), ("cipher.many", 10000), ("decipher.many", 10000)]
    p.many(*[q + (5,) for q in many], runs=[("threads:16", "dev"), ("threads:16", "release")])
    # pairs of stand-alone calls: equal inputs again after different ones, one object used again and again
    s = []
    for _ in range(p.pick(15, 200)):
        a = [pbkdf(m, m.bytes(5), m.bytes(5), r.randrange(1, 3), r.randrange(1, 70), pat) for pat in (0, 255)]
        b = [scrypt(r.choice((1, 2)), 4, r.choice((1, 2)), m.bytes(5), m.bytes(5), r.randrange(1, 70), 255) for _ in range(2)]
        c = ["salsa20 %s %d 1" % (hx(m.bytes(64)), r.randrange(5)) for _ in range(2)]
        calls = a + b + c
        order = calls + calls
        r.shuffle(order)
        s.append(m.session("pure", order))
    p.batch(copies(s, 4), runs=[("seq", "dev"), ("rev", "dev"), ("threads:8", "dev")], what="stand-alone functions repeated in other orders and at the same time")
    s = []
    for _ in range(p.pick(4, 60)):        # inputs that are nearly the same, in random order, again and again
        pw, salt = m.bytes(r.choice((8, 64, 65))), m.bytes(r.choice((8, 60)))
        a = [pbkdf(m, x, salt, 2, 40, 1) for x in m.family(pw)] + [pbkdf(m, pw, x, 2, 40, 1) for x in m.family(salt)] + [pbkdf(m, pw, salt, c, n, 1) for c, n in ((1, 40), (3, 40), (2, 20), (2, 65))]
        b = [scrypt(1, 2, 1, x, salt, 40, 1) for x in m.family(pw)] + [scrypt(1, 2, 1, pw, x, 40, 1) for x in m.family(salt)]
        b += [scrypt(*q, pw, salt, n, 1) for q, n in (((2, 2, 1), 40), ((1, 4, 1), 40), ((1, 2, 2), 40), ((1, 2, 1), 20), ((1, 2, 1), 70), ((4, 1, 1), 9))]
        x = m.bytes(64)
        c = ["salsa20 %s %d 1" % (hx(y), n) for y in [z for z in m.family(x) if len(z) == 64] + [x + x, x + m.bytes(64)] for n in (1, 4)]
        for q in (a, b, c):
            q = q + r.sample(q, len(q) // 2)
            r.shuffle(q)
            s.append(m.session("alike", q))
    for _ in range(p.pick(8, 100)):
        for kind in ("hmac", "aes", "cipher", "decipher"):
            lines, o = [], 0
            ks = m.key_family() if kind != "hmac" else m.family(m.bytes(r.choice((20, 64, 65))))
            ivs = m.family(m.bytes(16))
            for k in ks:
                o += 1
                lines.append({"hmac": "hmac.new %d %s" % (o, hx(k)), "aes": "aes.new %d" % o}.get(kind, "%s.new %d %s" % (kind, o, hx(r.choice([v for v in ivs if len(v) == 16])))))
                if kind != "hmac":
                    lines.append("%s.init %d %s" % (kind, o, hx(k)))
            b = m.bytes(16)
            for o in r.sample(range(1, o + 1), o) + r.sample(range(1, o + 1), o):
                lines += {"hmac": ["hmac.update %d %s" % (o, hx(b))], "aes": ["aes.%s %d %s" % (r.choice(("enc", "dec")), o, hx(b))]}.get(kind, ["%s.write %d %s" % (kind, o, hx(r.choice((b, b[:9], b + b))))])
            if kind == "hmac":
                lines += ["hmac.digest %d" % k for k in r.sample(range(1, o + 1), o)]
            s.append(m.session("alike", lines))
    both = copies(s, 2)
    r.shuffle(both)
    p.batch(both, runs=[("seq", "dev"), ("rev", "dev"), ("threads:8", "dev")], what="inputs, keys and IVs that are nearly the same, repeated in random order")
    # work that keeps 8 threads inside the same functions for a while
    s = []
    for k in range(p.pick(6, 40)):
        key, iv, d = m.bytes(r.choice(KEYS)), m.bytes(16), m.bytes(r.randrange(100, 400))
        s += [m.session("busy", ["sha.class %s %d" % (hx(d), k)]), m.session("busy", ["hmac.class %s %s %d" % (hx(key), hx(d), k)]),
              m.session("busy", ["cipher.class %s %s %s %d" % (hx(key), hx(iv), hx(d), k)]),
              m.session("busy", ["decipher.class %s %s %s %d" % (hx(key), hx(iv), hx(cbc_message(m, key, iv, d)[0]), k)]),
              m.session("busy", ["aes.law %s 20000 %d" % (hx(key), k)]), m.session("busy", ["aes.rekey 5000 %d 4" % k]),
              m.session("busy", ["pbkdf2.steps %s %s 3000" % (hx(key), hx(iv))]), m.session("busy", ["salsa.steps %s 20000" % hx(m.bytes(64))]),
              m.session("busy", ["pbkdf2.prefix %s %s 2 60" % (hx(key), hx(iv))]),
              m.session("busy", ["chain.bulk %s %s 2000 %d 4" % (hx(key), hx(iv), k)]), m.session("busy", ["hmac.bulk %s 30000 %d" % (hx(key), k + 1)]),
              m.session("busy", ["scrypt.witness 2 256 2 %s %s 40 4 %d" % (hx(key), hx(iv), k)])]
    r.shuffle(s)
    p.batch(copies(s, 3), runs=[("threads:8", "dev"), ("threads:8", "release"), ("threads:24", "dev")], what="eight threads and more, busy in the same functions")
    # the same histories while many thousand other objects come and go
    s = []
    for k in range(p.pick(4, 24)):
        a = mixture(m, r, 5, 40)
        for _ in range(2):
            a.insert(r.randrange(5, len(a)),
                     "noise %d %d %d" % (r.choice(((70000, 70000), (300, 70000), (0, 300000), (5000, p.pick(1200000, 20000000)))) + (r.randrange(1 << 30),)))
        s.append(m.session("noise", a))
    p.batch(s, runs=[("seq", "dev"), ("threads:4", "release")], what="histories during which up to 1.2 (thorough 20) million other objects of each kind come and go")
    # many objects of one kind at a time, keyed alike and differently
    s = []
    for kind in ("sha", "hmac", "cipher", "decipher", "aes"):
        for _ in range(p.pick(3, 30)):
            n = 24
            lines = []
            for o in range(1, n + 1):
                lines.append("%s.new %d %s" % (kind, o, "" if kind in ("sha", "aes") else hx(m.bytes(16))))
                lines[-1] = lines[-1].rstrip()
            todo = []
            k = m.bytes(16)
            for o in range(1, n + 1):
                if kind in ("sha", "hmac"):
                    todo += [["%s.update %d %s" % (kind, o, hx(m.bytes(r.randrange(70)))) for _ in range(2)] + ["%s.digest %d" % (kind, o)]]
                elif kind == "aes":
                    todo += [["aes.init %d %s" % (o, hx(k if r.random() < 0.3 else m.bytes(r.choice(KEYS))))] + ["aes.%s %d %s" % (r.choice(("enc", "dec")), o, hx(m.bytes(16))) for _ in range(2)]]
                else:
                    todo += [["%s.init %d %s" % (kind, o, hx(k if r.random() < 0.3 else m.bytes(r.choice(KEYS))))] + ["%s.write %d %s" % (kind, o, hx(m.bytes(r.randrange(40)))) for _ in range(2)] + ["%s.flush %d" % (kind, o)]]
            while any(todo):
                t = r.choice([t for t in todo if t])
                lines.append(t.pop(0))
            s.append(m.session("many", lines))
    p.batch(copies(s, 2), runs=[("seq", "dev"), ("threads:8", "dev")], what="24 objects of one kind at a time")
    kinds = ("sha", "hmac", "pbkdf2", "salsa", "scrypt", "aes", "cipher", "decipher")
    mesh(p, kinds, 2, runs=[("seq", "dev"), ("threads:8", "release")])
    s = []
    for _ in range(p.pick(2, 20)):        # a few of each kind, and the functions they are built on
        s.append(m.mesh("mesh", [t for k in kinds for t in r.sample(related(m, k), 10)] + [mixture(m, r, 3, 10) for _ in range(10)]))
    p.batch(s, runs=[("seq", "dev"), ("threads:8", "dev")], what="computations of all kinds, each directly after each other")
    return p


def c16(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Api")
    s = [m.session("wild", mixture(m, r, 4, 30, wild=True)) for _ in range(p.pick(90, 1500))]
    p.batch(s, runs=BOTH, what="random calls in any order: digest and update after digest, use without a key, calls after errors")
    s = []
    pieces = {0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 256}
    for h in p.histories(Kind="sha", BL=64, Pieces=pieces, Messages=1):
        s.append(m.session("sha", m.from_hash("sha", h) + r.choice(([], ["sha.digest 1"], ["sha.update 1 " + hx(m.bytes(r.randrange(70))), "sha.digest 1", "sha.digest 1"]))))
    r.shuffle(s)
    s = s[:p.pick(500, 5000)]
    t = []
    for kind in ("cipher", "decipher"):
        for h in p.histories(Kind=kind, BL=16, Pieces={0, 1, 15, 16, 17, 32, 33}, GoodKeys={16, 32}, BadKeys={0, 1, 15, 17, 33}, Messages=1):
            t.append(m.session(kind, getattr(m, "from_" + kind)(h)))
    r.shuffle(t)
    p.batch(s + t[:p.pick(900, 20000)], runs=BOTH, what="transitions of all stream objects, good and bad keys")
    # sizes
    s = []
    for n in list(range(0, p.pick(140, 600), 1)):
        s.append(m.session("sha", m.sha(m.bytes(n)) + ["sha.digest 1"]))
    for n in p.pick((0, 1, 31, 32, 33, 100), range(0, 200)):
        s.append(m.session("pbkdf2", [pbkdf(m, m.bytes(n), m.bytes(n), 1, n, 1)]))
        s.append(m.session("salsa", ["salsa20 %s %d 1" % (hx(m.bytes(64 * (n % 7))), n % 5)]))
        s.append(m.session("scrypt", [scrypt(1, 2, 1, m.bytes(n), m.bytes(n), n, 1)]))
        s.append(m.session("hmac", m.hmac(m.bytes(n), [m.bytes(n)]) + ["hmac.digest 1", "hmac.update 1 00", "hmac.digest 1"]))
    M = (1 << 64) - 1
    vals = [0, 1, 2, 3, 1 << 15, 1 << 16, (1 << 30) - 1, 1 << 30, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 48, 1 << 57, 1 << 58, 1 << 63, M]
    lines = []
    for rr in vals:
        for n in vals:
            for pp in vals:
                ok = rr >= 1 and n >= 2 and n & (n - 1) == 0 and n < (1 << (16 * min(rr, 4))) and 1 <= pp <= ((1 << 30) - 1) // rr
                if not ok:
                    lines.append(scrypt(rr, n, pp, b"pw", b"salt", 20, 1))
    if not p.thorough:
        lines = r.sample(lines, 1200)
    s += [m.session("scrypt", lines[i:i + 20]) for i in range(0, len(lines), 20)]
    p.batch(s, runs=BOTH, what="argument sizes from nothing up, extreme scrypt parameters", limit=60, memory=8 << 30)
    s = [m.session("c", ["pbkdf2.steps %s %s %d" % (hx(m.bytes(4)), hx(m.bytes(4)), c)]) for c in (2, 255, 65536)]
    s += [m.session("n", ["salsa.steps %s %s" % (hx(m.bytes(64)), "0,255,256,65535,65536,1000000")])]
    s += [m.session("bulk", ["sha.bulk %d %d 5 4096 0 1 61" % (b, q)]) for b, q in ((1 << 16, 0), (1 << 18, 1), ((1 << 26) + 1, 3))]
    s += [m.session("blk", ["pbkdf2.blocks %s %s 1 %d 1,256,257,65535,65536,65537" % (hx(m.bytes(10)), hx(m.bytes(10)), 66000 * 32 - 5)])]
    s += [m.session("huge", ["pbkdf2.huge %s %s %d 32 700" % (hx(m.bytes(5)), hx(m.bytes(5)), c), "salsa.huge %s %d 500" % (hx(m.bytes(64)), c)]) for c in (1 << 31, 1 << 32, (1 << 64) - 1)]
    s += [m.session("big", ["cipher.bulk %s %s %d 3 6 %d" % (hx(m.bytes(32)), hx(m.bytes(16)), n, top)]) for n, top in ((1 << 20, 1 << 18), (70001, 500))]
    s += [m.session("class", ["%s.class %s%s %d" % (k, "" if k == "sha" else hx(m.bytes(16)) + " ", ("" if k in ("sha", "hmac") else hx(m.bytes(16)) + " ") + hx(m.bytes(n)), r.randrange(1 << 30))])
          for k in ("sha", "hmac", "cipher", "decipher") for n in (0, 1, 16, 63, 64, 65, 160)]
    s += [m.session("law", ["aes.law %s 20000 %d" % (hx(m.bytes(k)), k)]) for k in KEYS]
    s += [m.session("bulk", ["hmac.bulk 6b6579 %d 3" % ((1 << 29) + 7)])]
    p.batch(s, runs=[("threads:4", "dev"), ("threads:4", "release")], what="long computations", limit=300)
    # the crate without optimisation, where each call of a function takes stack; threads have 2 MB of it
    s = [m.session("deep", ["cipher.bulk %s %s %d 3 6 %d" % (hx(m.bytes(32)), hx(m.bytes(16)), n, top)]) for n, top in ((p.pick(2, 20) << 20, 1 << 20), (70001, 500))]
    s += [m.session("deep", ["sha.bulk %d %d 0 4096 1 1 61" % ((p.pick(1, 8) << 16), 3)]), m.session("deep", ["pbkdf2.steps %s %s %d" % (hx(m.bytes(4)), hx(m.bytes(4)), p.pick(40000, 400000))]),
          m.session("deep", ["pbkdf2.blocks %s %s 1 %d 1,256,257,65535,65536,65537" % (hx(m.bytes(10)), hx(m.bytes(10)), 66000 * 32 - 5)]),
          m.session("deep", ["salsa.steps %s 0,255,256,65535,%d" % (hx(m.bytes(64)), p.pick(1000000, 1 << 25))]), m.session("deep", ["salsa.bulk %d %d 1 12" % (r.randrange(1 << 30), p.pick(70001, 1 << 20))]),
          m.session("deep", ["scrypt.witness 1 %d 1 %s %s 32 3 4" % (p.pick(1 << 14, 1 << 15), hx(m.bytes(4)), hx(m.bytes(4)))])]
    s += [m.session("deep", ["scrypt.vast %d 2 %d %s %s 32 4" % (q + (hx(m.bytes(4)), hx(m.bytes(4))))]) for q in ((1, 5000), (5000, 1))]
    s += [m.session("deep", ["long %s %d %d %s %d 1 1 2 1" % (what, (p.pick(1, 8) << 20) + r.randrange(64), r.randrange(1, 1 << 30), hx(m.bytes(9)), 32)]) for what in ("hmac.key", "pbkdf2.pw", "pbkdf2.salt", "scrypt.pw", "scrypt.salt")]
    s += [m.session("deep", ["chain.bulk %s %s 20000 %d 30" % (hx(m.bytes(k)), hx(m.bytes(16)), r.randrange(1 << 30))]) for k in KEYS]
    s += [m.session("deep", ["aes.rekey 20000 %d 10" % r.randrange(1 << 30)])] + [m.session("deep", mixture(m, r, 4, 40, wild=True)) for _ in range(p.pick(40, 400))]
    p.batch(s, runs=[("threads:4", "plain")], what="long computations by an unoptimised build of the crate on small stacks", limit=300)
    stream(p, ("cipher", "decipher"), 25, 200)
    p.many(("sha.many", 30000, 2), ("hmac.many", 30000, 2), ("pbkdf2.many", 10000, 2), ("salsa.many", 30000, 2), ("scrypt.many", 1500, 2), ("scrypt.refuse", 200000, 2),
           ("aes.many", 10000, 2), ("cipher.many", 50000, 3, "wild"), ("decipher.many", 50000, 3, "wild"), runs=[("threads:8", "dev"), ("threads:8", "release")], memory=12 << 30)
    mesh(p, ("sha", "hmac", "pbkdf2", "salsa", "scrypt", "aes", "cipher", "decipher"), runs=BOTH)
    return p


def c17(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    p.model("MC_Channel")
    p.model("MC_Decipher")
    p.model("MC_HashStream")
    p.model("MC_Api")
    s = []

    def mem(kind, calls, top, *more):
        s.append(m.session("mem", [" ".join(map(str, ("mem", kind, calls * p.pick(1, 10), top, r.randrange(1, 1 << 40)) + more))]))
    kinds = {"sha": 600000, "hmac": 600000, "aes": 150000, "cipher": 200000, "cipher.msgs": 200000, "cipher.keys": 200000, "cipher.none": 600000,
             "decipher": 200000, "decipher.msgs": 100000, "decipher.keys": 200000, "decipher.none": 600000, "decipher.bad": 200000}
    for kind, calls in kinds.items():
        for top in (1, 40, 300):
            mem(kind, calls * 20 // max(20, top), top)
        mem(kind, 400, 40000)
        mem(kind, 4, 3000000)
    for top in (20, 130, 2000):
        mem("churn", 2000000 // (top + 10), top)
    mem("pbkdf2", 40000, 80, 1)
    mem("pbkdf2", 3000, 200, 3)
    mem("pbkdf2", 20, 2000, 1)
    for c in (1000, 100000, 1 << 20):
        mem("pbkdf2", 2, 32, c)
    mem("salsa", 200000, 200, 1)
    mem("salsa", 100, 64 * 3000, 4)
    for n in (1000, 1000000, 1 << 23):
        mem("salsa", 2, 130, n)
    mem("scrypt", 8000, 60, 1, 2, 1)
    for q in ((1, 2, 2), (1, 16, 3), (2, 4, 2), (2, 64, 64), (1, 4, 400), (1, 1024, 20), (8, 1024, 2), (300, 2, 1), (100, 8, 8), (1, 1 << 14, 1)):
        mem("scrypt", p.pick(3, 1), 60, *q)
    mem("scrypt", 2000, 60, 1, 8, 2)
    mem("scrypt.refuse", 300000, 100)
    p.batch(s, runs=BOTH, memory=8 << 30, limit=400,
            what="bytes allocated and not returned, after every call on every kind of object (long messages, many messages, many keys, refused calls) and every stand-alone function, and the most there was during one")
    # the same crate answers as specified: the counting did not change what it does
    p.batch([m.session("wild", mixture(m, r, 4, 30)) for _ in range(p.pick(20, 200))], what="some histories with their values")
    return p


def c18(run):
    p = Plan(run)
    m, r = p.m, run.rng
    p.model("MC_Lengths")
    for name in ("MC_HashStream", "MC_Pbkdf2", "MC_Scrypt", "MC_Channel"):
        p.model(name)
    # (kind, first lot, second lot, calls made before the second): the same work, in one go or in many
    lots = []

    def lot(kind, a, b, before=0):
        lots.append("cost %s %d %d %s / %s" % (kind, r.randrange(1, 1 << 40), before, " ".join(map(str, a)), " ".join(map(str, b))))
    k = p.pick(1, 4)
    for kind, more in (("sha", ()), ("hmac", (32,)), ("hmac", (100,))):
        lot(kind, (4096, 1024, 1024) + more, (1, 4 << 20, 4 << 20) + more)       # one long piece
        lot(kind, (4096, 1024, 1024) + more, (4, 1 << 20, 1 << 20) + more)
        lot(kind, (1000 * k, 4000, 100) + more, (1, 4000000 * k, 100) + more)    # one long message in pieces
        lot(kind, (500, 1000, 1) + more, (1, 500000, 1) + more)
        lot(kind, (500, 63, 63) + more, (500, 63, 63) + more, 50000 * k)         # after many others
    lot("hmac", (2000, 64, 64, 1000), (1, 64, 64, 2000000))
    lot("pbkdf2", (2000 * k, 10, 10, 10, 20), (1, 10, 10, 20000 * k, 20))
    lot("pbkdf2", (4 * k, 10, 10, 5000, 20), (1, 10, 10, 20000 * k, 20))
    lot("pbkdf2", (5000, 10, 10, 1, 320), (1, 10, 10, 1, 1600000))
    lot("pbkdf2", (500, 100, 100, 5, 32), (1, 100, 100, 5, 16000))
    lot("pbkdf2", (2000, 10, 1000, 1, 32), (1, 10, 2000000, 1, 32))
    lot("pbkdf2", (2000, 1000, 10, 1, 32), (1, 2000000, 10, 1, 32))
    lot("pbkdf2", (500, 20, 20, 3, 32), (500, 20, 20, 3, 32), 30000 * k)
    lot("salsa", (16384, 64, 16), (1, 64, 16 * 16384))
    lot("salsa", (65536, 64, 4), (1, 64 * 65536, 4))
    lot("salsa", (5000, 64, 4), (5000, 64, 4), 100000 * k)
    lot("scrypt", (1024, 1, 16, 1, 10, 10), (1, 1, 16384, 1, 10, 10))
    lot("scrypt", (512, 1, 16, 1, 10, 10), (1, 512, 16, 1, 10, 10))
    lot("scrypt", (1024, 1, 16, 1, 10, 10), (1, 1, 16, 1024, 10, 10))
    lot("scrypt", (512, 2, 4, 1, 10, 10), (1, 16, 8, 32, 10, 10))
    lot("scrypt", (2048, 1, 2, 16, 10, 10), (1, 1, 2, 32768, 10, 10))
    lot("scrypt", (1024, 32, 2, 1, 10, 10), (1, 32768, 2, 1, 10, 10))
    lot("scrypt", (8192, 2, 16, 1, 10, 10), (1, 2, 1 << 17, 1, 10, 10))
    lot("scrypt", (200, 1, 8, 2, 10, 10), (200, 1, 8, 2, 10, 10), 2000 * k)
    small = (10000, 1, 0, 3, 0, 1, 0)
    for big in ((120, 0, 130, 1, 1, 0), (1, 0, 1, 0, 163, 0), (1, 0, 163, 0, 1, 0), (1, 0, 115, 0, 162, 0), (163, 0, 2, 0, 1, 0),
                (1, 0, 132, 1, 132, 0), (120, 0, 130, 0, 0, 0), (0, 0, 163, 0, 162, 0)):
        lot("scrypt.refuse", small, (10000,) + big)
    lot("aes", (100 * k, 1000), (1, 100000 * k))
    lot("aes", (2000, 5), (2000, 5), 20000 * k)
    for kind in ("cipher", "decipher"):
        lot(kind, (2048, 1024, 1024), (1, 2 << 20, 2 << 20))
        lot(kind, (2000 * k, 1000, 100), (1, 2000000 * k, 100))
        lot(kind, (400, 1000, 1), (1, 400000, 1))
        lot(kind, (1000, 40, 40), (1000, 40, 40), 20000 * k)
        lot(kind + ".msgs", (400, 100, 50, 10), (1, 100, 50, 4000))
        lot(kind + ".keys", (400, 100, 50, 10), (1, 100, 50, 4000))
        lot(kind + ".none", (2000, 1000, 100), (1, 2000000, 100))
        lot(kind + ".none", (400, 1000, 1), (1, 400000, 1))
    lot("decipher.bad", (200, 100), (1, 20000))
    r.shuffle(lots)
    p.batch([m.session("cost", [x]) for x in lots], runs=[("seq", "dev"), ("seq", "release")], memory=8 << 30, limit=200,
            what="running times of equal amounts of work, in one call or in many, early or late, checked (debug and release builds)")
    p.batch([m.session("wild", mixture(m, r, 4, 30)) for _ in range(p.pick(20, 200))], what="some histories with their values")
    return p


def done(f):
    def g(run):
        p = f(run)
        p.what = "; ".join(p.what)
        return p
    return g


PROPS = {"C%02d" % k: done(f) for k, f in enumerate(
    (c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18), 1)}
