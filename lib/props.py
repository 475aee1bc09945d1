"""The checks, one per property. Each builds the repository as it is, drives it, and has TLC judge the recordings."""
import numpy as np
from core import *
from groups import judge_runs, judge_scripts, variants
from scripts import Gen, Params

V = [(s, g) for s in SIZES for g in ("AES", "SHAKE")]
A0 = bytes(range(0x30, 0x40))        # a seed of A shared by crafted keys, so that A is derived once


def only(*opts):
    """skip builds other than the named optimisation levels (never the slow portable AES)"""
    return lambda name, v, c: c[2] not in opts or slow(c)


def honest(g, keys=1, encs=3, tamper=2):
    """key pairs, encapsulations, decapsulations, tampered ciphertexts, wrong keys"""
    p = g.p
    for k in range(keys):
        g.K(0, 1)
        for e in range(encs):
            g.E(2, 3, 0)
            g.D(4, 2, 1)
            for t in range(tamper):
                g.add("C", 5, 2)
                g.flip(5, g.r.randrange(8 * p.ct))
                g.D(6, 5, 1)
    g.K(7, 8)
    g.D(9, 2, 8)                       # someone else's ciphertext
    g.E(2, 3, 7)
    g.D(9, 2, 8)
    g.add("W", 5, g.rb(p.ct).hex())    # noise as ciphertext
    g.D(9, 5, 8)


def patterns(p, k):
    """byte strings of length k worth trying as seeds and messages"""
    yield bytes(k)
    yield b"\xff" * k
    yield bytes(range(k))
    yield b"\x55" * k
    yield b"\xaa" * k
    yield b"\x80" + bytes(k - 1)
    yield bytes(k - 1) + b"\x01"


def fringe(g, gen, count, hostile=True):
    """accepted ciphertexts of crafted keys: noise on and around the ends of the decoding interval, secret
    matrices with any 16-bit values"""
    p = g.p
    R = p.R
    for t in range(count):
        kind = t % 5
        if kind == 0: St = np.zeros((8, p.n), dtype=np.int64)
        elif kind == 1: St = g_words(g, 8 * p.n).reshape(8, p.n)
        elif kind == 2: St = np.full((8, p.n), -1)
        elif kind == 3: St = np.where(g_words(g, 8 * p.n).reshape(8, p.n) & 1, 32767, -32768)
        else: St = p.sample(g_words(g, 8 * p.n)).reshape(8, p.n)
        d = np.array([g.r.choice((-R, -R + 1, R - 1, R - 2, 0, 1, -1, g.r.randrange(-R, R))) for _ in range(64)])
        if t % 7 == 0: d[:] = -R
        if t % 7 == 1: d[:] = R - 1
        mu = list(patterns(p, p.len))[t % 7] if t % 3 == 0 else None
        g.crafted(gen, A0, St, d, mu=mu, s=None)
        g.D(12, 11, 13)
        if hostile:
            g.add("C", 5, 11)
            g.flip(5, g.r.randrange(8 * p.ct))
            g.D(12, 5, 13)


def g_words(g, k):
    return np.frombuffer(g.rb(2 * k), dtype="<u2").astype(np.int64)


def C01(chk):
    chk.selfcheck()
    chk.toy()
    drivers = chk.drivers()
    keys, encs, tries = (2, 4, 1500) if chk.quick else (12, 25, 20000)
    hon, edge, many = {}, {}, {}
    for v in V:
        g = Gen(v[0], chk.seed)
        pats = list(patterns(g.p, g.p.rk))
        for k in range(keys):
            g.K(0, 1, rnd=pats[k % 7] if k % 2 else None)
            for e in range(encs):
                g.E(2, 3, 0, mu=list(patterns(g.p, g.p.len))[e % 7] if e % 2 else None)
                g.D(4, 2, 1)
        hon[v] = g.text()
        g = Gen(v[0], "edge%d" % chk.seed)
        n = g.edge_key(tries=tries, want=2 if chk.quick else 12)
        chk.cov["edge_encapsulations"] = chk.cov.get("edge_encapsulations", 0) + n
        edge[v] = g.text()
        g = Gen(v[0], "many%d" % chk.seed)
        g.K(0, 1)
        for k in range(60 if chk.quick else 1500):
            g.E(2, 3, 0)
            g.D(4, 2, 1)
        many[v] = g.text()
    judge_scripts(chk, drivers, {"honest": hon, "edge": edge}, "agree", skip=lambda n, v, c: n == "edge" and slow(c) and chk.quick)
    judge_scripts(chk, drivers, {"many": many}, "agree", skip=only("FAST", "FAST_GENERIC"))
    # round trips in bulk, in several processes; one of them long enough for 2^16 calls in one process
    total = {640: 8, 976: 4, 1344: 4} if chk.quick else {640: 200, 976: 120, 1344: 80}
    runs = []
    for v in V:
        c = (("AES128" if v[1] == "AES" else "SHAKE128"), "TRUE", "FAST")
        for part in range(total[v[0]] // 2):
            for o in ("FAST", "FAST_GENERIC") if not chk.quick and part % 4 == 0 else ("FAST",):
                runs.append(("trips %d-%s %s %d" % (v + (o, part)), drivers[c[:2] + (o,), v[0]], "".join("T %d 1000\n" % (chk.seed * 100000 + 10 * part + k) for k in range(2)), vconst(v, "agree")))
    c = ("AES128", "TRUE", "FAST")
    runs.insert(0, ("trips 640-AES in one process", drivers[c, 640], "".join("T %d 1000\n" % (chk.seed * 100000 + 77000 + k) for k in range(17)), vconst((640, "AES"), "agree")))
    runs.sort(key=lambda r: -int(re.search(r"\d+", r[0]).group()) * ("SHAKE" in r[0] and 2 or 1) - 5000 * ("one" in r[0]))
    judge_runs(chk, runs, "FrodoTrace")
    chk.cov["round_trips_in_bulk"] = 17000 + 2000 * len([r for r in runs[1:]])


def C02(chk):
    chk.selfcheck()
    chk.toy()
    drivers = chk.drivers()
    sweep, wide, diff = {}, {}, {}
    for v in V:
        p = Params(v[0])
        # every coefficient of the ciphertext (every bit of it when thorough) altered, for a key with S = 0:
        # the decoded message stays what it was, so only the comparison can tell
        D, tot = p.D, p.n * 8 + 64
        parts = 4 if chk.quick else 16
        for part in range(parts):
            g = Gen(v[0], "sweep%d" % chk.seed)
            st = g.base(seedA=A0)
            g.target(st, np.zeros((8, 8)))
            g.D(12, st["ct"], st["sk"])
            for i in range(part, tot, parts):
                for b in (range(D) if not chk.quick else [(i * 7 + chk.seed + i // D) % D]):
                    pos = i * D + b                          # most significant bit first
                    bit = 8 * (pos // 8) + 7 - pos % 8
                    g.flip(st["ct"], bit)
                    g.D(12, st["ct"], st["sk"])
                    g.flip(st["ct"], bit)
            sweep.setdefault("sweep%d" % part, {})[v] = g.text()
        # every difference value in one coefficient of c1 and of c2; the same difference in two places; differences
        # that add up to nothing; honest keys with damaged, exchanged and foreign parts
        g = Gen(v[0], "diff%d" % chk.seed)
        st = g.base(seedA=A0)
        g.target(st, np.zeros((8, 8)))
        g.add("C", 30, st["ct"])
        vals = list(range(1, p.q)) if not chk.quick else sorted({1 << b for b in range(D)} | {p.q - (1 << b) for b in range(D)}
              | {(1 << b) - 1 for b in range(1, D + 1)} | {g.r.randrange(1, p.q) for _ in range(60)} | {256 * k for k in range(1, p.q // 256, 5)})
        base = None
        for x in vals:
            i = g.r.randrange(p.n * 8)
            xor(g, st["ct"], p, {i: x})
            g.D(12, st["ct"], st["sk"])
            xor(g, st["ct"], p, {i: x})
            if x < p.R and g.r.random() < (0.3 if chk.quick else 0.05):
                j = p.n * 8 + g.r.randrange(64)
                xor(g, st["ct"], p, {j: x})
                g.D(12, st["ct"], st["sk"])
                xor(g, st["ct"], p, {j: x})
        for t in range(60 if chk.quick else 2000):
            x = g.r.randrange(1, p.R // 2)
            where = {g.r.randrange(p.n * 8): x, (p.n * 8 + g.r.randrange(64)) if t % 2 else g.r.randrange(p.n * 8): x}
            if t % 3 == 0:
                where = {k: x for k in g.r.sample(range(p.n * 8), 2 ** (1 + t % 12))}
            xor(g, st["ct"], p, where)
            g.D(12, st["ct"], st["sk"])
            xor(g, st["ct"], p, where)
        g.add("C", st["ct"], 30)
        g.D(12, st["ct"], st["sk"])
        diff[v] = g.text()
        g = Gen(v[0], "wide%d" % chk.seed)
        addpairs(g, v[1], 6 if chk.quick else 60)
        fringe(g, v[1], 10 if chk.quick else 150)
        g.K(0, 1)
        g.E(2, 3, 0)
        g.E(6, 7, 0)
        g.D(4, 2, 1)
        for a, b in ((2, 6), (6, 2)):                    # c1 of one with c2 of the other
            g.o.append("J 5 %d %d %d" % (a, b, p.bB))
            g.D(4, 5, 1)
        g.add("Z", 5, p.ct, 0); g.D(4, 5, 1)
        g.add("Z", 5, p.ct, 255); g.D(4, 5, 1)
        for t in range(12 if chk.quick else 200):
            g.add("C", 5, 2); g.flip(5, *[g.r.randrange(8 * p.ct) for _ in range(1 + t % 3)]); g.D(4, 5, 1)
            g.add("C", 8, 1); g.flip(8, g.r.randrange(8 * p.sk)); g.D(4, 2, 8)
        wide[v] = g.text()
    # the comparison does not depend on how A is made: quick sweeps one generator
    if chk.quick:
        sweep = {k: {v: t for v, t in d.items() if v[1] == "AES"} for k, d in sweep.items()}
        diff = {v: t for v, t in diff.items() if v[1] == "SHAKE"}
    judge_scripts(chk, drivers, sweep, "reject", skip=lambda n, v, c: c[2] != "FAST" or (chk.quick and c[1] == "FALSE"))
    judge_scripts(chk, drivers, {"diff": diff, "wide": wide}, "reject",
                  skip=lambda n, v, c: (slow(c) and chk.quick) or (n == "diff" and (slow(c) or c[2] != "FAST_GENERIC")))


def xor(g, buf, p, where):
    """xor values into coefficients"""
    bits = []
    for i, x in where.items():
        for b in range(p.D):
            if (x >> (p.D - 1 - b)) & 1:
                pos = i * p.D + b
                bits.append(8 * (pos // 8) + 7 - pos % 8)
    for k in range(0, len(bits), 60):
        g.flip(buf, *bits[k:k + 60])


def addpairs(g, gen, count):
    """differences that cancel in sums: +x at one place, -x at another"""
    p = g.p
    for t in range(count):
        St = np.zeros((8, p.n), dtype=np.int64)
        g.crafted(gen, A0, St, np.zeros(64))
        g.D(12, 11, 13)
        ct = bytes.fromhex(g.o[-2].split()[2])
        c = p.unpack(ct)
        x = g.r.randrange(1, p.R)
        i, j = g.r.randrange(p.n * 8), (g.r.randrange(p.n * 8) if t % 2 else p.n * 8 + g.r.randrange(64))
        c[i] += x
        c[j] -= x
        g.add("W", 5, p.pack(c).hex())
        g.D(12, 5, 13)


def bulk(chk, drivers, rounds, judge, parts, gens=("AES", "SHAKE"), tag=""):
    """whole rounds of calls of which the recording keeps a digest; the specification computes it too"""
    runs, many = [], 0
    for v in V:
        if v[1] not in gens: continue
        per = -(-rounds[v[0]] // parts)
        for part in range(parts):
            g = Gen(v[0], "bulk%s%d/%d" % (tag, chk.seed, part))
            t = "".join("R %s %s %d\n" % (g.rb(g.p.rk).hex(), g.rb(g.p.len).hex(), g.r.randrange(8 * g.p.ct)) for _ in range(per))
            many += per
            for c in variants(drivers)[v]:
                if not slow(c) and (c[2] != "REFERENCE" or not chk.quick or part == 0):
                    runs.append(("bulk %s %d part %d" % (cname(c), v[0], part), drivers[c, v[0]], t, vconst(v, judge)))
    runs.sort(key=lambda r: ("REFERENCE" not in r[0], -int(r[3]["Size"])))
    judge_runs(chk, runs, "FrodoTrace")
    chk.cov["rounds_in_bulk"] = many


def C03(chk):
    chk.selfcheck()
    drivers = chk.drivers()
    n = 1 if chk.quick else 6
    sc, pat, fr = {}, {}, {}
    for v in V:
        g = Gen(v[0], chk.seed)
        honest(g, keys=n, encs=2 * n)
        sc[v] = g.text()
        g = Gen(v[0], "pat%d" % chk.seed)
        for k, r in enumerate(patterns(g.p, g.p.rk)):
            g.K(0, 1, rnd=r)
            for m in list(patterns(g.p, g.p.len))[k % 7:][:2 if chk.quick else 7]:
                g.E(2, 3, 0, mu=m)
                g.D(4, 2, 1)
        for k in range(4 if chk.quick else 40):           # public keys that key generation would not make
            g.add("W", 14, (g.rb(16) + (g.rb(g.p.bB) if k % 3 else (b"\xff", b"\x00")[k // 3 % 2] * g.p.bB)).hex())
            g.E(2, 3, 14)
            g.add("W", 15, g.rb(g.p.sk).hex())
            g.D(4, 2, 15)
        pat[v] = g.text()
        g = Gen(v[0], "fringe%d" % chk.seed)
        fringe(g, v[1], 10 if chk.quick else 200)
        fr[v] = g.text()
    judge_scripts(chk, drivers, {"honest": sc}, "conform")
    judge_scripts(chk, drivers, {"patterns": pat, "fringe": fr}, "conform", skip=lambda n, v, c: slow(c) and chk.quick)
    bulk(chk, drivers, {640: 400, 976: 160, 1344: 80} if chk.quick else {640: 20000, 976: 8000, 1344: 5000}, "conform", 2 if chk.quick else 20)


def C05(chk):
    chk.selfcheck()
    chk.numbers()
    drivers = chk.drivers()
    sc = {}
    for v in V:
        g = Gen(v[0], "noise%d" % chk.seed)
        p = g.p
        z = bytes(range(16))
        seen, where = set(), [set(), set()]
        target = 65536
        n = 0
        # seeds until every 16-bit word has gone through the sampler, and (thorough) through both matrices
        while n < (140 if chk.quick else 2000):
            s, seed = g.rb(p.len), g.rb(p.len)
            w = np.frombuffer(p.H(b"\x5f" + seed, 4 * p.n * 8), dtype="<u2")
            a, b = set(w[:p.n * 8].tolist()), set(w[p.n * 8:].tolist())
            if chk.quick and n > 20 and len((a | b) - seen) < 25 * max(1, (65536 - len(seen)) // 4000) and len(seen) < target:
                if not (a | b) - seen:
                    continue
            where[0] |= a; where[1] |= b; seen |= a | b
            g.K(0, 1, rnd=s + seed + z)
            n += 1
            if len(seen) == target and (chk.quick or min(map(len, where)) == target):
                break
        chk.cov.setdefault("sampler_words_covered", {})["%d-%s" % v] = len(seen)
        chk.cov.setdefault("key_generations", {})["%d-%s" % v] = n
        # encapsulations whose noise contains the rarest magnitudes
        best = []
        pk = z + g.rb(p.bB)
        g.add("W", 14, pk.hex())
        pkh = p.H(pk, p.len)
        for _ in range(300 if chk.quick else 5000):
            mu = g.rb(p.len)
            Sp, Ep, Epp = p.enc_noise(pkh, mu)
            best.append((-abs(Epp).max(), -max(abs(Sp).max(), abs(Ep).max()), mu))
        for b in sorted(best)[:6 if chk.quick else 200]:
            g.E(2, 3, 14, mu=b[2])
        for b in sorted(best, key=lambda b: b[1])[:6 if chk.quick else 200]:
            g.E(2, 3, 14, mu=b[2])
        sc[v] = g.text()
    # sampling does not involve the matrix generator: the whole sweep on one generator per size and all three
    # optimisation levels, a shorter one on all other builds
    pick = {640: "SHAKE", 976: "SHAKE", 1344: "SHAKE"}
    full = {v: t for v, t in sc.items() if pick[v[0]] == v[1]}
    part = {v: "\n".join(l for k, l in enumerate(t.split("\n")) if l[:1] != "K" or k < 3) for v, t in sc.items()}
    judge_scripts(chk, drivers, {"all words": full}, "noise", skip=None if not chk.quick else lambda n, v, c: c[2] == "REFERENCE" and v[0] == 1344)
    judge_scripts(chk, drivers, {"some words": part}, "noise", skip=lambda n, v, c: slow(c) and chk.quick)


def C06(chk):
    chk.selfcheck()
    chk.numbers()
    drivers = chk.drivers()
    sc, sk_, cov = {}, {}, {}
    for v in V:
        g = Gen(v[0], "layout%d" % chk.seed)
        p = g.p
        for k in range(2 if chk.quick else 10):
            g.K(0, 1)
            g.E(2, 3, 0)
            g.D(4, 2, 1)
        # a public key is read at its documented places: runs of zeros, ones, a single bit per coefficient
        row = [1 << (p.D - 1 - (i % p.D)) for i in range(p.n * 8)]
        ramp = [(i * 2731 + 77) % p.q for i in range(p.n * 8)]
        pats = [row, ramp, [p.q - 1] * (p.n * 8), [0] * (p.n * 8), [(p.q - 1) ^ x for x in row],
                [p.q - 1 if i % 2 else 0 for i in range(p.n * 8)], [p.q >> 1] * (p.n * 8)]
        for k in range(len(pats) if chk.quick else 40):
            M = pats[k] if k < len(pats) else g_words(g, p.n * 8) % p.q
            g.add("W", 14, (A0 + p.pack(M)).hex())
            g.E(2, 3, 14)
        sc[v] = g.text()
        # a secret key is read at its documented places: keys that accept, and the same keys with one bit changed
        g = Gen(v[0], "sk%d" % chk.seed)
        fields = ((0, p.len), (p.oPk, 16), (p.oPk + 16, p.bB), (p.oS, p.bS), (p.oH, p.len))
        for t in range(4 if chk.quick else 40):
            if t % 2:
                g.K(0, 1, rnd=g.rb(2 * p.len) + bytes(16)); g.E(2, 3, 0)
                sk, ct = 1, 2
            else:
                fringe(g, v[1], 5, hostile=False)
                sk, ct = 13, 11
            g.D(4, ct, sk)
            for off, ln in fields:
                for b in (0, 8 * ln - 1, g.r.randrange(8 * ln)):
                    g.add("C", 8, sk); g.flip(8, 8 * off + b); g.D(4, ct, 8)
                    if off == 0:                          # the rejection value shows when a ciphertext is rejected
                        g.add("C", 5, ct); g.flip(5, 3); g.D(4, 5, 8)
        sk_[v] = g.text()
        # every value of a coefficient in c2 of an accepted ciphertext, each once
        g = Gen(v[0], "c2%d" % chk.seed)
        vals = list(range(p.q))
        g.r.shuffle(vals)
        k = 0
        todo = p.q // 64 if not chk.quick else 24
        for t in range(todo):
            St = np.zeros((8, p.n), dtype=np.int64)
            want = np.array(vals[64 * t: 64 * t + 64])
            # the message is the decoding of the wanted coefficients, the noise is what is left
            m = ((want + p.R) // (2 * p.R)) % (1 << p.B)
            d = (want - m * 2 * p.R + p.q // 2) % p.q - p.q // 2
            mu = sum(int(x) << (p.B * i) for i, x in enumerate(m)).to_bytes(p.len, "little")
            g.crafted(v[1], A0, St, d, mu=mu)
            g.D(12, 11, 13)
        cov[v] = g.text()
    fast = only("FAST", "FAST_GENERIC")
    judge_scripts(chk, drivers, {"fields": sc, "secret": sk_}, "layout", skip=lambda n, v, c: slow(c) and chk.quick)
    judge_scripts(chk, drivers, {"values": cov}, "layout", skip=fast)
    # enough rounds that every value of a coefficient has gone through packing and unpacking at every position in a byte
    bulk(chk, drivers, {640: 320, 976: 80, 1344: 60} if chk.quick else {640: 3000, 976: 1500, 1344: 1000}, "layout", 2 if chk.quick else 10, gens=("AES",) if chk.quick else ("AES", "SHAKE"), tag="layout")


def C07(chk):
    chk.selfcheck()
    drivers = chk.drivers()
    sc = {}
    for v in V:
        g = Gen(v[0], "rnd%d" % chk.seed)
        p = g.p
        g.K(0, 1)
        g.E(2, 3, 0)
        for rounds in range(1 if chk.quick else 6):
            for k in range(1, 5):                         # the k-th request of each call fails
                g.K(0, 1, fail=k)
                g.E(2, 3, 0, fail=k)
                g.D(4, 2, 1)
            g.K(5, 6, rnd=b"", fail=1)                    # buffers that held nothing yet
            g.E(7, 8, 0, mu=b"", fail=1)
            g.K(0, 1)
            g.E(2, 3, 0)
            g.D(4, 2, 1)
        # every byte matters: one byte changed at a time
        base, mu = g.rb(p.rk), g.rb(p.len)
        for i in (range(0, p.rk, 5) if chk.quick else range(p.rk)):
            g.K(0, 1, rnd=base[:i] + bytes([base[i] ^ (1 << g.r.randrange(8))]) + base[i + 1:])
        for i in (range(0, p.len, 4) if chk.quick else range(p.len)):
            g.E(2, 3, 0, mu=mu[:i] + bytes([mu[i] ^ (1 << g.r.randrange(8))]) + mu[i + 1:])
        sc[v] = g.text()
    judge_scripts(chk, drivers, {"draws": sc}, "draws", skip=lambda n, v, c: slow(c) and chk.quick and v[0] == 1344)


def prim_drivers(chk, configs):
    """{cfg: driver} for SHAKE and AES; the primitives do not depend on the parameter set"""
    ds = dict(zip(configs, chk.pmap(lambda c: chk.build(c, (640,)), configs)))
    def link(c):
        fl = "-O1 -w -DNIX -D_AMD64_ -D_%s_ -D_%s_FOR_A_" % (c[2], c[0])
        if c[2] == "FAST": fl += " -mavx2 -maes"
        if c[2] == "FAST" and c[0] == "SHAKE128": fl += " -DHAVE_X4"
        if c[1] == "FALSE": fl += " -DHAVE_AES"
        return chk.link(ds[c], 640, "primdrv.c", "prim", cflags=fl)
    out = dict(zip(configs, chk.pmap(link, configs)))
    chk.log("built %d drivers" % len(out))
    return out


def C13(chk):
    chk.selfcheck()
    cfgs = [c for c in CONFIGS if c[1] == "TRUE"]
    drv = prim_drivers(chk, cfgs)
    r = Gen(640, "shake%d" % chk.seed)
    runs = []
    top = 3 * 168 + 20 if chk.quick else 5 * 168 + 20
    for bits, rate in ((128, 168), (256, 136)):
        o = []
        # every input length with short outputs, every output length with short inputs
        for il in range(top):
            o.append("H %d %s %d" % (bits, r.rb(il).hex() or "-", 32 + il % 7))
        for ol in range(top):
            o.append("H %d %s %d" % (bits, r.rb(1 + ol % 40).hex(), ol))
        for il in (rate - 1, rate, rate + 1, 2 * rate - 1, 2 * rate, 3 * rate):
            for pat in (b"\x00", b"\xff", b"\x80", b"\x01"):
                o.append("H %d %s %d" % (bits, (pat * il).hex(), rate + 1))
        for big in ((9720, 16), (21632 + 32, 32), (17, 43008), (33, 43136), (65536, 65), (7, 65535 + rate), (70001, 70001)):
            o.append("H %d %s %d" % (bits, r.rb(big[0]).hex(), big[1]))
        runs.append(("SHAKE%d one-shot" % bits, "\n".join(o), False))
        o = []
        for t in range(40 if chk.quick else 400):
            h = t % 8
            il = r.r.choice((0, 1, 17, rate - 1, rate, rate + 1, 2 * rate, r.r.randrange(5 * rate)))
            o.append("B %d %d %s" % (h, bits, r.rb(il).hex() or "-"))
            for _ in range(r.r.randrange(1, 6)):
                o.append("Q %d %d" % (r.r.randrange(h + 1) if t >= 8 else h, r.r.choice((0, 1, 1, 2, 3, 7))))
        runs.append(("SHAKE%d incremental" % bits, "\n".join(o), False))
    o = []
    for il in range(top if not chk.quick else 2 * 168 + 20):
        o.append("X %d %s" % (40 + il % 9, " ".join(r.rb(il).hex() or "-" for _ in range(4))))
    for ol in range(top if not chk.quick else 2 * 168 + 20):
        o.append("X %d %s" % (ol, " ".join(r.rb(18).hex() for _ in range(4))))
    for ol in (1280, 1952, 2688, 65536 + 168, 70001):
        o.append("X %d %s" % (ol, " ".join(r.rb(18).hex() for _ in range(4))))
    for t in range(30 if chk.quick else 300):
        h = t % 8
        il = r.r.choice((0, 1, 18, 167, 168, 169, 400))
        o.append("Y %d %s" % (h, " ".join(r.rb(il).hex() or "-" for _ in range(4))))
        for _ in range(r.r.randrange(1, 5)):
            o.append("U %d %d" % (r.r.randrange(h + 1) if t >= 8 else h, r.r.choice((0, 1, 1, 2, 3, 7))))
    runs.append(("SHAKE128 four-way", "\n".join(o), True))
    work = [(name + " " + cname(c), drv[c], t + "\n") for name, t, x4 in runs for c in cfgs if not x4 or (c[2] == "FAST" and c[0] == "SHAKE128")]
    # inputs and outputs beyond four gigabytes
    x4 = ("SHAKE128", "TRUE", "FAST")
    chunk, G = r.rb(4096).hex(), 1 << 20
    for op, bits in (("G", 128), ("G", 256), ("V", 128)):
        for what, times, rest, skip, ln in (("input", G, 100, 0, 50), ("output", 0, 33, 4096, 1000)):
            for c in cfgs if not chk.quick else [x4]:
                if op == "G" or c == x4:
                    work.append(("SHAKE%d long %s %s %s" % (bits, what, op, cname(c)), drv[c], "%s %d %s %d %d %d %d\n" % (op, bits, chunk, times, rest, skip, ln)))
    work.sort(key=lambda w: "long" not in w[0])
    judge_runs(chk, work, "PrimTrace")


def C14(chk):
    chk.selfcheck()
    cfgs = [c for c in CONFIGS if c[1] == "FALSE"]
    drv = prim_drivers(chk, cfgs)
    r = Gen(640, "aes%d" % chk.seed)
    runs = []
    for bits in (128, 256):
        kl = bits // 8
        o = []
        # every byte value in every key byte position and every plaintext byte position (S-box, all columns)
        for x in range(256):
            o.append("L 0 %d %s" % (bits, bytes((x + 37 * i) % 256 for i in range(kl)).hex()))
            o.append("N 0 %s 0" % bytes((x + 91 * i) % 256 for i in range(16)).hex())
        for b in range(bits):
            o.append("L 1 %d %s" % (bits, (1 << b).to_bytes(kl, "big").hex()))
            o.append("N 1 %s 0" % bytes(16).hex())
        o.append("L 1 %d %s" % (bits, bytes(kl).hex()))
        for b in range(128):
            o.append("N 1 %s %d" % ((1 << b).to_bytes(16, "big").hex(), b % 64))
        runs.append(("AES%d structured" % bits, "\n".join(o)))
        o = []
        # many keys, many block counts, in place and apart, schedules interleaved and reloaded
        live = {}
        for t in range(250 if chk.quick else 6000):
            h = r.r.randrange(8)
            if h not in live or r.r.random() < 0.4:
                k = r.rb(kl) if t % 9 else r.r.choice((bytes(kl), b"\xff" * kl, b"\x80" * kl, b"\x1b" * kl))
                if h in live and r.r.random() < 0.5: o.append("R %d" % h)
                o.append("L %d %d %s" % (h, bits, k.hex()))
                live[h] = k
            nb = r.r.choice((0, 1, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 80))
            o.append("N %d %s %d" % (r.r.choice(list(live)), r.rb(16 * nb).hex() or "-", r.r.randrange(64)))
        o.append("N %d %s 0" % (r.r.choice(list(live)), r.rb(16 * 4200).hex()))
        runs.append(("AES%d random" % bits, "\n".join(o)))
    work = [(name + " " + cname(c), drv[c], t + "\n") for name, t in runs for c in cfgs]
    # more than four gigabytes
    for bits in (128, 256):
        for c in cfgs if not chk.quick else cfgs[:1]:
            work.insert(0, ("AES%d long %s" % (bits, cname(c)), drv[c], "L 0 %d %s\nM 0 %s %d 32 256\n" % (bits, r.rb(bits // 8).hex(), r.rb(4096).hex(), 1 << 20)))
    judge_runs(chk, work, "PrimTrace")
    # the OpenSSL-backed cipher has no interface of its own: it shows in the public matrix
    drivers = chk.drivers(configs=[c for c in CONFIGS if c[0] == "AES128"], tag="k")
    sc = {}
    for v in V:
        if v[1] == "AES":
            g = Gen(v[0], "aes%d" % chk.seed)
            for pat in list(patterns(g.p, 16))[:2 if chk.quick else 7]:
                g.K(0, 1, rnd=g.rb(2 * g.p.len) + pat)
                g.E(2, 3, 0)
            g.add("W", 14, (b"\xff" * 16 + g.rb(g.p.bB)).hex())
            g.E(2, 3, 14)
            sc[v] = g.text()
    judge_scripts(chk, drivers, {"matrix": sc}, "conform", skip=lambda n, v, c: slow(c) and chk.quick and v[0] != 640)


def pydrv(v):
    return [VPPY, "-B", "-W", "ignore", os.path.join(HARNESS, "pydrv.py"), os.path.join(REPO, "python3"), "FrodoKEM-%d-%s" % v]


def vconst(v, judge=None):
    c = {"Size": str(v[0]), "Gen": '"%s"' % v[1]}
    if judge: c["Judge"] = '"%s"' % judge
    return c


def C15(chk):
    chk.selfcheck()
    runs, kem = [], []
    for v in V:
        p = Params(v[0])
        g = Gen(v[0], "py%d" % chk.seed)
        o = []
        for x in patterns(p, p.len): o.append("encode " + x.hex())
        for x in range(p.len): o.append("encode " + bytes((x * 8 + i * 11) % 256 for i in range(p.len)).hex())
        # every coefficient value through the rounding function (quick: one generator per size)
        vals = list(range(p.q))
        g.r.shuffle(vals)
        if chk.quick and v[1] == "AES":
            vals = [k * p.R + d for k in range(0, p.q // p.R) for d in (-1, 0, 1)]
            vals = [x % p.q for x in vals] + [0] * (-len(vals) % 64)
        for k in range(0, len(vals), 64):
            o.append("decode " + ",".join(map(str, vals[k:k + 64])))
        for t in range(12 if chk.quick else 100):
            rows, cols = g.r.choice(((8, 8), (8, 16), (16, 8), (4, 24)))
            w = [g.r.choice((0, p.q - 1, 1, p.q >> 1, g.r.randrange(p.q))) for _ in range(rows * cols)]
            if t < p.D: w = [1 << t] * (rows * cols)
            o.append("pack %d %s" % (cols, ",".join(map(str, w))))
            o.append("unpack %d %d %s" % (rows, cols, (p.pack(w) if t % 2 else g.rb(len(p.pack(w)))).hex()))
        for k in range(0, 65536, 4096):
            o.append("sample %d %d" % (k, k + 4096))
        o.append("arow %s %s" % (g.rb(16).hex(), ",".join(map(str, sorted({0, 1, 255, 256, p.n - 1} | {g.r.randrange(p.n) for _ in range(8 if chk.quick else 60)})))))
        if v[1] == "AES":
            for name in ("FrodoKEM-640", "FrodoKEM-512-AES", "FrodoKEM-640-AES ", "frodokem-640-aes", "", "FrodoKEM-976-SHA3", "FrodoKEM-1344-SHAKE256", "Kyber", "eFrodoKEM-640-AES"):
                o.append("new " + (name.encode().hex() or "-"))
        g.o = []
        zero = bytes(16)
        g.K(0, 1, rnd=g.rb(2 * p.len) + zero)
        g.E(2, 3, 0)
        refs = g.o + ["badlen %s %d" % (w, d) for w in ("pk", "ct", "sk") for d in (-1, 1, 16, -16, 2)]
        runs.append(("blocks %d-%s" % v, pydrv(v), "\n".join(o) + "\n", vconst(v)))
        g = Gen(v[0], "pykem%d" % chk.seed)
        rounds = (2 if v[0] == 640 else 1) if chk.quick else 12
        for t in range(rounds):
            g.K(0, 1)
            g.E(2, 3, 0)
            g.D(4, 2, 1)
            g.add("C", 5, 2); g.flip(5, g.r.randrange(8 * p.bB)); g.D(4, 5, 1)
            g.add("C", 5, 2); g.flip(5, 8 * p.bB + g.r.randrange(8 * p.bC)); g.D(4, 5, 1)
            g.add("C", 8, 1); g.flip(8, 8 * p.oH + g.r.randrange(8 * p.len)); g.D(4, 2, 8)
        fringe(g, v[1], (2 if v[0] == 1344 else 4) if chk.quick else 40)
        # keys that share parts with each other, one after the other
        if v[0] == 640 or not chk.quick:
            sA, B1 = g.rb(16), g.rb(p.bB)
            for x, y in ((sA, B1), (sA[:8] + g.rb(8), B1), (g.rb(8) + sA[8:], B1), (sA, g.rb(p.bB)), (sA, B1)):
                g.add("W", 14, (x + y).hex()); g.E(2, 3, 14, mu=bytes(range(p.len)))
        kem.append(("kem %d-%s" % v, pydrv(v), g.text(), vconst(v, "conform")))
        g2 = Gen(v[0], "pyref%d" % chk.seed)
        kem.append(("refusals %d-%s" % v, pydrv(v), "\n".join(refs) + "\n", vconst(v, "refuse")))
    kem.sort(key=lambda r: -int(re.search(r"\d+", r[0]).group()))
    chk.pmap(lambda f: f(), [lambda: judge_runs(chk, kem, "FrodoTrace"), lambda: judge_runs(chk, runs, "BlockTrace"), lambda: together(chk), lambda: own_source(chk)])


def own_source(chk):
    """the implementation's own randomness, with the operating system's replaced by served streams"""
    runs = []
    for v in V if not chk.quick else V[::2]:
        p, o = Params(v[0]), []
        for t in range(250 if chk.quick else 1500):
            o.append("draw %d %d.%d" % (p.rk if t % 3 else p.len, chk.seed, t // 2 if t % 10 == 9 else t))
        for n in (1, 2, 3, 1024): o.append("draw %d x%d" % (n, chk.seed))
        for n in (1, p.len, p.rk): o.append("deny %d y%d" % (n, chk.seed))
        o.append("call z%d" % chk.seed)
        d = pydrv(v); d[4] = os.path.join(HARNESS, "pysrc.py")
        runs.append(("source %d-%s" % v, d, "\n".join(o) + "\n"))
    judge_runs(chk, runs, "SourceTrace")


def together(chk):
    """several variants in one process, on keys with the same seed; the recording is judged variant by variant"""
    vs = [(640, "AES"), (640, "SHAKE"), (976, "SHAKE"), (976, "AES")] if chk.quick else V
    g = {v: Gen(v[0], "together%d" % chk.seed) for v in vs}
    sA, mu, o = g[vs[0]].rb(16), bytes(range(32)), []
    for t, v in enumerate(vs + vs[:2] if chk.quick else 3 * vs):
        x = g[v]; x.o = []
        x.add("W", 14, (sA + x.rb(x.p.bB)).hex()); x.E(2, 3, 14, mu=mu[:x.p.len])
        if t % 2 and v[0] == 640: x.K(0, 1, rnd=mu[:x.p.len] * 2 + sA); x.E(2, 3, 0, mu=mu[:x.p.len]); x.D(4, 2, 1)
        o += ["@ %d" % vs.index(v)] + x.o
    script = "\n".join(o) + "\n"
    out = chk.drive(pydrv(vs[0])[:-1] + ["+".join("FrodoKEM-%d-%s" % v for v in vs)], script)
    ev = [json.loads(l) for l in out.split(b"\n") if l]
    for k, v in enumerate(vs):
        mine = [e for e in ev if e.get("at", k) == k]                    # a crash is everybody's
        f = chk.path("traces", "together_%d_%s.ndjson" % v)
        open(f, "w").write("\n".join(json.dumps({a: b for a, b in e.items() if a != "at"}) for e in mine) + "\n")
        ok, at, n = chk.validate(f, "FrodoTrace", vconst(v, "conform"))
        if not ok:
            if chk.validate(f, "FrodoTrace", vconst(v, "conform"))[:2] != (ok, at): raise CheckError("TLC did not repeat its verdict on %s" % f)
            sf = f.replace(".ndjson", ".script"); open(sf, "w").write(script)
            chk.violation("FrodoKEM-%d-%s in a process with other variants: recorded step %d of %d is not allowed: %s" % (v + (at, n, short(json.dumps(mine[at])))), [f, sf])
    chk.cov["variants_in_one_process"] = len(vs)


def C04(chk):
    chk.selfcheck()
    G, R, F = "FAST_GENERIC", "REFERENCE", "FAST"
    A, N, S = ("AES128", "TRUE"), ("AES128", "FALSE"), ("SHAKE128", "TRUE")
    builds = [(c, "", {}) for c in CONFIGS]
    builds += [(x + (o,), "_clang", dict(cc="clang")) for x in (A, S) for o in (F, G, R)] + [(N + (F,), "_clang", dict(cc="clang"))]
    builds += [(x + (o,), "_" + a, dict(extra=["ARCH=" + a], cflags="-O2 -funsigned-char" if a == "ARM" else None, cc="/usr/bin/gcc"))
               for x in (A, S) for o in (G, R) for a in ("x86", "ARM")]
    # neither byte order announced: the portable conversions
    builds += [(x + (o,), "_bytes", dict(extra=["ARCH=ARM"], cflags="-O2 -U__BYTE_ORDER__", cc="/usr/bin/gcc")) for x in (A, S) for o in (G, R)]
    builds += [(S + (F,), "_O0", dict(cflags="-O0")), (A + (F,), "_O0", dict(extra=["DO_VALGRIND_CHECK=TRUE"])), (S + (G,), "_Os", dict(cflags="-Os")), (N + (G,), "_x86", dict(extra=["ARCH=x86"], cc="/usr/bin/gcc"))]
    if not chk.quick:
        builds += [(c, "_O1c", dict(cc="clang-18", cflags="-O1")) for c in CONFIGS] + [(c, "_O0g", dict(cflags="-O0")) for c in CONFIGS] + \
                  [(c, "_O2", dict(cflags="-O2 -fno-strict-aliasing", cc="/usr/bin/gcc")) for c in CONFIGS]
    dirs = chk.pmap(lambda b: chk.build(b[0], tag=b[1], **b[2]), builds)
    keys = [(b, s, d) for b, d in zip(builds, dirs) for s in SIZES]
    bins = chk.pmap(lambda k: chk.link(k[2], k[1], "kemdrv.c", "drv%d" % k[1]), keys)
    chk.log("built %d drivers of %d builds" % (len(bins), len(builds)))
    swapped = big_endian(chk)
    chk.cov["builds"] = [cname(b[0]) + b[1] for b in builds] + sorted({cname(c) + "_bigendian" for c, _, _ in swapped}) + ["python"]
    jobs = []
    for v in V:
        g = Gen(v[0], "shared%d" % chk.seed)
        p = g.p
        g.K(0, 1)
        g.E(2, 3, 0)
        g.D(4, 2, 1)
        g.add("C", 5, 2); g.flip(5, g.r.randrange(8 * p.ct)); g.D(4, 5, 1)
        first = g.text()
        fringe(g, v[1], 2, hostile=False)
        common = g.text()
        for k in range(2 if chk.quick else 8):
            honest(g, keys=1, encs=2)
        fringe(g, v[1], 10 if chk.quick else 60)
        for k in range(3 if chk.quick else 20):
            g.add("W", 14, (g.rb(16) + (g.rb(p.bB) if k % 3 else (b"\xff", b"\x00")[k // 3 % 2] * p.bB)).hex())
            g.E(2, 3, 14)
            g.add("W", 15, g.rb(p.sk).hex())
            g.D(4, 2, 15)
        full = g.text()
        jobs.append((v, "python", pydrv(v), common))
        jobs += [(v, cname(c) + "_bigendian", binary, first if chk.quick else common) for c, size, binary in swapped if size == v[0] and GEN[c[0]] == v[1]]
        for (b, s, _), binary in zip(keys, bins):
            if s == v[0] and GEN[b[0][0]] == v[1]:
                jobs.append((v, cname(b[0]) + b[1], binary, common if slow(b[0]) else full))
        # many round trips, of which only a condensation is recorded
        for (b, s, _), binary in zip(keys, bins):
            if s == v[0] and GEN[b[0][0]] == v[1] and not slow(b[0]) and "_O0" not in b[1]:
                k = (2 if b[0][2] == R else 5) if chk.quick else 20
                for part in range(1 if chk.quick else 10):
                    jobs.append((v + ("trips%d" % part,), cname(b[0]) + b[1], binary, "".join("T %d %d\n" % (chk.seed * 1000 + 50 * part + t, 30) for t in range(k))))
    jobs.sort(key=lambda j: (j[1] != "python", "_bigendian" not in j[1], "FALSE" not in j[1], "REFERENCE" not in j[1], -j[0][0]))
    outs = chk.pmap(lambda j: chk.drive(j[2], j[3], timeout=600), jobs)
    chk.log("%d executions recorded" % len(jobs))

    # what the emulated machine cannot run says nothing about the library
    able = [not ("_bigendian" in j[1] and any(x in o for x in (b'"how": "9"', b'"how": "timeout"'))) for j, o in zip(jobs, outs)]
    if not all(able): chk.log("not run on the emulated machine: %s" % [j[:2] for j, a in zip(jobs, able) if not a])
    chk.cov["big_endian_executions"] = sum(a and "_bigendian" in j[1] for j, a in zip(jobs, able))
    judge_same(chk, [(j[0], j[1], o) for j, o, a in zip(jobs, outs, able) if a], "function")
    chk.cov["samples"].append({"execution": "%s %s" % jobs[0][:2], "events": [short(l, 60) for l in outs[0].split(b"\n")[:4]]})


def big_endian(chk):
    """[(cfg, size, driver)]: the library compiled for a 32-bit big-endian machine, with that machine emulated. Nothing if the
    library needs more of the C library than the machine has; that is never held against the library."""
    be = os.path.join(HARNESS, "be")
    cc = ["clang", "--target=mips-linux-gnu"]
    flags = "-O2 -w -march=mips32r2 -msoft-float -mno-abicalls -fno-pic -G0 -ffreestanding -fno-builtin -nostdlibinc -I%s -isystem /usr/include/x86_64-linux-gnu -isystem /usr/include" % os.path.join(be, "include")
    def one(k):
        gen, opt, size = k
        d = os.path.join(chk.scratch, "be_%s_%s_%d" % k)
        os.makedirs(os.path.join(d, "frodo%d" % size))
        for x in ("src", "tests", "Makefile"):
            os.symlink(os.path.join(REPO, x), os.path.join(d, x))
        steps = [["make", "-s", "CC=" + " ".join(cc), "AR=llvm-ar-18 rcs", "RANLIB=true", "ARCH=ARM", "OPT_LEVEL=" + opt, "GENERATION_A=" + gen,
                  "USE_OPENSSL=FALSE", "EXTRA_CFLAGS=" + flags, "lib%d_for_KATs" % size],
                 cc + flags.split() + ["-c", os.path.join(be, "run.c"), "-o", "run.o"],
                 ["ld.lld-18", "-m", "elf32btsmip", "-static", "-e", "crypto_kem_keypair_Frodo%d" % size, "--image-base=0x10000", "run.o",
                  "--whole-archive", "frodo%d/libfrodo_for_testing.a" % size, "-o", "image"],
                 ["gcc", "-O3", "-w", "-DSIZE=%d" % size, '-DHDR="api_frodo%d.h"' % size, '-DIMG="%s/image"' % d, "-I" + os.path.join(REPO, "src"),
                  os.path.join(HARNESS, "kemdrv.c"), os.path.join(be, "mips.c"), "-lcrypto", "-o", "drv"]]
        for st in steps:
            p = chk.run(st, cwd=d, timeout=300)
            if p.returncode != 0:
                chk.log("no big-endian build of %s %s %d: %s" % (k + (p.stderr[-300:].decode(errors="replace"),)))
                return None
        return ((gen, "FALSE", opt), size, os.path.join(d, "drv"))
    return [x for x in chk.pmap(one, [(a, o, s) for s in (1344, 976, 640) for a in ("AES128", "SHAKE128") for o in ("FAST_GENERIC", "REFERENCE")]) if x]


def judge_same(chk, recs, judge):
    """recs: [(key, label, recording)]. All different recordings with the same key are put one after the other; the
    same call with the same inputs has to give the same result in each. key starts with size and generator."""
    def one(key):
        distinct = {}
        for k, label, o in recs:
            if k == key:
                distinct.setdefault(o, []).append(label)
        order = sorted(distinct.items(), key=lambda x: -len(x[1]))
        f = chk.path("traces", "same_%s.ndjson" % "_".join(map(str, key)))
        open(f, "wb").write(b"".join(o for o, _ in order))
        ok, at, n = chk.validate(f, "FrodoTrace", vconst(key[:2], judge))
        if not ok:
            ok2, at2, _ = chk.validate(f, "FrodoTrace", vconst(key[:2], judge))
            if ok2 or at2 != at: raise CheckError("TLC did not repeat its verdict")
            k = 0
            while at >= order[k][0].count(b"\n"):
                at -= order[k][0].count(b"\n"); k += 1
            line = order[k][0].split(b"\n")[at]
            chk.violation("FrodoKEM-%s-%s: %s, recorded step %d is not allowed (judge %s)%s: %s" % (key[0], key[1], order[k][1], at, judge,
                          ", unlike in %s" % order[0][1] if k else "", short(line)), [f])
        os.unlink(f)
        return n, len(order)
    keys = sorted({k for k, _, _ in recs}, key=str)
    rs = chk.pmap(one, keys, workers=7)
    for k, x in (("executions_recorded", len(recs)), ("distinct_executions_judged", sum(r[1] for r in rs)), ("trace_events_judged", sum(r[0] for r in rs))):
        chk.cov[k] = chk.cov.get(k, 0) + x


def placed(g, gen, combos, hostile=3):
    """the same calls with the buffers at different places, and hostile contents"""
    p = g.p
    rnd, mu = g.rb(p.rk), g.rb(p.len)
    bad = []
    for k in range(hostile):
        bad.append(((b"\xff", b"\x00")[k] * p.pk if k < 2 else g.rb(p.pk), (b"\xff", b"\x00")[k] * p.ct if k < 2 else g.rb(p.ct), (b"\xff", b"\x00")[k] * p.sk if k < 2 else g.rb(p.sk)))
    g.add("O", 1)
    for t, combo in enumerate(combos):
        g.add("N", (-1, 0, 255, 0x5A)[t % 4])
        for b, (mode, off) in zip((0, 1, 2, 3, 4, 5, 6, 7), combo):
            g.add("A", b, mode, off)
        g.K(0, 1, rnd=rnd)
        g.E(2, 3, 0, mu=mu)
        g.D(4, 2, 1)
        g.flip(2, 77)
        g.D(4, 2, 1)
        pk, ct, sk = bad[t % len(bad)]
        g.add("W", 5, pk.hex()); g.add("W", 6, ct.hex()); g.add("W", 7, sk.hex())
        g.E(2, 3, 5, mu=mu)
        g.D(4, 6, 1)
        g.D(4, 2, 7)
        g.D(4, 6, 7)


def C09(chk):
    chk.selfcheck()
    init = lambda x: dict(cflags="-O3 -ftrivial-auto-var-init=" + x)
    san = dict(cc="clang", cflags="-O1 -g -fsanitize=address -fno-sanitize-recover=address -fno-omit-frame-pointer")
    msan = dict(cc="clang", cflags="-O1 -g -fsanitize=memory -fno-omit-frame-pointer")
    ubs = dict(cc="clang", cflags="-O1 -g -fsanitize=bounds,object-size,null,pointer-overflow -fno-sanitize-recover=all")
    builds = [(c, "", {}) for c in CONFIGS]
    for c in CONFIGS:
        if slow(c) and chk.quick and c[2] == "REFERENCE": continue
        builds += [(c, "_pattern", init("pattern")), (c, "_asan", san)]
        if not chk.quick: builds += [(c, "_zero", init("zero")), (c, "_ubsan", ubs)]
        if c[1] == "FALSE" or c[0] == "SHAKE128": builds += [(c, "_msan", msan)]
    dirs = chk.pmap(lambda b: chk.build(b[0], tag=b[1], **b[2]), builds)
    keys = [(b, s, d) for b, d in zip(builds, dirs) for s in SIZES]

    def link(k):
        b, s, d = k
        kw = {}
        if "san" in b[1]:
            kw = dict(cc="clang", cflags="-O1 -w -g " + " ".join(x for x in b[2]["cflags"].split() if "sanitize" in x))
        return chk.link(d, s, "kemdrv.c", "drv%d" % s, **kw)
    bins = chk.pmap(link, keys)
    chk.log("built %d drivers of %d builds" % (len(bins), len(builds)))
    chk.cov["builds"] = [cname(b[0]) + b[1] for b in builds]
    texts = {}
    for v in V:
        g = Gen(v[0], "place%d" % chk.seed)
        combos = [[(1, 0)] * 8, [(2, 0)] * 8, [(0, 1)] * 8, [(0, 8 * k + 1 + k) for k in range(8)], [(1, 0), (2, 0)] * 4]
        for k in range(3 if chk.quick else 60):
            combos.append([(g.r.choice((0, 0, 1, 2)), g.r.randrange(64)) for _ in range(8)])
        placed(g, v[1], combos)
        full = g.text()
        g = Gen(v[0], "place%d" % chk.seed)
        placed(g, v[1], combos[:2] + combos[-1:], hostile=2)
        texts[v] = (full, g.text())
    jobs = [((s, GEN[b[0][0]], cname(b[0])), b[1] or "plain", binary, texts[s, GEN[b[0][0]]][1 if slow(b[0]) or b[1] in ("_asan", "_msan", "_ubsan") and chk.quick else 0], b[0])
            for (b, s, _), binary in zip(keys, bins)]
    jobs.sort(key=lambda j: (not slow(j[4]), j[4][2] != "REFERENCE", j[1] == "plain", -j[0][0]))
    outs = chk.pmap(lambda j: chk.drive(j[2], j[3], env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1"}), jobs)
    chk.log("%d executions recorded" % len(jobs))
    judge_same(chk, [(j[0], j[1], o) for j, o in zip(jobs, outs)], "clean")
    chk.cov["samples"].append({"execution": "%s %s" % jobs[0][:2], "events": [short(l, 60) for l in outs[0].split(b"\n")[:4]]})


def behaviours(chk, consts, limit=None, **kw):
    """complete behaviours of SysRandom as TLC enumerates them"""
    c = dict(consts)
    c["Record"] = "TRUE"
    r = chk.tlc("SysRandom", consts=c, **kw)
    if r["rc"] != 0: raise CheckError("SysRandom fails: " + r["out"][-800:])
    bs = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"BEHAVIOUR", "(.*)">>', r["out"])]
    return bs


def rand_driver(chk, cfg, size, **kw):
    """randombytes from the library the Makefile builds, its system calls renamed"""
    d = chk.build(cfg, (size,), **kw)
    lib = os.path.join(d, "frodo%d" % size, "libfrodo.a")
    w = os.path.join(d, "rnd")
    os.makedirs(w)
    chk.run(["ar", "x", lib], cwd=w, check=True)
    objs = []
    for o in sorted(os.listdir(w)):
        syms = chk.run(["nm", o], cwd=w, check=True).stdout.decode()
        if re.search(r" T randombytes$", syms, re.M): objs.append(o)
    if len(objs) != 1: raise CheckError("no unique object with randombytes in " + lib)
    ren = []
    for s in ("open", "open64", "__open_2", "__open64_2", "openat", "openat64", "read", "close", "getrandom", "getentropy", "fcntl", "fcntl64", "fopen", "fopen64", "syscall", "__read_chk"):
        ren += ["--redefine-sym", "%s=fk_%s" % (s, s)]
    chk.run(["objcopy"] + ren + [objs[0], "renamed.o"], cwd=w, check=True)
    others = [o for o in sorted(os.listdir(w)) if o not in objs + ["renamed.o"]]
    chk.run(["ar", "rcs", "rest.a"] + others, cwd=w, check=True)
    san = [x for x in (kw.get("cflags") or "").split() if "sanitize" in x]
    f = os.path.join(d, "randdrv")
    chk.run([kw.get("cc", "gcc"), "-O1", "-w", "-g"] + san + [os.path.join(HARNESS, "randdrv.c"), "renamed.o", "rest.a", "-lcrypto", "-lpthread", "-o", f], cwd=w, check=True)
    return f


def windows_driver(chk):
    """the same function as compiled for Windows, on a stand-in for the system's interface; None if it needs more of it"""
    d = os.path.join(chk.scratch, "win"); os.makedirs(d)
    src = os.path.join(REPO, "src/random/random.c")
    if not os.path.exists(src): return None
    inc = ["-I" + os.path.join(HARNESS, "win"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "src/random")]
    p = chk.run(["gcc", "-O2", "-w", "-Werror=implicit-function-declaration", "-DWINDOWS", "-D_AMD64_"] + inc + ["-c", src, "-o", "random.o"], cwd=d)
    if p.returncode != 0: chk.log("the Windows source does not build on the stand-in"); return None
    f = os.path.join(d, "windrv")
    p = chk.run(["gcc", "-O1", "-w", os.path.join(HARNESS, "randdrv.c"), "random.o", "-lpthread", "-o", f], cwd=d)
    return f if p.returncode == 0 else None


def C08(chk):
    side = cf.ThreadPoolExecutor(max_workers=4)
    # the model itself, in all its states, and that the model can tell (publishing without the exchange leaks)
    big = {} if chk.quick else {"Faults": "3", "Lengths": "{0, 1, 3}"}
    three = {"Threads": "3", "Requests": "1", "Lengths": "{1, 2}", "Faults": "1" if chk.quick else "2"}
    jobs = [side.submit(chk.model, "SysRandom", consts=big, workers=2), side.submit(chk.model, "SysRandom", consts=three, workers=2),
            side.submit(chk.model, "SysRandom", cfg="SysRandomLive")]
    sick = side.submit(chk.tlc, "SysRandom", consts={"Publish": '"plain"'})
    one = {"Threads": "1", "Requests": "2", "Lengths": "{1, 3}" if chk.quick else "{0, 1, 2, 4}", "Faults": "3" if chk.quick else "4"}
    two = {"Threads": "2", "Requests": "1", "Lengths": "{2}" if chk.quick else "{1, 2}", "Faults": "2"}
    tri = {"Threads": "3", "Requests": "1", "Lengths": "{1}", "Faults": "0"}
    sets = chk.pmap(lambda c: behaviours(chk, c, workers=2), [one, two, tri] + ([] if chk.quick else [{"Threads": "3", "Requests": "1", "Lengths": "{1}", "Faults": "1"}]))
    r = Gen(640, "rand%d" % chk.seed).r
    lines = []
    for bs in sets:
        cap = 5000 if chk.quick else 60000
        if len(bs) > cap: bs = r.sample(bs, cap)
        for b in bs:
            lines.append("S 0 " + " ".join("%d:%s:%d" % (h["t"], {"ask": "k", "open": "o", "read": "r"}[h["a"]], h["r"]) for h in b))
    chk.cov["behaviours_of_the_model_replayed"] = len(lines)
    chk.log("%d behaviours generated" % len(lines))
    # longer ones: real lengths, short reads of every size at every place, long runs of failures
    def seq(n, reads, opens=0): return "S 0 1:k:%d " % n + "1:o:-1 " * opens + "1:o:1 " + " ".join("1:r:%d" % x for x in reads)
    for n in (0, 1, 15, 16, 24, 32, 48, 64, 80, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 9000):
        lines.append(seq(n, []))
        for k in {1, 2, n // 2, n - 1, n - 16, 255, 256} & set(range(1, n)): lines.append(seq(n, [k])); lines.append(seq(n, [-1, k, -1, -1])); lines.append(seq(n, [k, -1, k]))
        lines.append(seq(n, [1] * min(n, 300), 2)); lines.append(seq(n, [-1] * 40 + [1, -1] * 20, 30))
    for n in (16, 48, 64, 80):
        for k in range(1, n): lines.append(seq(n, [k]))
        for t in range(10 if chk.quick else 200): lines.append(seq(n, [r.choice((-1, 0, 1, 2, r.randrange(1, n))) for _ in range(40)], r.randrange(4)))
    for t in range(20 if chk.quick else 400):       # many requests, one after the other and overlapping
        nt = r.choice((1, 2, 3, 5, 8))
        acts = []
        for _ in range(r.randrange(10, 60)):
            x = r.randrange(1, nt + 1)
            acts.append(r.choice(("%d:k:%d" % (x, r.choice((0, 1, 16, 48, 80, 300))), "%d:o:%d" % (x, r.choice((1, 1, -1))), "%d:r:%d" % (x, r.choice((-1, 0, 1, 7, 16, 10 ** 6))))))
        lines.append("S 0 " + " ".join(acts))
    for p in (1, 2): lines += ["S %d 1:k:%d" % (p, n) for n in (1, 16, 48)] + ["S %d 1:k:16 2:k:16" % p]
    for a in (0, 1, 16, 48, 80): lines += ["P %d %d %d" % (a, b, c) for b, c in ((16, 16), (48, 48), (1, 64), (300, 16))]
    M = 1 << 31
    for n in (M - 1, M, M + 5, 2 * M - 1, 2 * M, 2 * M + 16, 3 * M + 7, 5 * M):
        lines += ["G %d" % n, "G %d 5 -1 4096 1000000000 -1" % n]
    for t in range(6 if chk.quick else 60): lines.append("F %d %d %d %d" % (2 + t % 7, 60 if chk.quick else 300, 2 + 40 * (t % 3), chk.seed * 100 + t))
    builds = [(("AES128", "TRUE", "FAST"), 640, {}), (("SHAKE128", "TRUE", "REFERENCE"), 1344, dict(cc="clang", cflags="-O2"))]
    if not chk.quick: builds += [(("AES128", "FALSE", "FAST_GENERIC"), 976, {}), (("SHAKE128", "TRUE", "FAST"), 976, dict(cflags="-O0", tag="_O0"))]
    bins = chk.pmap(lambda b: rand_driver(chk, b[0], b[1], **b[2]), builds)
    runs = []
    parts = 12
    for b, f in zip(builds, bins):
        for k in range(parts):
            runs.append(("%s %d part %d" % (cname(b[0]), b[1], k), f, "\n".join(lines[k::parts]) + "\n"))
    win = windows_driver(chk)
    if win:
        wl = []
        for n in (0, 1, 16, 24, 32, 48, 64, 80, 255, 4097):
            wl += ["S 0 1:k:%d" % n, "S 0 1:k:%d 1:r:-1" % n, "S 0 1:k:%d 1:r:-1 1:k:%d" % (n, n), "S 2 1:k:%d" % n] + ["S 0 1:k:%d 1:r:1 1:k:16 1:r:%d 2:k:%d 2:r:%d 1:k:48" % (n, x, n, y) for x in (1, -1) for y in (1, -1)]
        wl += ["G %d" % n for n in (M - 1, M, M + 5, 2 * M - 1, 2 * M, 2 * M + 16, 3 * M + 7, 5 * M)] + ["P 16 16 48"]
        runs.append(("the Windows source", win, "\n".join(wl) + "\n"))
    chk.cov["windows_source"] = bool(win)
    judge_runs(chk, runs, "RandTrace", timeout=700)
    for j in jobs: j.result()
    if "Invariant NoLeak is violated" not in sick.result()["out"]: raise CheckError("the model does not tell a leaking publication from a sound one")
    chk.cov["model_variant_refuted"] = "publication without compare-and-exchange violates NoLeak, as it has to"


def ideal_behaviours(chk, n, consts, depth=70):
    c = dict(consts)
    c["Record"] = "TRUE"
    r = chk.tlc("FrodoIdeal", consts=c, args=["-simulate", "num=%d" % n, "-depth", str(depth), "-seed", str(chk.seed)])
    if r["rc"] != 0: raise CheckError("FrodoIdeal fails: " + r["out"][-800:])
    bs = [json.loads(json.loads('"%s"' % m)) for m in re.findall(r'<<"BEHAVIOUR", "(.*)">>', r["out"])]
    m = re.search(r"number of states generated: (\d+)", r["out"])
    if m: chk.cov["states_simulated"] = chk.cov.get("states_simulated", 0) + int(m.group(1))
    out = []
    for b in bs:                       # a behaviour printed again with more edits replaces the shorter one
        if out and b[:len(out[-1])] == out[-1]: out[-1] = b
        else: out.append(b)
    return out


NAMES = {n: i for i, n in enumerate(("pk1", "pk2", "sk1", "sk2", "ct1", "ct2", "ss1", "ss2"))}


def thread_script(g, b):
    """a behaviour of FrodoIdeal as a script for thrdrv"""
    p, o, ops = g.p, [], {}
    for h in b:
        if h["a"] == "begin":
            c = h["c"]
            ops[h["t"]] = c["op"]
            names = {"keygen": ("pk", "sk"), "encaps": ("ct", "ss", "pk"), "decaps": ("ss", "ct", "sk")}[c["op"]]
            o.append("b %d %s %s" % (h["t"], {"keygen": "K", "encaps": "E", "decaps": "D"}[c["op"]], " ".join(str(NAMES[c[x]]) for x in names)))
        elif h["a"] == "draw":
            o.append("d %d %s" % (h["t"], "!" if h["fail"] else g.rb(p.rk if ops[h["t"]] == "keygen" else p.len).hex()))
        elif h["a"] == "end":
            o.append("e %d" % h["t"])
        elif h["a"] == "copy":
            o.append("C %d %d" % (NAMES[h["b"]], NAMES[h["s"]]))
        else:
            b, part = h["b"], h["part"]
            off, ln = {"ct1": (0, p.bB), "ct2": (p.bB, p.bC), "pk1": (0, 16), "pk2": (16, p.bB), "sk2": (0, p.len), "sk3": (p.oPk, p.pk), "sk4": (p.oS, p.bS), "sk5": (p.oH, p.len)}[b[:2] + str(part)]
            o.append("F %d %d" % (NAMES[b], 8 * off + g.r.randrange(8 * ln)))
    return o


def related(g, gen):
    """registered calls on keys and ciphertexts that share parts with each other"""
    p, o = g.p, []
    P = lambda b, x: o.append("W %d %s" % (b, x.hex()))
    r1, r2 = g.rb(p.rk), g.rb(p.rk)
    r3 = g.rb(2 * p.len) + r1[2 * p.len:]                 # the same public matrix, another key
    r4 = r1[:2 * p.len] + r2[2 * p.len:]                  # the same secrets, another matrix
    for r in (r1, r2, r3, r4): o.append("r K " + r.hex())
    o.append("r K !")
    seed = g.rb(16)
    B1, B2 = g.rb(p.bB), g.rb(p.bB)
    near = bytearray(seed); near[15] ^= 1
    far = bytearray(seed); far[0] ^= 128
    def bend(x, i, m=1): y = bytearray(x); y[i] ^= m; return bytes(y)
    pks = [seed + B1, seed + B2, bytes(near) + B1, bytes(far) + B1, seed[:8] + bytes(near)[8:] + B2,
           bend(seed + B1, 16 + p.bB // 2), bend(seed + B1, 15 + p.bB), bend(seed + B1, 200), bend(seed + B1, 16 + p.bB - 200)]
    for k, pk in enumerate(pks): P(k, pk)
    mu, mu2 = g.rb(p.len), g.rb(p.len)
    for k in range(len(pks)): o.append("r E %d %s" % (k, mu.hex()))
    o.append("r E 0 " + mu2.hex()); o.append("r E 1 " + mu2.hex()); o.append("r E 0 !")
    # keys and ciphertexts that match, and relatives of them
    g2 = Gen(p.n, "related")
    St = p.sample(g_words(g2, 8 * p.n)).reshape(8, p.n)
    g2.crafted(gen, seed, St, np.zeros(64))
    sk, ct = (bytes.fromhex([x for x in g2.o if x.startswith("W %d " % b)][-1].split()[2]) for b in (13, 11))
    sks = [sk, bend(sk, 3), bend(sk, p.oH + 1), bend(sk, p.oS + 10), bend(sk, p.oPk + 15), bend(sk, p.oPk + 100), bend(sk, p.oS + p.bS // 2), bend(sk, p.oS + p.bS - 2), bend(sk, p.oS - 1)]
    cts = [ct, bend(ct, 5), bend(ct, p.ct - 1), g.rb(p.ct)]
    for k, x in enumerate(sks): P(10 + k, x)
    for k, x in enumerate(cts): P(20 + k, x)
    for k in range(len(sks)): o.append("r D 20 %d" % (10 + k))
    for k in range(1, len(cts)): o.append("r D %d 10" % (20 + k))
    o.append("r D 21 11")
    return o


def judge_threads(chk, binary, label, script, v, alone_cache):
    """record, find out what each call returns alone in a new process of the same build, return (trace, alone table)"""
    out = chk.drive(binary, script, timeout=400)
    ids, vals, events = {}, {}, []
    def intern(h): return ids.setdefault(h, len(ids))
    mem, cur, want = {}, {}, {}
    tr = lambda x: -1 if x < 0 else intern(vals[x])
    for line in out.splitlines():
        e = json.loads(line)
        if e["e"] == "val": vals[e["id"]] = e["hex"]; continue
        for k in ("v", "o1", "o2", "i1", "i2", "rnd"):
            if k in e: e[k] = tr(e[k])
        if e["e"] == "write": mem[e["b"]] = e["v"]
        elif e["e"] == "begin": cur[e["t"]] = dict(e)
        elif e["e"] == "draw": cur[e["t"]]["r"] = e["v"]
        elif e["e"] == "end":
            c = cur[e["t"]]
            if e["ret"] == 0 or c.get("r", -1) >= 0 or c["op"] == "D":
                k = ("K", c.get("r", -1), -1) if c["op"] == "K" else ("E", mem.get(c["pk"], -1), c.get("r", -1)) if c["op"] == "E" else ("D", mem.get(c["ct"], -1), mem.get(c["sk"], -1))
                want[k] = 1
            if e["ret"] == 0:
                a, b = {"K": ("pk", "sk"), "E": ("ct", "ss"), "D": ("ss", None)}[c["op"]]
                mem[c[a]] = e["o1"]
                if b: mem[c[b]] = e["o2"]
        elif e["e"] == "done" and not e["fail"]:
            want[("K", e["rnd"], -1) if e["op"] == "K" else ("E", e["i1"], e["rnd"]) if e["op"] == "E" else ("D", e["i1"], e["i2"])] = 1
        events.append(e)
    back = {i: h for h, i in ids.items()}
    alone = []
    for k in want:
        op, a, b = k
        if a not in back or (op != "K" and b not in back): continue        # a call without its randomness: no action allows it
        hk = (binary, op, back[a], back.get(b))
        with chk.lock: r = alone_cache.get(hk)
        if r is None:
            s = {"K": "r K %s\n" % back[a], "E": "W 0 %s\nr E 0 %s\n" % (back[a], back.get(b)), "D": "W 0 %s\nW 1 %s\nr D 0 1\n" % (back[a], back.get(b))}[op]
            o = chk.drive(binary, s + "X 1 1 1\n", timeout=200)
            vv, r = {}, None
            for line in o.splitlines():
                e = json.loads(line)
                if e["e"] == "val": vv[e["id"]] = e["hex"]
                elif e["e"] == "done": r = (e["ret"], vv.get(e["o1"]), vv.get(e["o2"]))
            if r is None: r = (-1, None, None)
            with chk.lock: alone_cache[hk] = r
        alone.append({"k": list(k), "r": [r[0]] + [-1 if x is None else intern(x) for x in r[1:]]})
    dump = lambda xs: "".join(json.dumps(x) + "\n" for x in xs)
    return dump(events), dump(alone or [{"k": ["none", -1, -1], "r": [-1, -2, -2]}])


def C10(chk):
    side = cf.ThreadPoolExecutor(max_workers=2)
    model = side.submit(chk.model, "FrodoIdeal", consts={} if chk.quick else {"MaxEdit": "2"}, workers=3, heap="8g", timeout=3000)
    bs = ideal_behaviours(chk, 60 if chk.quick else 1500, {"Threads": "4", "MaxCalls": "8", "MaxFail": "2", "MaxEdit": "2"})
    bs += ideal_behaviours(chk, 30 if chk.quick else 800, {"Threads": "8", "MaxCalls": "14", "MaxFail": "2", "MaxEdit": "2"}, depth=120)
    bs = [b for b in bs if len(b) > 12]
    chk.cov["behaviours_of_the_model_replayed"] = len(bs)
    chk.log("%d behaviours generated" % len(bs))
    tsan = dict(cc="clang", cflags="-O1 -g -fsanitize=thread -fno-omit-frame-pointer", tag="_tsan")
    dirs = dict(zip(CONFIGS, chk.pmap(lambda c: chk.build(c), CONFIGS)))
    def repeated():
        # the same calls again and again, more often than a sixteen-bit counter can count
        recs = []
        for g_, n, k in (("AES128", 100, 170), ("SHAKE128", 100, 170)) if chk.quick else (("AES128", 500, 400), ("SHAKE128", 500, 400)):
            c = (g_, "TRUE", "FAST")
            recs.append((c, (640, GEN[g_]), "T 7 %d\n" % n * k))
            recs.append((c, (640, GEN[g_]), "T 8 5\n" * 40 + "T 9 5\n" + "T 8 5\n" * 40))
        kb = {c: chk.link(dirs[c], 640, "kemdrv.c", "kemdrv640") for c in {r[0] for r in recs}}
        outs = chk.pmap(lambda r: chk.drive(kb[r[0]], r[2]), recs)
        judge_same(chk, [(r[1] + ("again%d" % i,), cname(r[0]), o) for i, (r, o) in enumerate(zip(recs, outs))], "function")
    again = side.submit(repeated)
    tcfg = CONFIGS if not chk.quick else [c for c in CONFIGS if c[2] != "REFERENCE" or not slow(c)]
    tdirs = dict(zip(tcfg, chk.pmap(lambda c: chk.build(c, **tsan), tcfg)))
    jobs = [(c, s, dirs[c], "drv", {}) for c in CONFIGS for s in SIZES]
    tsizes = SIZES if not chk.quick else (640,)
    tj = dict(cc="clang", cflags="-O1 -w -g -fsanitize=thread")
    for c in tcfg:
        for s in tsizes:
            jobs.append((c, s, tdirs[c], "tsandrv", tj))
            jobs.append((c, s, tdirs[c], "tsanrealdrv", dict(tj, cflags=tj["cflags"] + " -DREALRANDOM", lib="frodo")))
    bins = chk.pmap(lambda j: chk.link(j[2], j[1], "thrdrv.c", j[3] + str(j[1]), **j[4]), jobs)
    chk.log("built %d drivers" % len(bins))
    cache, work = {}, []
    scripts = {}
    for v in V:
        g = Gen(v[0], "thr%d" % chk.seed)
        texts = [("replayed", sum((thread_script(g, b) for b in (bs if v[0] == 640 else bs[:len(bs) // 2])), []))]
        rel = related(g, v[1])
        texts.append(("history", rel + ["X 1 %d %d" % (150 if chk.quick else 1500, chk.seed)]))
        texts.append(("stress", rel + ["X 8 %d %d" % (40 if chk.quick else 400, chk.seed)]))
        few = sum((thread_script(g, b) for b in bs[:4]), [])
        scripts[v] = {k: "\n".join(t) + "\n" for k, t in texts}
        scripts[v]["few"] = "\n".join(few + rel + ["X 6 4 %d" % chk.seed]) + "\n"
        scripts[v]["tsan"] = "\n".join(rel + ["X 4 %d %d" % (8 if chk.quick else 60, chk.seed)]) + "\n"
    env = {"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 report_thread_leaks=0 second_deadlock_stack=1"}
    os.environ.update(env)
    for (c, s, d, name, kw), b in zip(jobs, bins):
        v = (s, GEN[c[0]])
        if "tsan" in name: work.append((c, v, b, "tsan", name))
        elif slow(c) and chk.quick: work.append((c, v, b, "few", name))
        else: work += [(c, v, b, k, name) for k in ("replayed", "history", "stress")]
    work.sort(key=lambda w: (not slow(w[0]), w[0][2] != "REFERENCE", -w[1][0]))
    recs = chk.pmap(lambda w: judge_threads(chk, w[2], cname(w[0]), scripts[w[1]][w[3]], w[1], cache), work)
    groups = {}
    for w, (t, a) in zip(work, recs): groups.setdefault((t, a), []).append(w)
    chk.log("%d executions recorded, %d distinct, %d calls made alone" % (len(work), len(groups), len(cache)))
    deepest = [0]

    def one(x):
        (t, a), ws = x
        f = chk.path("traces", "thr_%s_%d%s_%s.ndjson" % (cname(ws[0][0]), ws[0][1][0], ws[0][1][1], ws[0][3] + ws[0][4]))
        open(f, "w").write(t); open(f + ".alone", "w").write(a)
        ok, at, n = chk.validate(f, "FrodoThreads", env={"ALONE": f + ".alone"})
        if not ok:
            ok2, at2, _ = chk.validate(f, "FrodoThreads", env={"ALONE": f + ".alone"})
            if ok2 or at2 != at: raise CheckError("TLC did not repeat its verdict on %s" % f)
            open(f + ".script", "w").write(scripts[ws[0][1]][ws[0][3]])
            chk.violation("%s: recorded step %d of %d is not what the call returns alone: %s" % (", ".join("%s %d %s" % (cname(w[0]), w[1][0], w[3] + w[4]) for w in ws)[:300], at, n, t.split("\n")[at][:600]), [f, f + ".alone", f + ".script"])
        os.unlink(f)
        return n
    ns = chk.pmap(one, sorted(groups.items(), key=lambda x: -len(x[0][0])), workers=6)
    chk.cov.update({"executions_recorded": len(work), "distinct_executions_judged": len(groups), "trace_events_judged": sum(ns), "calls_made_alone": len(cache)})
    (t, _), ws = max(groups.items(), key=lambda x: len(x[1]))
    chk.cov["samples"].append({"executions": ["%s %d %s" % (cname(w[0]), w[1][0], w[3] + w[4]) for w in ws][:5], "events": t.split("\n")[:6]})
    again.result()
    r = model.result()
    chk.cov["symbolic_model_states"] = r["distinct"]


WRAP = " ".join("-Wl,--wrap=" + f for f in ("shake128", "shake256", "shake128_absorb", "shake256_absorb", "shake128_squeezeblocks", "shake256_squeezeblocks"))


def C12(chk):
    chk.selfcheck()
    builds = [(c, s, {}) for c in CONFIGS for s in SIZES if not (chk.quick and c[2] == "REFERENCE" and (s != 640 or slow(c)))]
    cl = [c for c in CONFIGS if c[2] != "REFERENCE" and not slow(c)] if chk.quick else CONFIGS
    builds += [(c, s, dict(cc="clang", tag="_clang")) for c in cl for s in SIZES]
    builds += [(c, s, dict(cflags="-O1", tag="_O1")) for c in cl for s in SIZES] if not chk.quick else []
    dirs = {}
    for c, s, kw in builds: dirs.setdefault((c, kw.get("tag", "")), (c, kw))
    ds = dict(zip(dirs, chk.pmap(lambda x: chk.build(x[0], **x[1]), dirs.values())))
    bins = chk.pmap(lambda b: chk.link(ds[b[0], b[2].get("tag", "")], b[1], "resdrv.c", "resdrv%d" % b[1], libs="-lcrypto -lpthread " + WRAP), builds)
    chk.log("built %d drivers" % len(bins))
    runs = []
    for (c, s, kw), f in zip(builds, bins):
        v = (s, GEN[c[0]])
        g = Gen(s, "res%d" % chk.seed)
        o = []
        for t in range(6 if chk.quick or slow(c) else 24):
            o += ["K " + g.rb(g.p.rk).hex(), "E " + g.rb(g.p.len).hex(), "D -1", "D %d" % (g.r.randrange(8 * g.p.bB) if t % 2 else 8 * g.p.bB + g.r.randrange(8 * g.p.bC))]
        runs.append(("%s%s %d" % (cname(c), kw.get("tag", ""), s), f, "\n".join(o) + "\n", vconst(v)))
    judge_runs(chk, runs, "ResidueTrace")
    chk.assumptions += ["the hash functions' own stack frames and processor registers are not searched"]


SEEN = ("-g -fno-builtin -fsanitize=kernel-address -mllvm -asan-stack=0 -mllvm -asan-globals=0 -mllvm -asan-instrumentation-with-call-threshold=0 "
        "-mllvm -asan-opt-same-temp=0 -fsanitize-coverage=trace-pc,no-prune")
SEENWRAP = " ".join("-Wl,--wrap=" + f for f in ("memcpy", "memmove", "memset", "memcmp", "bcmp", "strncmp"))


def secrets_script(g, keys, more):
    """calls with the same public values and different secrets"""
    p, o = g.p, []
    ext = [b"\0" * p.len, b"\xff" * p.len, b"\x80" + b"\0" * (p.len - 1), b"\0" * (p.len - 1) + b"\x01", b"\x01\x02" * (p.len // 2)]
    for k in range(keys):
        z = g.rb(16)
        for x in range(2 + more): o.append("K " + (g.rb(2 * p.len) + z).hex())
        o.append("K " + (ext[k % 5] + ext[(k + 1) % 5] + z).hex())
        o.append("K " + (g.rb(2 * p.len) + z).hex())                          # the key pair used from here on
        for x in range(2 + more): o.append("E " + g.rb(p.len).hex())
        for e in ext[:2 + more]: o.append("E " + e.hex())
        o.append("E " + g.rb(p.len).hex())
        noise = lambda: b"".join(int(g.r.randrange(-11, 12) % 65536).to_bytes(2, "little") for _ in range(8 * p.n))
        def others(n):                                                          # other secret keys for the same public key
            o.append("D")
            o.append("X S 0 " + g.rb(p.len).hex()); o.append("D")
            bits = [8 * (p.oS + 2 * g.r.randrange(8 * p.n)) for _ in range(n)]
            for b in bits: o.append("B S %d" % b); o.append("D")
            for b in bits: o.append("B S %d" % b)
        others(2 + more)
        # altered in one place only: with the right key the message still comes out
        for bit in ([8 * p.ct - 8, 8 * p.bB - 8] if not more else [8 * p.ct - 8, 8 * p.bB - 8, 0, 8 * p.bB, 8 * p.bB + 8 * 30, 8 * 1000]):
            o.append("B C %d" % bit); others(1); o.append("B C %d" % bit)
        for S in [noise(), b"\0" * (16 * p.n), b"\xff" * (16 * p.n)][:1 + 2 * (more > 0)]:
            o.append("X S %d %s" % (p.oS, S.hex())); o.append("X S 0 " + ext[k % 5].hex()); o.append("D")
    return "\n".join(o) + "\n"


def where_apart(chk, binary, script, out, at):
    """where the execution recorded in line `at` parts from an earlier one with the same public values"""
    try:
        ev = [json.loads(x) for x in out.splitlines()]
        e = ev[at]
        same = lambda a: a["e"] == e["e"] and all(a[k] == e[k] for k in ("ct", "pk")) if e["e"] != "keygen" else a["e"] == "keygen" and a["rnd"][-32:] == e["rnd"][-32:]
        first = next(i for i in range(1, at) if same(ev[i]))
        chunk = next((i for i, (a, b) in enumerate(zip(ev[first]["seen"], e["seen"])) if a != b), min(len(ev[first]["seen"]), len(e["seen"])) - 1)
        f = chk.path("dump%s" % abs(hash(binary)))
        chk.drive(binary, script, env={"LEAK_DUMP": "%d:%d:%d:%s" % (first - 1, at - 1, chunk, f)})
        a, b = (np.fromfile(f + x, dtype=np.uint64) for x in (".0", ".1"))
        for x in (".0", ".1"): os.unlink(f + x)
        n = min(len(a), len(b))
        d = np.flatnonzero(a[:n] != b[:n])
        k = int(d[0]) if len(d) else n
        pcs = [int(x) & ((1 << 48) - 1) for x in a[max(0, k - 4000):k + 1] if int(x) >> 60 == 1]
        sym = chk.run(["addr2line", "-fe", binary] + [hex(x) for x in pcs[-2:]]).stdout.decode().split("\n")
        return " (apart from call %d at step %d of chunk %d, near %s)" % (first, k, chunk, " ".join(x for x in sym if x))
    except Exception as x:
        return " (place not determined: %s)" % x


FOLLOWED = "-fsanitize=memory -fsanitize-recover=memory -fno-sanitize-memory-param-retval"
FOLLOWWRAP = " ".join("-Wl,--wrap=" + f for f in ("__msan_warning", "__msan_warning_with_origin", "memcmp", "bcmp", "strncmp"))


def hidden_script(g, keys):
    """calls whose secret inputs are followed"""
    p, o = g.p, []
    dec = "D 0:%d %d:%d" % (p.len, p.oS, 16 * p.n)
    if not keys:
        o += ["K %s 0:%d" % (g.rb(p.rk).hex(), 2 * p.len), "E %s 0:%d" % (g.rb(p.len).hex(), p.len), dec, "B %d" % (8 * p.ct - 8), dec, "W %d %s" % (p.oS, g.rb(16 * p.n).hex()), dec]
    for k in range(keys):
        o.append("K %s 0:%d" % (g.rb(p.rk).hex(), 2 * p.len))
        for mu in (g.rb(p.len), [b"\0", b"\xff"][k % 2] * p.len):
            o += ["E %s 0:%d" % (mu.hex(), p.len), dec]
            for bit in (8 * p.ct - 8, g.r.randrange(8 * p.bB), 8 * p.bB + g.r.randrange(8 * p.bC)): o += ["B %d" % bit, dec, "B %d" % bit]
        o += ["W %d %s" % (p.oS, g.rb(16 * p.n).hex()), dec, "W %d %s" % (p.oS, "00" * (16 * p.n)), "W 0 " + "00" * p.len, dec]
        o += ["P 16 " + "ff" * (p.pk - 16), "E %s 0:%d" % (g.rb(p.len).hex(), p.len)]
    return "\n".join(o) + "\n"


def followed(chk):
    """taint: no branch and no address may depend on the bytes the specification calls secret"""
    # clang takes a minute over the vectorised permutation at -O0
    builds = [(c, o) for c in CONFIGS[::-1] for o in (("1" if c[0] == "SHAKE128" and c[2] == "FAST" else "0",) if chk.quick else ("0", "1", "2", "3", "s"))]
    plain = [(c, cc) for c in CONFIGS for cc in ("gcc", "clang") if not chk.quick or not slow(c) and (cc == "gcc" or c[1:] == ("TRUE", "FAST_GENERIC"))]
    def make(b):
        if b[1] in ("gcc", "clang"):                       # the compiler's own code, which memcheck follows
            return chk.build(b[0], cc=b[1], cflags="-O3 -g" + (" -mno-avx512f" if b[1] == "gcc" else ""), tag="_plain_" + b[1])
        return chk.build(b[0], cc="clang", cflags="-O%s -g -fno-builtin %s" % (b[1], FOLLOWED), tag="_follow" + b[1])
    ds = chk.pmap(make, builds + plain)
    keys = [(b, s, d) for b, d in zip(builds + plain, ds) for s in SIZES if not (chk.quick and s != 640 and (slow(b[0]) or b[1] == "clang" or b[1] == "gcc" and b[0][2] != "FAST"))]
    def link(k):
        if k[0][1] in ("gcc", "clang"):
            return chk.link(k[2], k[1], "taintdrv.c", "taintdrv%d" % k[1], cc=k[0][1], cflags="-O1 -w -no-pie -DUNDER_VALGRIND")
        return chk.link(k[2], k[1], "taintdrv.c", "taintdrv%d" % k[1], cc="clang", cflags="-O1 -w -no-pie " + FOLLOWED, libs="-lcrypto -lpthread " + FOLLOWWRAP)
    bins = chk.pmap(link, keys)
    chk.log("built %d drivers" % len(bins))
    runs = []
    for (b, s, _), f in zip(keys, bins):
        vg = b[1] in ("gcc", "clang")
        cmd = ["valgrind", "-q", "--error-limit=no", "--expensive-definedness-checks=yes", "--log-file=" + f + ".log", f] if vg else ["env", "MSAN_OPTIONS=exit_code=0:halt_on_error=0", f]
        runs.append(("%s_%s %d followed" % (cname(b[0]), b[1] if vg else "O" + b[1], s), cmd,
                     hidden_script(Gen(s, "flow%d" % chk.seed), 0 if chk.quick and vg else 1 if chk.quick or slow(b[0]) else 6), vconst((s, GEN[b[0][0]]))))
    runs.sort(key=lambda r: ("FALSE" not in r[0], "REFERENCE" not in r[0]))

    def memchecked(run, out):
        """memcheck itself gives up on instructions it does not know: no statement about the code"""
        log = run[1][-1] + ".log"
        said = open(log, errors="replace").read() if os.path.exists(log) else ""
        if run[1][0] != "valgrind" or (out.startswith(b'{"e":"start"}') and "nrecognised instruction" not in said and "valgrind: " not in said): return True
        chk.cov["not_followed"] = chk.cov.get("not_followed", 0) + 1
        return False

    def places(chk, cmd, script, out, at):
        if cmd[0] == "valgrind":
            return " (%s)" % "; ".join(re.sub(r"^==\d+== *", "", l) for l in open(cmd[-1] + ".log", errors="replace").read().split("\n")[:4])
        e = json.loads(out.split(b"\n")[at])
        return " (at %s)" % "; ".join(" ".join(chk.run(["addr2line", "-fe", cmd[-1], x]).stdout.decode().split()) for x in e.get("where", [])[:4])
    judge_runs(chk, runs, "LeakTrace", explain=places, usable=memchecked)


def C11(chk):
    chk.selfcheck()
    followed(chk)
    if chk.violations: return
    chk.varied = None
    builds = [(c, "_O0", "-O0 ") for c in CONFIGS] + [(c, "_O3", "-O3 ") for c in CONFIGS if not slow(c) and (not chk.quick or c[2] != "REFERENCE")]
    ds = chk.pmap(lambda b: chk.build(b[0], cc="clang", cflags=b[2] + SEEN, tag=b[1]), builds)
    keys = [(b, s, d) for b, d in zip(builds, ds) for s in SIZES if not (chk.quick and slow(b[0]) and s != 640)]
    bins = chk.pmap(lambda k: chk.link(k[2], k[1], "leakdrv.c", "leakdrv%d" % k[1], cc="clang", cflags="-O2 -w -no-pie -ffunction-sections", libs="-lcrypto -lpthread " + SEENWRAP), keys)
    chk.log("built %d drivers" % len(bins))
    runs = []
    for (b, s, _), f in zip(keys, bins):
        v = (s, GEN[b[0][0]])
        g = Gen(s, "leak%d" % chk.seed)
        n = 1 if slow(b[0]) or chk.quick else 4
        runs.append(("%s%s %d" % (cname(b[0]), b[1], s), f, secrets_script(g, n, 0 if chk.quick or slow(b[0]) else 2), vconst(v)))
    runs.sort(key=lambda r: ("FALSE" not in r[0], "REFERENCE" not in r[0]))
    judge_runs(chk, runs, "LeakTrace", explain=where_apart)
    if chk.violations: return
    if min(chk.varied[:3]) < 3 or chk.varied[3] != 2: raise CheckError("secrets not varied: %s" % (chk.varied,))
    chk.cov["secrets_per_public_value_at_least"] = chk.varied[:3]
    chk.assumptions += ["the sequence of basic blocks and addresses is that of clang's code at -O0 and -O3; code inside OpenSSL and libc is represented by its arguments",
                        "instructions whose own duration depends on their operands are not modelled"]


def provider_plans(chk):
    """the environment's part of every behaviour of Provider: which request of which call fails"""
    r = chk.model("Provider", consts={"Record": "TRUE", "MaxFault": "1"})
    return sorted({json.loads('"%s"' % m) for m in re.findall(r'<<"PLAN", "(.*)">>', r["out"])})


def C16(chk):
    chk.selfcheck()
    chk.model("Provider")
    r = chk.tlc("Provider", consts={"Careless": "TRUE"})
    if "NothingMissing is violated" not in r["out"]: raise CheckError("Provider misses dropped error checks")
    plans = [json.loads(p) for p in provider_plans(chk)]
    chk.cov["plans_of_the_model"] = len(plans)
    drv = chk.drivers(src="provdrv.c")
    runs = []
    for (c, s), b in drv.items():
        g = Gen(s, "prov%d" % chk.seed)
        v = (s, GEN[c[0]])
        base = ["K 0 1 %s" % g.rb(g.p.rk).hex(), "E 2 3 0 %s" % g.rb(g.p.len).hex(), "D 4 2 1"]
        o = list(base)
        o += ["Y %s %d" % (x, 8 if slow(c) else 64 if chk.quick else 600) for x in "KED"]
        runs.append(("repeated FrodoKEM-%d %s" % (s, cname(c)), b, "\n".join(o) + "\n", vconst(v)))
        if c[0] != "AES128" or c[1] != "TRUE": continue
        lines = {"keygen": lambda: "K 5 6 %s" % g.rb(g.p.rk).hex(), "encaps": lambda: "E 7 8 0 %s" % g.rb(g.p.len).hex(), "decaps": lambda: "D 8 2 1"}
        # every request in turn, once and from then on
        o = list(base)
        for op in lines:
            n = (2 + s // 4 if op == "keygen" else 2 + s // 8) if c[2] != "REFERENCE" else 3
            some = range(1, n + 1) if not chk.quick else sorted({1, 2, 3, 4, 5, n // 2, n - 1, n} | {g.r.randrange(1, n + 1) for _ in range(8)})
            fixed = lines[op]()
            for at in some:
                for st in (0, 1):
                    o += ["f", "x a %d %d" % (at, st), fixed, "j"]
            for kind in "nku":
                for at in (1, 0, -1):
                    o += ["f", "x %s %d 0" % (kind, at), fixed, "j"]
            for at in range(1, 8 if chk.quick else 40):
                for st in (0, 1):
                    o += ["f", "x m %d %d" % (at, st), fixed, "j"]
        runs.append(("requests FrodoKEM-%d %s" % (s, cname(c)), b, "\n".join(o) + "\n", vconst(v)))
        # plans of the model: calls before and after the one that fails
        o = list(base)
        for p in plans if not chk.quick else [p for p in g.r.sample(plans, 24)]:
            o.append("f")
            for k in p:
                if k["at"]: o.append("x %s 0" % ("n 1", "k 1", "u 1", "u 0", "u -1")[k["at"] - 1])
                o.append(lines[k["op"]]())
            o.append("j")
        runs.append(("plans FrodoKEM-%d %s" % (s, cname(c)), b, "\n".join(o) + "\n", vconst(v)))
    judge_runs(chk, runs, "ProviderTrace")
    if not chk.violations: chk.log("faults met: %s" % chk.cov.get("faults_met"))
