"""Runs the scripts of kemdrv.c (W Z C S J F P K E D) on the Python implementation and records the same events.
Usage: pydrv.py <python3 directory of the repository> <variant>
       pydrv.py <python3 directory of the repository> <variant>+<variant>..   several in one process; "@ k" turns to the k-th
More commands for the building blocks: encode, decode, pack, unpack, sample, arow; and new / badlen for refusals."""
import json, sys, warnings
warnings.filterwarnings("ignore")
sys.path.insert(0, sys.argv[1])
from frodokem import FrodoKEM

variants = sys.argv[2].split("+")
kems = [FrodoKEM(v) for v in variants]
variant, kem, at = variants[0], kems[0], 0
pending, draws, failat = bytearray(), [], 0
short = 0


def randombytes(k):
    global short
    draws.append(k)
    if failat and len(draws) == failat:
        raise OSError("no randomness")
    r = bytes(pending[:k])
    del pending[:k]
    if len(r) < k:
        short = 1
        r += b"\x77" * (k - len(r))
    return r


for k in kems:
    k.randombytes = randombytes
if len(kems) == 1 and hasattr(kem, "gen"):                      # the matrix is a function of its seed: derive it once per seed
    _gen, _memo = kem.gen, {}

    def gen(seedA):
        key = bytes(seedA)
        if key not in _memo:
            _memo.clear()
            _memo[key] = _gen(seedA)
        return [list(r) for r in _memo[key]]
    kem.gen = gen
bufs = [{} for k in kems]
buf = bufs[0]


def log(**e):
    if len(kems) > 1:
        e["at"] = at
    sys.stdout.write(json.dumps(e) + "\n")
    sys.stdout.flush()


def flat(M):
    return [int(x) for r in M for x in r]


def refused(f):
    try:
        f()
    except Exception:
        return 1
    return 0


BLOCKS = {"encode": "encode", "decode": "decode", "pack": "pack", "unpack": "unpack", "sample": "sample", "arow": "gen"}
for at, k in reversed(list(enumerate(kems))):
    log(e="sizes", pk=k.len_pk_bytes, sk=k.len_sk_bytes, ct=k.len_ct_bytes, ss=k.len_ss_bytes, alg=variants[at])
for line in sys.stdin:
    a = line.split()
    if not a or a[0][0] == "#":
        continue
    op, a = a[0], a[1:]
    b = lambda k: "b" + a[k]
    if op == "@":
        at = int(a[0]); kem, buf = kems[at], bufs[at]
        continue
    if op in BLOCKS and not hasattr(kem, BLOCKS[op]):     # not a part of this implementation
        log(e="absent", what=op)
        continue
    if op == "W":
        buf[b(0)] = bytes.fromhex(a[1]); log(e="write", b=b(0), v=a[1])
    elif op == "Z":
        buf[b(0)] = bytes([int(a[2])]) * int(a[1]); log(e="fill", b=b(0), len=int(a[1]), v=int(a[2]))
    elif op == "C":
        buf[b(0)] = buf[b(1)]; log(e="copy", b=b(0), src=b(1))
    elif op == "S":
        buf[b(0)] = buf[b(1)][int(a[2]):int(a[2]) + int(a[3])]; log(e="slice", b=b(0), src=b(1), off=int(a[2]), len=int(a[3]))
    elif op == "J":
        o = int(a[3]); buf[b(0)] = buf[b(1)][:o] + buf[b(2)][o:]; log(e="join", b=b(0), src=b(1), rest=b(2), off=o)
    elif op == "F":
        x = bytearray(buf[b(0)])
        for p in a[1:]:
            x[int(p) >> 3] ^= 1 << (int(p) & 7)
        buf[b(0)] = bytes(x); log(e="flip", b=b(0), bits=[int(p) for p in a[1:]])
    elif op == "P":
        v, o = bytes.fromhex(a[2]), int(a[1])
        x = buf[b(0)]; buf[b(0)] = x[:o] + v + x[o + len(v):]; log(e="patch", b=b(0), off=o, v=a[2])
    elif op in "KED":
        r = a[2] if op == "K" else a[3] if op == "E" else "-"
        h, _, f = r.partition("!")
        rnd = b"" if h in ("-", "") else bytes.fromhex(h)
        pending[:] = rnd; draws.clear(); short = 0; failat = int(f) if f else 0
        try:
            if op == "K":
                pk, sk = kem.kem_keygen()
                buf[b(0)], buf[b(1)] = bytes(pk), bytes(sk)
                log(e="keygen", fail=failat, ret=0, rnd=rnd.hex(), draws=list(draws), short=short, got=0, dirty=[], pk=b(0), opk=bytes(pk).hex(), sk=b(1), osk=bytes(sk).hex())
            elif op == "E":
                ct, ss = kem.kem_encaps(buf[b(2)])
                log(e="encaps", fail=failat, ret=0, pk=b(2), rnd=rnd.hex(), draws=list(draws), short=short, got=0, dirty=[], ct=b(0), oct=bytes(ct).hex(), ss=b(1), oss=bytes(ss).hex())
                buf[b(0)], buf[b(1)] = bytes(ct), bytes(ss)
            else:
                ss = kem.kem_decaps(buf[b(2)], buf[b(1)])
                buf[b(0)] = bytes(ss)
                log(e="decaps", ret=0, ct=b(1), sk=b(2), draws=list(draws), short=short, dirty=[], ss=b(0), oss=bytes(ss).hex())
        except Exception as x:
            log(e="crash", how=type(x).__name__, err=str(x)[:200], call=op)
            sys.exit(0)
    elif op == "encode":
        log(e="encode", v=a[0], out=flat(kem.encode(bytes.fromhex(a[0]))))
    elif op == "decode":
        w = [int(x) for x in a[0].split(",")]
        n = kem.nbar
        log(e="decode", v=w, out=bytes(kem.decode([w[i * n:(i + 1) * n] for i in range(len(w) // n)])).hex())
    elif op == "pack":
        cols = int(a[0]); w = [int(x) for x in a[1].split(",")]
        log(e="pack", v=w, out=bytes(kem.pack([w[i:i + cols] for i in range(0, len(w), cols)])).hex())
    elif op == "unpack":
        log(e="unpack", v=a[2], out=flat(kem.unpack(bytes.fromhex(a[2]), int(a[0]), int(a[1]))))
    elif op == "sample":
        lo, hi = int(a[0]), int(a[1])
        log(e="sample", v=lo, out=[int(kem.sample(x)) for x in range(lo, hi)])
    elif op == "arow":
        A = kem.gen(bytes.fromhex(a[0]))
        log(e="dims", rows=len(A), cols=[len(r) for r in A])
        for i in a[1].split(","):
            log(e="arow", v=a[0], i=int(i), out=[int(x) for x in A[int(i)]])
    elif op == "new":
        name = bytes.fromhex(a[0]).decode() if a[0] != "-" else ""
        log(e="refuse", what="variant " + name, refused=refused(lambda: FrodoKEM(name)))
    elif op == "badlen":
        which, d = a[0], int(a[1])
        def cut(x):
            return x[:d] if d < 0 else x + b"\x00" * d
        pk, sk, ct = buf["b0"], buf["b1"], buf["b2"]
        pending[:] = b"\x55" * 64
        log(e="refuse", what="%s length %+d" % (which, d),
            refused=refused({"pk": lambda: kem.kem_encaps(cut(pk)), "ct": lambda: kem.kem_decaps(sk, cut(ct)), "sk": lambda: kem.kem_decaps(cut(sk), ct)}[which]))
    else:
        sys.exit(3)
