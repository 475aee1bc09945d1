"""The Python implementation's own source of randomness, with the operating system's underneath it replaced.
Usage: pysrc.py <python3 directory of the repository> <variant>
Commands: draw <n> <seed>    ask the implementation's source for n bytes; the system serves a stream made from the seed
          deny <n> <seed>    the same; the system refuses
          call <seed>        a whole key generation for which the system refuses; likewise an encapsulation"""
import builtins, hashlib, io, json, os, random, sys, warnings
warnings.filterwarnings("ignore")
stream, served, deny = None, 0, False
urandom, draws = os.urandom, 0


def take(n, *_):
    global served
    if stream is None:                                          # before the first command
        return urandom(n)
    if deny:
        raise OSError("the system has no randomness")
    r = stream[served:served + n]
    served += n
    if len(r) < n:
        raise OSError("more than anyone needs")
    return r


class Device(io.RawIOBase):
    def readable(self):
        return True

    def readinto(self, b):
        b[:] = take(len(b))
        return len(b)


_open = builtins.open


def opened(f, *a, **k):
    if isinstance(f, (str, bytes, os.PathLike)) and os.fspath(f) in ("/dev/urandom", "/dev/random", b"/dev/urandom", b"/dev/random"):
        return Device()
    return _open(f, *a, **k)


os.urandom = random._urandom = take
if hasattr(os, "getrandom"):
    os.getrandom = take
sys.path.insert(0, sys.argv[1])
from frodokem import FrodoKEM
builtins.open = io.open = opened
kem = FrodoKEM(sys.argv[2])
if not hasattr(kem, "randombytes"):
    print(json.dumps({"e": "absent"}))
    sys.exit(0)


def attempt(f):
    try:
        return 0, bytes(f()).hex()
    except Exception:
        return 1, ""


for line in sys.stdin:
    a = line.split()
    op, n, seed = a[0], int(a[1]) if len(a) > 2 else 0, a[-1]
    stream, served, deny = hashlib.shake_256(seed.encode()).digest(4096), 0, op != "draw"
    if op == "call":
        for f in (kem.kem_keygen, lambda: kem.kem_encaps(b"\x11" * kem.len_pk_bytes)):
            r, _ = attempt(lambda: b"".join(f()))
            print(json.dumps({"e": "call", "refused": r}))
    else:
        r, o = attempt(lambda: kem.randombytes(n))
        print(json.dumps({"e": op, "n": n, "stream": seed, "served": served, "refused": r, "out": o}))
        draws += op == "draw"
    sys.stdout.flush()
print(json.dumps({"e": "total", "draws": draws}))
