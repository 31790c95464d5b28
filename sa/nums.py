"""Numeric refutation: two arithmetic expressions over the same quantities that cannot be equal for all their values."""
from .terms import *

ARITH = ("int", "lin", "mul", "div", "rem", "min", "max", "shl", "shr", "band", "bor", "bxor", "bnot", "wadd", "wsub", "trunc", "zext",
         "nextpow2", "b2i", "satadd", "satsub", "le0", "eq0", "not", "and", "true", "false")
M64 = 2 ** 64 - 1
POINTS = (0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025,
          4095, 4096, 4097, 4481, 5000, 32767, 32768, 65535, 65536, 65537, 65600, 100000, 1048576, 1048577, 16777217, 2 ** 30 + 1, 2 ** 31 - 1)


class Opaque(Exception):
    pass


def atoms(t, out=None):
    if out is None:
        out = set()
    if t.op not in ARITH:
        out.add(t)
        return out
    for a in t.args:
        if isinstance(a, Term):
            atoms(a, out)
        elif isinstance(a, tuple):
            for x in a:
                if isinstance(x, tuple):
                    atoms(x[0], out)
    return out


def value(t, env):
    if t in env:
        return env[t]
    op, a = t.op, t.args
    v = lambda x: value(x, env)
    if op == "int":
        return a[0]
    if op == "lin":
        return a[0] + sum(k * v(x) for x, k in a[1])
    if op == "mul":
        r = 1
        for x in a:
            r *= v(x)
        return r
    if op in ("true", "false"):
        return op == "true"
    if op == "le0":
        return v(a[0]) <= 0
    if op == "eq0":
        return v(a[0]) == 0
    if op == "not":
        return not v(a[0])
    if op == "and":
        return all(v(x) for x in a)
    if op == "b2i":
        return int(v(a[0]))
    if op == "min":
        return min(v(x) for x in a)
    if op == "max":
        return max(v(x) for x in a)
    if op in ("div", "rem"):
        d = v(a[1])
        if d == 0:
            raise Opaque()
        return v(a[0]) // d if op == "div" else v(a[0]) % d
    if op == "band":
        return v(a[0]) & v(a[1]) & M64
    if op == "bor":
        return (v(a[0]) | v(a[1])) & M64
    if op == "bxor":
        return (v(a[0]) ^ v(a[1])) & M64
    if op == "bnot":
        return ~v(a[0]) & M64
    if op == "shl":
        return (v(a[0]) << (v(a[1]) & 63)) & M64
    if op == "shr":
        return v(a[0]) >> (v(a[1]) & 63)
    if op == "trunc":
        return v(a[0]) & (2 ** a[1] - 1)
    if op == "nextpow2":
        x = v(a[0])
        return 1 if x <= 1 else 1 << (x - 1).bit_length()
    raise Opaque()


def differ(s, t, want, given=(), free=()):
    """A value of the quantities `want` is made of for which t is something else, compatible with what the path knows; None when
    t involves other quantities (than those of `want` and the `free` ones) or no such value was found."""
    A = atoms(want) | set(free)
    if not A or len(A) > 2 or not atoms(t) <= A:
        return None
    A = sorted(A, key=lambda x: x.id)
    facts = [T("le0", p) for p in s.ints if atoms(p) <= set(A)] + [f if v else T("not", f) for f, v in s.bools.items() if atoms(f) <= set(A)] + list(given)
    import itertools
    for vals in itertools.product(POINTS, repeat=len(A)):
        env = dict(zip(A, vals))
        try:
            if value(t, env) != value(want, env) and all(value(f, env) for f in facts):
                return env
        except Opaque:
            continue
    return None
