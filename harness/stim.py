"""Stimuli: histories of public calls, generated from VERIF_SEED only.

Nothing here judges results; the specification does.
Every function returns a list of histories; a history is a list of steps, and
the first step of each history says which modes play it (absent: both).
"""
import json
import random
import struct
from fractions import Fraction

import flat
from core import REPO

RES = REPO / "numba_pokemon_prngs" / "resources"
M32 = (1 << 32) - 1
M64 = (1 << 64) - 1


def s32(v):
    v &= M32
    return v - (1 << 32) if v >> 31 else v


def w(v):
    """32-bit argument"""
    return [s32(v)]


def d(v):
    """64-bit argument"""
    return [s32(v >> 32), s32(v)]


def new(o, kind, *args, npy=0, **con):
    return {"o": o, "op": "new", "c": dict(con, k=kind), "a": list(args), "np": npy}


def st(o, op, *args, npy=0, **kw):
    return dict({"o": o, "op": op, "a": list(args), "np": npy}, **kw)


LCG32 = "PokeRNGMod PokeRNGDiv PokeRNGRMod PokeRNGRDiv ARNG ARNGR XDRNG XDRNGR".split()
LCG64 = ["BWRNG", "BWRNGR"]
LCG = LCG32 + LCG64
PAIRS = [("PokeRNGMod", "PokeRNGRMod"), ("PokeRNGDiv", "PokeRNGRDiv"), ("ARNG", "ARNGR"),
         ("XDRNG", "XDRNGR"), ("BWRNG", "BWRNGR")]
CORNER32 = [0, 1, 2, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFF0000, 0xFFFF, 0x12345678]
CORNER64 = [0, 1, M32, 1 << 32, (1 << 63) - 1, 1 << 63, M64, 0xFFFFFFFF00000000, 0x123456789ABCDEF0]
# multiplier of each class, to aim draws at chosen values
MULT = {"PokeRNGMod": 0x41C64E6D, "PokeRNGDiv": 0x41C64E6D, "XDRNG": 0x343FD,
        "PokeRNGRMod": pow(0x41C64E6D, -1, 1 << 32), "PokeRNGRDiv": pow(0x41C64E6D, -1, 1 << 32),
        "XDRNGR": pow(0x343FD, -1, 1 << 32), "BWRNG": 0x5D588B656C078965,
        "BWRNGR": pow(0x5D588B656C078965, -1, 1 << 64)}


class Gen:
    """Seeded source of words"""

    def __init__(self, seed, name, scale):
        self.r = random.Random(f"{seed}/{name}")
        self.behaviours = []
        self.res = RES
        self.scale = scale

    def n(self, quick):
        return max(1, int(quick * self.scale))

    def u32(self):
        k = self.r.random()
        if k < 0.1:
            return self.r.choice(CORNER32)
        if k < 0.2:
            return 1 << self.r.randrange(32)
        if k < 0.25:
            return M32 ^ self.r.getrandbits(8)
        return self.r.getrandbits(32)

    def u64(self):
        k = self.r.random()
        if k < 0.1:
            return self.r.choice(CORNER64)
        if k < 0.2:
            return 1 << self.r.randrange(64)
        if k < 0.25:
            return M64 ^ self.r.getrandbits(8)
        return self.r.getrandbits(64)

    def npy(self):
        return self.r.randrange(2)

    def seed(self, cls):
        """argument words of a constructor or re_init call"""
        if cls in LCG64 or cls == "XM":
            return [d(self.u64())]
        if cls == "XS":
            return [w(self.u32()) for _ in range(4)]
        if cls == "XO":
            return [d(self.u64()) for _ in range(self.r.choice((1, 2)))]
        return [w(self.u32())]

    def max32(self):
        k = self.r.random()
        if k < 0.3:
            return self.r.choice((1, 2, 3, 5, 25, 100, 256, 2880, 0xFFFF, 0x10000, 0x7FFFFFFF,
                                  0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF))
        if k < 0.6:
            return min(M32, max(1, (1 << self.r.randrange(32)) + self.r.choice((-1, 0, 1))))
        return max(1, self.r.getrandbits(self.r.randrange(1, 33)))

    def max16(self):
        k = self.r.random()
        if k < 0.4:
            return self.r.choice((1, 2, 3, 5, 25, 100, 255, 256, 257, 2880, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF))
        return max(1, self.r.getrandbits(self.r.randrange(1, 17)))

    def dist(self, bits):
        """a jump distance"""
        k = self.r.random()
        if k < 0.4:
            return min((1 << bits) - 1, max(0, (1 << self.r.randrange(bits)) + self.r.choice((-1, 0, 1))))
        if k < 0.5:
            return (1 << bits) - 1 - self.r.randrange(4)
        return self.r.getrandbits(self.r.randrange(1, bits + 1))


def dw(cls, v):
    return d(v) if cls in LCG64 else w(v)


def lcg_bits(cls):
    return 64 if cls in LCG64 else 32


def far_off(g, cls, near=(), wide=False):
    """advances of any length; a library that takes all those steps is given up after a moment"""
    word = d if wide else w
    out = []
    for mode in ("TRUE", "FALSE"):
        h = [new(1, cls, *g.seed(cls))]
        h[0]["modes"] = [mode]
        for npy in (0, 1):
            h += [st(1, "adv", word(1), npy=npy), st(1, "nexts", w(3))]
        lengths = [M32, M32 - 623, 1 << 31, (1 << 16) + 1]
        if wide:
            lengths += [M64, (1 << 63) + 1, (1 << 32) + 1, (1 << 32) + 70000]
        for i, n in enumerate(lengths):
            h.append(st(1, "far", word(n), npy=i & 1, t=0.5))
        if mode == "TRUE":
            h += [st(1, "far", word(n), t=30) for n in near]
        out.append(h)
    return out


def c01(g):
    out = []
    for cls in LCG:
        wide = cls in LCG64
        for seed in (CORNER64 if wide else CORNER32):
            out.append([new(1, cls, dw(cls, seed), npy=g.npy()), st(1, "next"), st(1, "u32" if wide else "u16"),
                        st(1, "nexts", w(20))])
        for bit in range(lcg_bits(cls)):
            out.append([new(1, cls, dw(cls, 1 << bit)), st(1, "next"), st(1, "u32" if wide else "u16")])
        for _ in range(g.n(25)):
            h = [new(1, cls, *g.seed(cls), npy=g.npy())]
            for _ in range(25):
                k = g.r.random()
                if k < 0.35:
                    h.append(st(1, "next"))
                elif k < 0.7:
                    h.append(st(1, "u32" if wide else "u16"))
                elif k < 0.85:
                    h.append(st(1, "nexts", w(g.r.randrange(1, 40))))
                else:
                    h.append(st(1, "reinit", *g.seed(cls), npy=g.npy()))
            out.append(h)
        out.append([new(1, cls, *g.seed(cls))] + [st(1, "nexts", w(1000)) for _ in range(g.n(3))] + [st(1, "next")])
    return out


def c02(g):
    out = []
    for cls in LCG:
        bits = lcg_bits(cls)
        out += far_off(g, cls, (M32,) if cls in ("PokeRNGMod", "BWRNG") or g.scale > 1 else (), bits == 64)
        # an affine map is determined by its values on 0 and 1: every table row
        for seed in (0, 1, g.r.getrandbits(bits)):
            h = [new(1, cls, dw(cls, seed))]
            for i in range(bits):
                h += [st(1, "reinit", dw(cls, seed)), st(1, "jump", dw(cls, 1 << i), npy=i & 1)]
            out.append(h)
        h = [new(1, cls, *g.seed(cls))]
        for i in range(bits):
            for off in (-1, 1):
                h.append(st(1, "jump", dw(cls, min((1 << bits) - 1, (1 << i) + off)), npy=g.npy()))
        h += [st(1, "jump", dw(cls, (1 << bits) - 1), npy=n) for n in (0, 1)]
        h += [st(1, "jump", dw(cls, 0), npy=n) for n in (0, 1)]
        out.append(h)
        for _ in range(g.n(12)):
            h = [new(1, cls, *g.seed(cls))]
            for _ in range(20):
                k = g.r.random()
                if k < 0.5:
                    h.append(st(1, "jump", dw(cls, g.dist(bits)), npy=g.npy()))
                elif k < 0.65:
                    h.append(st(1, "adv", dw(cls, g.r.randrange(0, 300)), npy=g.npy()))
                elif k < 0.8:
                    h.append(st(1, "walk", dw(cls, g.r.randrange(0, 60))))
                elif k < 0.9:
                    h.append(st(1, "next"))
                else:
                    h.append(st(1, "reinit", *g.seed(cls)))
            out.append(h)
        h = [new(1, cls, *g.seed(cls))]
        for n in (0, 1, 255, 256, 257, 1000, 65535, 65536, 70000):
            h.append(st(1, "adv", dw(cls, n), npy=g.npy()))
        out.append(h)
        h = [new(1, cls, *g.seed(cls))]
        for n in ((1 << 20) + 7, (1 << 24) + 3, (1 << 26) + 1):
            h.append(st(1, "adv", dw(cls, n)))
        h[0]["modes"] = ["TRUE"]
        out.append(h)
        # constant jumps: each distance is compiled separately
        consts = [0, 1, 2, 3, 1 << (bits - 1), (1 << bits) - 1, 0x80000001, 0xAAAAAAAA, (1 << (bits - 2)) + 5]
        consts += [g.r.getrandbits(bits), g.r.getrandbits(bits // 2), g.r.getrandbits(bits)]
        if g.scale > 1:
            consts += [1 << i for i in range(bits)]
        h = [new(1, cls, *g.seed(cls))]
        for c in consts:
            h += [st(1, "cjump", dw(cls, c), npy=g.npy()), st(1, "cjump", dw(cls, c)),
                  st(1, "reinit", dw(cls, 0)), st(1, "cjump", dw(cls, c)), st(1, "reinit", dw(cls, 1)),
                  st(1, "cjump", dw(cls, c)), st(1, "next")]
        out.append(h)
        # plain mode: every bit
        h = [new(1, cls, *g.seed(cls))]
        for i in range(bits):
            h += [st(1, "cjump", dw(cls, 1 << i), npy=i & 1), st(1, "reinit", dw(cls, i & 1))]
            h += [st(1, "cjump", dw(cls, g.dist(bits)), npy=i & 1)]
        h[0]["modes"] = ["FALSE"]
        out.append(h)
    return out


def c03(g):
    out = []

    def weave(h, fwd, rev, bits, count):
        """moves on two objects, handing the seed over in between"""
        wid = (lambda v: d(v)) if bits == 64 else (lambda v: w(v))
        for _ in range(count):
            a, b = g.r.choice(((fwd, rev), (rev, fwd)))
            n = g.r.randrange(1, 40)
            dist = g.dist(bits)
            k = g.r.random()
            if k < 0.4:
                h += [st(a, "jump", wid(dist), npy=g.npy()), st(b, "take", w(a)), st(b, "jump", wid(dist), npy=g.npy())]
            elif k < 0.7:
                h += [st(a, "nexts", w(n)), st(b, "take", w(a)), st(b, "nexts", w(n))]
            elif k < 0.85:
                h += [st(a, "walk", wid(n)), st(b, "take", w(a)), st(b, "jump", wid(n)), st(a, "take", w(b))]
            else:
                h += [st(a, "jump", wid(n)), st(b, "take", w(a)), st(b, "adv", wid(n)), st(a, "take", w(b)), st(a, "next")]

    for fwd, rev in PAIRS:
        bits = lcg_bits(fwd)
        for seed in [0, 1, (1 << bits) - 1, 1 << (bits - 1)] + [g.r.getrandbits(bits) for _ in range(g.n(8))]:
            h = [new(1, fwd, dw(fwd, seed)), new(2, rev, dw(fwd, seed))]
            h += [st(1, "next"), st(2, "take", w(1)), st(2, "next")]
            h += [st(2, "next"), st(1, "take", w(2)), st(1, "next")]
            weave(h, 1, 2, bits, 6)
            out.append(h)
        for i in range(bits):
            seed = g.r.getrandbits(bits)
            out.append([new(1, fwd, dw(fwd, seed)), new(2, rev, dw(fwd, 0)), st(1, "jump", dw(fwd, 1 << i)),
                        st(2, "take", w(1)), st(2, "jump", dw(fwd, 1 << i)),
                        st(2, "jump", dw(fwd, (1 << i) + 1)), st(1, "take", w(2)), st(1, "jump", dw(fwd, (1 << i) + 1))])
    # classes built by the decorators from other constants
    consts32 = [(1, 0), (1, 1), (M32, M32), (5, 0), (0x80000001, 0x80000000), (3, M32), (0x41C64E6D, 0)]
    consts64 = [(1, 1), (M64, M64), ((1 << 63) | 1, 1 << 63), (0x5D588B656C078965, 0), (3, M64), (5, 1 << 32)]
    for bits, consts, kinds in ((32, consts32, ("C32", "C32mod", "C32div")), (64, consts64, ("C64", "C64ms"))):
        wid = d if bits == 64 else w
        many = consts + [(g.r.getrandbits(bits) | 1, g.r.getrandbits(bits)) for _ in range(g.n(30))]
        for i, (mult, add) in enumerate(many):
            kind = kinds[i % len(kinds)]
            seed = g.r.getrandbits(bits)
            h = [new(1, kind, wid(mult), wid(add), w(0), wid(seed)), new(2, kind, wid(mult), wid(add), w(1), wid(seed)),
                 st(1, "next"), st(2, "take", w(1)), st(2, "next"), st(2, "next"), st(1, "take", w(2)), st(1, "next")]
            for b in range(bits):
                if b % 5 == i % 5:
                    h += [st(1, "jump", wid(1 << b)), st(2, "take", w(1)), st(2, "jump", wid(1 << b))]
            weave(h, 1, 2, bits, 6)
            # compiling a class takes seconds: only a few in compiled mode
            if i >= (5 if g.scale <= 1 else 14) and i != len(consts):
                h[0]["modes"] = ["FALSE"]
            out.append(h)
    return out


def sweep(cls, start, stride):
    """re_init seeds that make the upper half of the next step count upwards by stride"""
    bits = lcg_bits(cls)
    half = bits // 2
    inv = pow(MULT[cls], -1, 1 << bits)
    mod = (1 << bits) - 1
    return start & mod, (inv * (stride << half)) & mod


def c04(g):
    out = []
    quick = g.scale <= 1
    for cls in [c for c in LCG if c in MULT]:
        wide = cls in LCG64
        mx = g.max32 if wide else g.max16
        for _ in range(g.n(12)):
            h = [new(1, cls, *g.seed(cls))]
            for _ in range(25):
                k = g.r.random()
                if k < 0.7:
                    h.append(st(1, "rand", w(mx()), npy=g.npy()))
                elif k < 0.8:
                    h.append(st(1, "next"))
                elif k < 0.9:
                    h.append(st(1, "u32" if wide else "u16"))
                else:
                    h.append(st(1, "reinit", *g.seed(cls)))
            out.append(h)
        for _ in range(g.n(3)):
            out += aimed(g, cls, ["rand"], 300, "u32" if wide else "u16")
        # every maximum that is a power of two, one less and one more
        h = [new(1, cls, *g.seed(cls))]
        for i in range(32 if wide else 16):
            for off in (-1, 0, 1):
                m = (1 << i) + off
                if 0 < m < (1 << (32 if wide else 16)):
                    h += [st(1, "rand", w(m), npy=n) for n in (0, 1)]
        out.append(h)
        # draws swept over the whole range of the half word
        for m in ([1, 2, 3, 25, 100, 0xFFFF, 0x8000, mx(), mx()] if quick else
                  [1, 2, 3, 4, 5, 10, 25, 100, 255, 256, 257, 2880, 0x7FFF, 0x8000, 0x8001, 0xFFFE, 0xFFFF] + [mx() for _ in range(20)]):
            # 1024 draws per step; all 65536 half words in the thorough tier
            chunks, stride = (1, 64) if quick else (16 if wide else 64, 1)
            base = g.r.getrandbits(lcg_bits(cls))
            s0, delta = sweep(cls, base, stride << (16 if wide else 0))
            for chunk in range(chunks):
                begin = (s0 + chunk * 1024 * delta) & ((1 << lcg_bits(cls)) - 1)
                out.append([new(1, cls, dw(cls, 0)), st(1, "sweep", w(1024), dw(cls, begin), dw(cls, delta), w(m))])
        consts = [1, 2, 3, 25, 100, 2880, 0x8000, 0xFFFF] + ([0x80000000, M32, mx()] if wide else [mx()])
        if not quick:
            consts += [mx() for _ in range(12)]
        h = [new(1, cls, *g.seed(cls)), new(2, cls, *g.seed(cls))]
        for c in consts:
            h += [st(g.r.choice((1, 2)), "crand", w(c)) for _ in range(4)]
            h += [st(2, "take", w(1)), st(2, "rand", w(c)), st(1, "crand", w(c)), st(1, "next")]
        out.append(h)
        h = [new(1, cls, *g.seed(cls))]
        for _ in range(60):
            h.append(st(1, "crand", w(mx()), npy=g.npy()))
        h[0]["modes"] = ["FALSE"]
        out.append(h)
    return out


AIMS = ["eq", "up", "wrap", "carry", "half", "low7", "next7", "low16", "next16", "low31", "next31"]


def aimed(g, cls, ops, count, draw="next"):
    """maxima at the boundary of the value about to be drawn: object 1 draws it
    first, object 2 then draws with the aimed maximum"""
    bits = 64 if cls == "SFMT" else 16 if draw == "u16" else 32
    fresh = cls in ("XO",)
    seed = g.seed(cls)
    h = [new(1, cls, *seed), new(2, cls, *seed)]
    for i in range(count):
        for op in ops:
            if fresh and i:
                seed = g.seed(cls)
                h += [st(1, "reinit", *seed), st(2, "reinit", *seed)]
            kind = AIMS[i % 5] if g.r.random() < 0.4 else g.r.choice(AIMS[5:] + [f"{k}{g.r.randrange(2, 33)}" for k in ("low", "next")])
            if op == "alt" and g.r.random() < 0.5:
                kind = "flip"
            h.append(st(1, draw))
            h.append(st(2, op, [0], npy=1 if bits == 64 else g.npy(), aim=[1, kind, bits]))
    return [h]


def twister(g, cls, count, length):
    """mixed histories over block boundaries; a manual shuffle only where its
    meaning does not depend on when blocks are generated"""
    block = 624 if cls == "MT" else 312
    out = []
    for _ in range(count):
        h = [new(1, cls, *g.seed(cls), npy=g.npy())]
        pos, fresh = 0, True
        for _ in range(length):
            k = g.r.random()
            inside = 0 < pos % block
            if k < 0.2:
                n = g.r.choice((1, 2, block - 1, block, block + 1, g.r.randrange(1, 2 * block)))
                h.append(st(1, "nexts", w(n)))
            elif k < 0.35:
                n = block - pos % block + g.r.choice((-1, 0, 0, 1))   # up to the boundary
                h.append(st(1, "nexts", w(n)))
            elif k < 0.5:
                n = g.r.randrange(1, 6)
                for _ in range(n):
                    if cls == "SFMT":
                        h.append(st(1, "rand", d(max(1, g.u64())), npy=1))
                    else:
                        h.append(st(1, g.r.choice(("rand", "randmod")), w(g.max32()), npy=g.npy()))
            elif k < 0.8:
                n = g.r.choice((0, 1, 2, block - 1, block, block + 1, 2 * block, 2 * block - 1, 3 * block + 1,
                                block - pos % block, g.r.randrange(0, 5 * block)))
                h.append(st(1, "adv", w(n), npy=g.npy()))
            elif k < 0.93 and (fresh or inside):
                h.append(st(1, "shuffle"))
                pos, fresh = 0, False
                h.append(st(1, "nexts", w(2)))
                n = 2
            elif k < 0.95:
                h.append(st(1, "reinit", *g.seed(cls), npy=g.npy()))
                pos, fresh = 0, True
                continue
            else:
                h.append(st(1, "next"))
                n = 1
            pos += n
            if n:
                fresh = False
        h.append(st(1, "nexts", w(3)))
        out.append(h)
    return out


def c05(g, cls="MT"):
    block = 624 if cls == "MT" else 312
    out = twister(g, cls, g.n(16), 20)
    for seed in CORNER32 + [g.u32() for _ in range(g.n(14))]:
        out.append([new(1, cls, w(seed), npy=g.npy()), st(1, "nexts", w(g.r.choice((5, block + 5)))),
                    st(1, "reinit", w(g.u32())), st(1, "nexts", w(5))])
    for n in (65535, 65536, 70000):
        out.append([new(1, cls, *g.seed(cls)), st(1, "nexts", w(g.r.randrange(0, 700))), st(1, "adv", w(n), npy=g.npy()),
                    st(1, "nexts", w(4))])
    out += far_off(g, cls, (M32,) if cls == "SFMT" and g.scale <= 1 else (M32, M32 - 623))
    for behaviour in g.behaviours:
        h, pos = [new(1, cls, *g.seed(cls))], 0
        for op, q, dd in behaviour:
            if op in ("nexts", "adv"):
                n = q * block + dd if q >= 0 else block - pos % block + dd
                h.append(st(1, op, w(n)))
                pos += n
            elif op == "shuffle":
                h.append(st(1, op))
                pos = (pos // block + 1) * block if pos else 0
            else:
                h.append(st(1, op, *g.seed(cls)))
                pos = 0
        out.append(h + [st(1, "nexts", w(2)), st(1, "adv", w(block - 2)), st(1, "next")])
    for _ in range(g.n(3)):
        out += aimed(g, cls, ["rand"] if cls == "SFMT" else ["rand", "randmod"], 400)
    if cls == "MT":
        for op in ("rand", "randmod"):
            h = [new(1, cls, *g.seed(cls))]
            for i in range(32):
                for off in (-1, 0, 1):
                    if 0 < (1 << i) + off:
                        h.append(st(1, op, w((1 << i) + off), npy=g.npy()))
            h += [st(1, op, w(M32), npy=n) for n in (0, 1)]
            out.append(h)
    else:
        h = [new(1, cls, *g.seed(cls))]
        for i in range(64):
            for off in (-1, 0, 1):
                if 0 < (1 << i) + off:
                    h.append(st(1, "rand", d((1 << i) + off), npy=1))
        h += [st(1, "rand", d(m), npy=0) for m in (1, 2, 100, M32, 1 << 40, (1 << 63) - 1)]
        out.append(h)
    return out


def c06(g):
    return c05(g, "SFMT")


def c07(g):
    out = far_off(g, "TINY", ((1 << 26) + 3, (1 << 24) - 1))
    for _ in range(g.n(4)):
        out += aimed(g, "TINY", ["rand", "randmod"], 400)
    for seed in CORNER32 + [g.u32() for _ in range(g.n(30))]:
        h = [new(1, "TINY", w(seed), npy=g.npy()), st(1, "nexts", w(400))]
        for _ in range(12):
            k = g.r.random()
            if k < 0.3:
                h.append(st(1, "rand", w(g.max32()), npy=g.npy()))
            elif k < 0.6:
                h.append(st(1, "randmod", w(g.max32()), npy=g.npy()))
            elif k < 0.8:
                h += [st(1, "adv", w(g.r.choice((0, 1, 2, 255, 256, 257, g.r.randrange(600)))), npy=g.npy()), st(1, "next")]
            elif k < 0.9:
                h += [st(1, "reinit", w(g.u32()), npy=g.npy()), st(1, "next")]
            else:
                h.append(st(1, "nexts", w(20)))
        out.append(h)
    for op in ("rand", "randmod"):
        # maxima near 2^32 show carries out of the draw
        h = [new(1, "TINY", *g.seed("TINY"))]
        for _ in range(g.n(200)):
            h.append(st(1, op, w(g.r.choice((M32, M32 - 1, 1 << 31, g.max32()))), npy=g.npy()))
        out.append(h)
    for n in (65535, 65536, 70001):
        out.append([new(1, "TINY", *g.seed("TINY")), st(1, "adv", w(n), npy=g.npy()), st(1, "nexts", w(4))])
    return out


def xs_step(g, cls):
    """one random call on an xorshift or xoroshiro object"""
    k = g.r.random()
    cnt = (lambda v: w(v)) if cls == "XS" else (lambda v: d(v))
    if k < 0.2:
        return st(1, "next")
    if k < 0.4:
        return st(1, "prev")
    if k < 0.5:
        return st(1, "nexts", w(g.r.randrange(1, 25)))
    if k < 0.6:
        return st(1, "prevs", w(g.r.randrange(1, 25)))
    if k < 0.7:
        return st(1, "adv", cnt(g.r.choice((0, 1, 2, 255, 256, g.r.randrange(300)))), npy=g.npy())
    if k < 0.75:
        return st(1, "reinit", *g.seed(cls), npy=g.npy())
    if cls != "XS" or k < 0.82:
        return st(1, "rand", w(g.max32()), npy=g.npy())
    if k < 0.88:
        return st(1, "alt", w(g.max32()), npy=g.npy())
    if k < 0.95:
        return xs_range(g)
    if g.r.random() < 0.3:
        low = g.r.choice((0, -1))
        return st(1, "unit", w(low), w(low + 1), npy=g.npy())
    lo, hi = sorted(g.r.sample(range(-120, 121), 2))
    return st(1, "flt", w(lo), w(hi), npy=g.npy())


def xs_range(g):
    while True:
        a, b = s32(g.u32()), s32(g.u32())
        if g.r.random() < 0.5:
            a, b = g.r.randrange(-40, 40), g.r.randrange(-40, 200)
        if g.r.random() < 0.1:
            a = -(1 << 31)
        if g.r.random() < 0.1:
            b = (1 << 31) - 1
        if a < b:
            return st(1, "range", w(a), w(b), npy=g.npy())


def c08(g):
    out = far_off(g, "XS", ((1 << 26) + 3, (1 << 24) - 1))
    for _ in range(g.n(4)):
        out += aimed(g, "XS", ["rand", "alt"], 400)
    # the step is linear: basis vectors, forward and back
    for word in range(4):
        for bit in range(32):
            s = [0, 0, 0, 0]
            s[word] = 1 << bit
            out.append([new(1, "XS", *map(w, s)), st(1, "next"), st(1, "prev"), st(1, "prev"), st(1, "next")])
    for s in ([0] * 4, [M32] * 4, [0, 0, 0, M32], [1 << 31] * 4):
        out.append([new(1, "XS", *map(w, s)), st(1, "nexts", w(20)), st(1, "prevs", w(40)), st(1, "nexts", w(20))])
    for _ in range(g.n(60)):
        out.append([new(1, "XS", *g.seed("XS"), npy=g.npy())] + [xs_step(g, "XS") for _ in range(30)])
    for op in ("rand", "alt"):
        h = [new(1, "XS", *g.seed("XS"))]
        for i in range(32):
            for off in (-1, 0, 1):
                if 0 < (1 << i) + off:
                    h.append(st(1, op, w((1 << i) + off), npy=g.npy()))
        h += [st(1, op, w(M32), npy=n) for n in (0, 1)]
        out.append(h)
    out.append([new(1, "XS", *g.seed("XS"))] + [xs_range(g) for _ in range(g.n(150))])
    # chosen draws: the last word of the state is the draw just made, so step back and draw again
    for v in (M32, M32 - 1, M32 - 2, 0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x7FFFFFFE, 0xFFFF, 0x10000):
        h = [new(1, "XS", *g.seed("XS"))]
        draws = [st(1, op, w(m), npy=g.npy()) for op in ("rand", "alt") for m in (1, 1000, v or 1, min(M32, v + 1), 0x80000000, M32, g.max32())]
        draws += [st(1, "range", w(lo), w(hi), npy=g.npy()) for lo, hi in ((-(1 << 31), (1 << 31) - 1), (0, (1 << 31) - 1), (-(1 << 31), 0), (-7, 5))]
        draws += [st(1, "flt", w(-5), w(77), npy=g.npy())]
        for draw in draws:
            h += [st(1, "reinit", w(g.u32()), w(g.u32()), w(g.u32()), w(v)), st(1, "prev"), draw]
        out.append(h)
    h = [new(1, "XS", *g.seed("XS"))]
    for lo, hi in ((-(1 << 31), (1 << 31) - 1), (-(1 << 31), -(1 << 31) + 1), ((1 << 31) - 2, (1 << 31) - 1), (-1, 0), (0, 1),
                   (-5, -2), (0, (1 << 31) - 1), (-(1 << 31), 0)):
        h += [st(1, "range", w(lo), w(hi), npy=n) for n in (0, 1, 0, 1)]
    out.append(h)
    h = [new(1, "XS", *g.seed("XS"))]
    for _ in range(g.n(120)):
        lo, hi = sorted(g.r.sample(range(-120, 121), 2))
        h.append(st(1, "flt", w(lo), w(hi), npy=g.npy()))
    for _ in range(g.n(80)):
        lo, hi = sorted(g.r.sample(range(-120, 121), 2))
        h.append(st(1, "frac", w(lo), w(hi), w(g.r.randrange(-40, 60)), npy=g.npy()))
    for _ in range(g.n(120)):
        low = g.r.choice((0, 0, -1))
        h.append(st(1, "unit", w(low), w(low + 1), npy=g.npy()))
    # aimed at the ends of the interval: low 23 bits all zero or all one
    for v in (0, 0x7FFFFF, 0x800000, M32, 0xFF800000, 1, 0x7FFFFE):
        # state (0, x, x, v'): the next value is v' ^ v' >> 19 when the first word is 0
        x = v
        for _ in range(2):
            x = v ^ (x >> 19)
        h += [st(1, "reinit", w(0), w(0), w(0), w(x)), st(1, "flt", w(-3), w(100))]
        h += [st(1, "reinit", w(0), w(0), w(0), w(x)), st(1, "unit", w(0), w(1)), st(1, "reinit", w(0), w(0), w(0), w(x)), st(1, "unit", w(-1), w(0), npy=1)]
    out.append(h)
    out.append([new(1, "XS", *g.seed("XS")), st(1, "adv", w(65537)), st(1, "next"), st(1, "adv", w(70000), npy=1), st(1, "prevs", w(3))])
    return out


def c09(g):
    out = []
    for cls in ("XO", "XM"):
        out += far_off(g, cls, ((1 << 26) + 3, (1 << 32) + 70001), True)
        if cls == "XO":
            for word in range(2):
                for bit in range(64):
                    s = [0, 0]
                    s[word] = 1 << bit
                    out.append([new(1, cls, *map(d, s)), st(1, "next"), st(1, "prev"), st(1, "prev"), st(1, "next")])
            for s in ([0, 0], [M64, M64], [M64], [0], [1, M64], [1 << 63, 1 << 63]):
                out.append([new(1, cls, *map(d, s)), st(1, "nexts", w(20)), st(1, "prevs", w(40)), st(1, "nexts", w(20)),
                            st(1, "reinit", d(5)), st(1, "next"), st(1, "reinit", d(5), d(6)), st(1, "next"),
                            st(1, "reinit", d(M64)), st(1, "next")])
        else:
            # a half that starts from nothing
            nothing = [-0x9E3779B97F4A7C15 & M64, -0x3C6EF372FE94F82A & M64]
            for seed in CORNER64 + nothing + [v ^ 1 for v in nothing] + [1 << b for b in range(64)]:
                out.append([new(1, cls, d(seed), npy=g.npy()), st(1, "nexts", w(6)), st(1, "prevs", w(12))])
        for _ in range(g.n(45)):
            h = [new(1, cls, *g.seed(cls), npy=g.npy())]
            while len(h) < 25:
                s = xs_step(g, cls)
                if s["op"] != "rand":
                    h.append(s)
            out.append(h)
        out.append([new(1, cls, *g.seed(cls)), st(1, "adv", d(65537)), st(1, "next"), st(1, "adv", d(70000), npy=1), st(1, "prevs", w(3))])
    return out


def xo_draw(g, value):
    """a state whose next full draw is value"""
    first = g.r.getrandbits(64)
    return [d(first), d(value - first & M64)]


def c10(g):
    out = []
    # rejection: a draw that is, after masking, just below, at or above the maximum
    for m in (1, 2, 3, 5, 100, 256, 257, 0x10001, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, M32):
        h = [new(1, "XO", d(1), d(2))]
        mask = (1 << (m - 1).bit_length()) - 1
        for low in (0, m - 1, m, m + 1, mask, mask + 1):
            h += [st(1, "reinit", *xo_draw(g, g.r.getrandbits(64) & ~mask & M64 | low & mask)), st(1, "rand", w(m), npy=g.npy()), st(1, "next")]
        out.append(h)
    for cls in ("XO", "XM"):
        for _ in range(g.n(6)):
            out += aimed(g, cls, ["rand"], 400)
        for i in range(32):
            h = [new(1, cls, *g.seed(cls))]
            for off in (-1, 0, 1):
                m = (1 << i) + off
                if 0 < m:
                    h += [st(1, "rand", w(m), npy=n) for n in (0, 1)]
                    h.append(st(1, "rands", w(12), w(m)))
            out.append(h)
        h = [new(1, cls, *g.seed(cls))]
        for m in (M32, M32 - 1, 0xFFFF, 0x10001, 0x80000001, 0xC0000000, 0xFFFF0000):
            h += [st(1, "rand", w(m), npy=n) for n in (0, 1)] + [st(1, "rands", w(8), w(m))]
        out.append(h)
        for _ in range(g.n(40)):
            h = [new(1, cls, *g.seed(cls))]
            for _ in range(15):
                h.append(st(1, "rand", w(g.max32()), npy=g.npy()) if g.r.random() < 0.7 else xs_step(g, cls))
            out.append(h)
        for m in (1, 2, 3, 5, 25, 33, 100, 257, 65537):
            out.append([new(1, cls, *g.seed(cls)), st(1, "rands", w(g.n(60)), w(m))])
    h = [new(1, "XO", d(0))]
    for i in range(32):
        h += [st(1, "mask", w(max(1, min(M32, (1 << i) + off))), npy=g.npy()) for off in (-1, 0, 1)]
    h += [st(1, "mask", w(g.max32()), npy=g.npy()) for _ in range(100)] + [st(1, "mask", w(M32), npy=n) for n in (0, 1)]
    out.append(h)
    return out


RL_CONFIGS = [  # generator, method, stored type, result words
    ("PokeRNGMod", "next", "uint32", 1), ("PokeRNGMod", "u16", "uint16", 1), ("XDRNGR", "u16", "uint32", 1),
    ("BWRNG", "next", "uint64", 2), ("BWRNG", "u32", "uint32", 1), ("MT", "next", "uint32", 1),
    ("SFMT", "next", "uint64", 2), ("TINY", "next", "uint32", 1), ("XS", "next", "uint32", 1),
    ("XS", "prev", "uint32", 1), ("XO", "next", "uint64", 2), ("XO", "prev", "uint64", 2), ("XM", "next", "uint32", 1),
    ("MT", "next", "uint64", 1), ("ARNG", "u16", "uint16", 1),
]


def rl_new(g, o, cfg, size, big=False):
    gen, meth, dtype, words = cfg
    return new(o, "RL", *g.seed(gen), gen=gen, m=meth, dtype=dtype, w=words, size=size, big=big)


def rl_steps(g, o, size, count, wide, gets=True):
    out = []
    for _ in range(count):
        k = g.r.random()
        if k < 0.35:
            out.append(st(o, "get"))
        elif k < 0.5 and gets:
            out.append(st(o, "gets", w(g.r.choice((2, size, size + 1, 2 * size + 3)) if size <= 64 else 5)))
        elif k < 0.65:
            n = g.r.choice((0, 1, size - 1, size, size + 1, 3 * size + 1, g.r.randrange(2 * size + 2), g.u32()))
            out.append(st(o, "skip", w(n), npy=g.npy()))
        elif k < 0.8:
            out.append(st(o, "slide1"))
        elif k < 0.95:
            n = g.r.choice((0, 1, 2, size - 1, size, size + 1, g.r.randrange(2 * size + 2)))
            if n > 70000:
                n = 5
            out.append(st(o, "slide", w(n), npy=g.npy()))
        else:
            out.append(st(o, "refill"))
    out.append(st(o, "get"))
    return out


def c11(g):
    out = []
    quick = g.scale <= 1
    sizes = [1, 2, 4, 8, 16, 256]
    for i, cfg in enumerate(RL_CONFIGS):
        # compiled mode: one class costs seconds, so a few sizes each
        for j, size in enumerate(sizes):
            for _ in range(g.n(2)):
                h = [rl_new(g, 1, cfg, size)] + rl_steps(g, 1, size, 24, cfg[3])
                if quick and (i + j) % 5:
                    h[0]["modes"] = ["FALSE"]
                out.append(h)
        if i % 3 == 0 or not quick:
            size = 128
            h = [rl_new(g, 1, cfg, size)] + rl_steps(g, 1, size, 10, cfg[3])
            h[0]["modes"] = ["FALSE"]
            out.append(h)
    for cfg, size in ((RL_CONFIGS[0], 65536), (RL_CONFIGS[1], 131072), (RL_CONFIGS[4], 4096), (RL_CONFIGS[3], 65536),
                      (RL_CONFIGS[2], 32768)):
        h = [rl_new(g, 1, cfg, size, big=True), st(1, "get")]
        h += [st(1, "skip", w(size - 2)), st(1, "get"), st(1, "get"), st(1, "slide", w(3)), st(1, "skip", w(65535)), st(1, "get"), st(1, "get")]
        h += rl_steps(g, 1, size, 10, cfg[3], gets=False)
        out.append(h)
    for i, size in ((0, 16), (1, 4096), (3, 8), (4, 65536)):
        for mode in ("TRUE", "FALSE"):
            h = [rl_new(g, 1, RL_CONFIGS[i], size, big=True), st(1, "slide", w(1)), st(1, "gets", w(3)), st(1, "far", w(65537), t=30),
                 st(1, "far", w(M32), t=0.5)]
            if mode == "TRUE":
                h.append(st(1, "far", w((1 << 20) + 3), t=30))
            h[0]["modes"] = [mode]
            out.append(h)
    for behaviour in g.behaviours:
        size = behaviour["size"]
        h = [rl_new(g, 1, RL_CONFIGS[0], size)]
        for op, k in behaviour["ops"]:
            h.append(st(1, op, w(k), npy=g.npy()) if op in ("skip", "slide") else st(1, op))
        out.append(h + [st(1, "gets", w(size + 1)), st(1, "slide1"), st(1, "gets", w(size))])
    for size in (0, 3, 5, 6, 7, 12, 100, 255, 65537):
        h = [dict(rl_new(g, 1, RL_CONFIGS[0], size), may=1)]
        out.append(h)
    return out


def any_step(g, o, cls):
    """one random call on any generator object"""
    if cls in LCG:
        k = g.r.random()
        wide = cls in LCG64
        if k < 0.3:
            return [st(o, "next")]
        if k < 0.45:
            return [st(o, "u32" if wide else "u16")]
        if k < 0.6:
            return [st(o, "jump", dw(cls, g.dist(lcg_bits(cls))))]
        if k < 0.7:
            return [st(o, "cjump", dw(cls, g.r.choice((3, 1000, 0x80000001))))]
        if k < 0.9 and cls in MULT:
            return [st(o, g.r.choice(("rand", "crand")), w(g.r.choice((2, 25, 100))))]
        return [st(o, "reinit", *g.seed(cls))]
    if cls in ("MT", "SFMT"):
        k = g.r.random()
        if k < 0.5:
            return [st(o, "nexts", w(g.r.choice((1, 2, 5, 311, 313, 625))))]
        if k < 0.7:
            return [st(o, "rand", d(max(1, g.u64())), npy=1) if cls == "SFMT" else st(o, "rand", w(g.max32()))]
        if k < 0.9:
            return [st(o, "adv", w(g.r.randrange(900)))]
        return [st(o, "reinit", *g.seed(cls))]
    if cls == "TINY":
        k = g.r.random()
        if k < 0.6:
            return [st(o, "nexts", w(g.r.randrange(1, 9)))]
        if k < 0.8:
            return [st(o, "randmod", w(g.max32()))]
        if k < 0.9:
            return [st(o, "adv", w(g.r.randrange(50)))]
        return [st(o, "reinit", *g.seed(cls))]
    return [dict(xs_step(g, cls), o=o)]


ALL = LCG + ["MT", "SFMT", "TINY", "XS", "XO", "XM"]


def c15(g):
    out = []
    for rnd in range(g.n(14)):
        classes = []
        for cls in ALL:
            classes += [cls] * g.r.choice((0, 1, 1, 2, 3))
        g.r.shuffle(classes)
        classes = classes[:14] or ["MT", "MT"]
        h = []
        o = 0
        kinds = {}
        for cls in classes:
            o += 1
            kinds[o] = cls
            h.append(new(o, cls, *g.seed(cls)))
            for _ in range(3):
                k = g.r.choice(list(kinds))
                h += any_step(g, k, kinds[k])
        # two lists of one class and one of another, over their own generators
        lists = []
        for cfg in (RL_CONFIGS[0], RL_CONFIGS[0], RL_CONFIGS[8]):
            o += 1
            lists.append((o, 4))
            h.append(rl_new(g, o, cfg, 4))
        for _ in range(60):
            k = g.r.choice(list(kinds) + [o for o, _ in lists])
            if k in kinds:
                h += any_step(g, k, kinds[k])
            else:
                h += rl_steps(g, k, 4, 1, 1)
        out.append(h)
    # same class, same calls in lock step, one object re-initialised to the other's seed
    for cls in ALL:
        for _ in range(g.n(3)):
            seed1, seed2 = g.seed(cls), g.seed(cls)
            h = [new(1, cls, *seed1), new(2, cls, *seed2)]
            for _ in range(12):
                h += any_step(g, g.r.choice((1, 2)), cls)
            h += [st(1, "reinit", *seed2), new(3, cls, *seed2)]
            for _ in range(8):
                steps = any_step(g, 1, cls)
                h += steps + [dict(s, o=3) for s in steps]
                h += any_step(g, 2, cls)
            out.append(h)
    # objects of every kind, each with a life of its own
    for _ in range(g.n(24)):
        parts = []

        def life(kind, like=None):
            o = len(parts) + 1
            if like:
                parts.append([dict(s, o=o) for s in like])
            elif kind == "SHA1":
                parts.append([sha_new(g, o)] + sha_setup(g, o) + sha_walk(g, o, 10))
            elif kind == "GEN3":
                game = g.r.choice((1, 2, 4, 8, 16))
                steps = [gen3_new(g, o, game, g.r.choice(list(ENC3.values())), g.r.choice((1, 2, 4)), g.r.choice((255, 3, 25, 26, 28, 32)))]
                parts.append(steps + [gen3_run(g, o, area3(g), 12) for _ in range(4)])
            elif kind == "CHOOSE8":
                steps = [new(o, "CHOOSE8", area=0, id=[], slots=slots8(g, g.r.randrange(1, 9)))]
                parts.append(steps + [st(o, "calc", w(g.r.randrange(4)), w(g.r.randrange(9)), w(12), w(g.r.getrandbits(24)), w(g.r.getrandbits(24)),
                                         npy=g.npy()) for _ in range(5)])
            elif kind == "RL":
                steps = [rl_new(g, o, g.r.choice(RL_CONFIGS[:4]), 4)]
                for _ in range(8):
                    steps += rl_steps(g, o, 4, 1, 1)
                parts.append(steps)
            else:
                steps = [new(o, kind, *g.seed(kind))]
                for _ in range(8):
                    steps += any_step(g, o, kind)
                parts.append(steps)

        for kind in ("SHA1", "SHA1", "GEN3", "GEN3", "CHOOSE8", "CHOOSE8", "RL", "MT", "SFMT", "TINY", "PokeRNGMod", "BWRNG"):
            if g.r.random() < 0.8:
                life(kind)
        # twins: the same calls at other moments
        for _ in range(2):
            life(None, g.r.choice(parts))
        h, alive = [], []
        while parts or alive:
            # objects are numbered in the order they come into being
            if parts and (not alive or g.r.random() < 0.2):
                part = parts.pop(0)
                h.append(part.pop(0))
                alive.append(part)
                continue
            part = g.r.choice(alive)
            h += part[:1]
            del part[:1]
            if not part:
                alive.remove(part)
        out.append(dict_first(h, "kinds"))
    return out


def c25(g):
    out = []
    h = [new(1, "UTIL")]
    for v in CORNER32 + [1 << i for i in range(32)] + [0x01020304, 0xFF000000, 0x00FF0000] + [g.u32() for _ in range(g.n(60))]:
        h.append(st(1, "bswap", w(v), npy=g.npy()))
        h.append(st(1, "hex", w(v), npy=g.npy()))
    out.append(h)
    for op, bits in (("rotl32", 32), ("rotr32", 32), ("rotl64", 64), ("rotr64", 64)):
        wid = d if bits == 64 else w
        h = [new(1, "UTIL")]
        for count in range(bits):
            for v in (1, 1 << (bits - 1), g.r.getrandbits(bits), (1 << bits) - 1, g.r.getrandbits(bits)):
                h.append(st(1, op, wid(v), w(count), npy=g.npy()))
        out.append(h)
    h = [new(1, "UTIL")]
    texts = ["", "a", "b", "foobar", "eve_ex_16_b", "ha_area01_s01_ev001", "\x00", "\x7f", "\xe9", "\u2642", "Pok\u00e9mon", "\U0001F600"]
    for _ in range(g.n(60)):
        texts.append("".join(chr(g.r.choice((g.r.randrange(32, 127), g.r.randrange(32, 127), g.r.randrange(1, 0x700))))
                             for _ in range(g.r.randrange(0, 40))))
    for text in texts:
        for op in ("fnv1", "fnv1a"):
            h.append(st(1, op, *[w(ord(c)) for c in text]))
    out.append(h)
    h = [new(1, "UTIL")]
    for v in [1, 3, M32, 0x41C64E6D, 0x6C078965, 0x343FD, 0x80000001, 0x7FFFFFFF] + [g.u32() | 1 for _ in range(g.n(80))]:
        h.append(st(1, "inv32", w(v)))
    for v in [1, 3, M64, 0x5D588B656C078965, (1 << 63) | 1, (1 << 32) | 1, M32] + [g.u64() | 1 for _ in range(g.n(80))]:
        h.append(st(1, "inv64", d(v)))
    # other moduli: prime, composite, even, small, beyond 2^31; values at, above and below zero
    moduli = [1, 2, 3, 7, 9, 15, 16, 21, 25, 100, 255, 256, 561, 65535, 65536, 65537, 1 << 31, M32 - 4, M32, M32 - 1, 0x7FFFFFFF]
    for m in moduli + [g.u32() or 1 for _ in range(g.n(40))]:
        for v in (0, 1, 2, 3, m - 1, m, min(m + 1, M32), g.u32(), g.u32()):
            h += [st(1, "inv", w(v), w(negative), w(m)) for negative in (0, 1)]
    out.append(h)
    h = [new(1, "XO", d(0))]
    for i in range(32):
        h += [st(1, "mask", w(max(1, min(M32, (1 << i) + off))), npy=g.npy()) for off in (-1, 0, 1)]
    out.append(h + [st(1, "mask", w(M32))])
    return out + names_la(g)


def c14(g):
    """every operation, both argument representations"""
    out = []
    small = Gen(g.r.random(), "c14", 0.25 * g.scale)
    for fun in (c01, c02, c04, c05, c06, c07, c08, c09, c10, c11, c25):
        for h in fun(small):
            if "modes" not in h[0]:
                out.append(h)
    for fun in (c12, c13, c15, c16, c17, c18, c21, c22):
        more = [h for h in fun(small) if "modes" not in h[0]]
        out += small.r.sample(more, min(len(more), g.n(60)))
    return out


LANGS = "ENGLISH FRENCH GERMAN ITALIAN JAPANESE KOREAN SPANISH".split()
BW = "BLACK WHITE BLACK2 WHITE2".split()
DS = "DS DSI DS3".split()


def sha_new(g, o, lang=None, game=None, ds=None):
    mac = g.r.choice((0, (1 << 48) - 1, 0x9BF123456, g.r.getrandbits(48), g.r.getrandbits(48), 1 << g.r.randrange(48)))
    byte = lambda: g.r.choice((0, 255, 6, g.r.randrange(256)))  # noqa: E731
    return new(o, "SHA1", d(mac), w(byte()), w(byte()), npy=g.npy(), lang=lang or g.r.choice(LANGS), game=game or g.r.choice(BW),
               ds=ds or g.r.choice(DS), soft=bool(g.npy()))


def sha_set(g, o, what):
    if what == "button":
        return st(o, what, w(g.r.choice((0xFF2F0000, g.r.choice(CORNER32), g.r.getrandbits(32)))), npy=g.npy())
    if what == "date":
        return st(o, what, w(2000 + g.r.choice((0, 9, 10, 99, g.r.randrange(100)))), w(g.r.randrange(1, 13)), w(g.r.randrange(1, 32)),
                  w(g.r.randrange(7)), npy=g.npy())
    if what == "time":
        return st(o, what, w(g.r.choice((0, 9, 10, 11, 12, 13, 23, g.r.randrange(24)))), w(g.r.randrange(60)), w(g.r.randrange(60)), npy=g.npy())
    return st(o, what, w(g.r.choice((0, 0xFFFF, g.r.getrandbits(16)))), w(g.r.choice((0, 255, g.r.randrange(256)))), npy=g.npy())


SETTERS = ["button", "date", "time", "timer"]


def sha_setup(g, o):
    order = SETTERS[:]
    g.r.shuffle(order)
    return [sha_set(g, o, s) for s in order]


def c12(g):
    out = []
    for lang in LANGS:
        for game in BW:
            for ds in DS:
                for _ in range(g.n(1)):
                    h = [sha_new(g, 1, lang, game, ds)] + sha_setup(g, 1) + [st(1, "pre"), st(1, "hash")]
                    h += [sha_set(g, 1, "time"), st(1, "hash"), sha_set(g, 1, "button"), st(1, "hash")]
                    out.append(h)
    # every value of every date and time field, on each kind of console
    for ds in DS:
        h = [sha_new(g, 1, ds=ds)] + sha_setup(g, 1) + [st(1, "pre")]
        for hour in range(24):
            h += [st(1, "time", w(hour), w(g.r.randrange(60)), w(g.r.randrange(60)), npy=g.npy()), st(1, "hash")]
        for value in range(60):
            h += [st(1, "time", w(g.r.randrange(24)), w(value), w(59 - value), npy=g.npy()), st(1, "hash")]
        out.append(h)
    h = [sha_new(g, 1)] + sha_setup(g, 1)
    for year in range(100):
        h += [st(1, "date", w(2000 + year), w(1 + year % 12), w(1 + year % 31), w(year % 7), npy=g.npy()), st(1, "pre"), st(1, "hash")]
    out.append(h)
    h = [sha_new(g, 1)] + sha_setup(g, 1)
    for i in range(32):
        h += [st(1, "button", w(1 << i), npy=g.npy()), st(1, "timer", w(1 << (i % 16)), w(1 << (i % 8)), npy=g.npy()), st(1, "pre"), st(1, "hash")]
    out.append(h)
    for i in range(48):
        h = [sha_new(g, 1)] + sha_setup(g, 1) + [st(1, "pre"), st(1, "hash")]
        h[0]["a"] = [d(1 << i), w(1 << (i % 8)), w(1 << ((i + 3) % 8))]
        out.append(h)
    for _ in range(g.n(120)):
        out.append([sha_new(g, 1)] + sha_setup(g, 1) + [st(1, "pre"), st(1, "hash")])
    return out


def sha_walk(g, o, count, two=()):
    """one search on object o: setters, precomputations and seeds in any valid order"""
    h, ready = [], False
    for _ in range(count):
        k = g.r.random()
        if k < 0.4:
            if not ready:
                h.append(st(o, "pre"))
                ready = True
            h.append(st(o, "hash"))
        elif k < 0.5:
            h.append(st(o, "pre"))
            ready = True
        else:
            what = g.r.choice(SETTERS)
            h.append(sha_set(g, o, what))
            ready = ready and what in ("button", "time")
    return h + ([] if ready else [st(o, "pre")]) + [st(o, "hash")]


def c13(g):
    out = []
    if g.behaviours:
        values = {f: [None, sha_set(g, 1, f), sha_set(g, 1, f)] for f in SETTERS}
        for behaviour in g.behaviours:
            h = [sha_new(g, 1)] + [dict(values[f][1]) for f in SETTERS]
            for op, v in behaviour:
                h.append(dict(values[op][v]) if op in SETTERS else st(1, op))
            out.append(h)
    for _ in range(g.n(60)):
        out.append([sha_new(g, 1)] + sha_setup(g, 1) + sha_walk(g, 1, 30))
    # several searches interleaved on their own objects
    for _ in range(g.n(25)):
        parts = [[sha_new(g, o)] + sha_setup(g, o) + sha_walk(g, o, 12) for o in (1, 2, 3)]
        h = []
        for part in parts:
            h.append(part.pop(0))
        while any(parts):
            h.append(g.r.choice([p for p in parts if p]).pop(0))
        out.append(h)
    return out


# ---------------------------------------------------------------------------
# Gen 3

ENC3 = {"grass": 0, "rock": 3, "surf": 4, "old": 6, "good": 7, "super": 8}
POOLS = {
    "electric": [25, 26, 81, 82, 100, 125, 170, 172, 179, 239, 243, 309, 310, 311, 312],
    "steel": [81, 82, 205, 208, 212, 227, 304, 305, 306, 374, 379],
    "grass": [1, 2, 43, 70, 114, 152, 187, 270, 273, 285, 315, 331, 345],
    "fire": [4, 37, 58, 77, 126, 155, 218, 219, 228, 229, 255, 322, 324, 351],
    "water": [7, 54, 60, 72, 79, 86, 118, 129, 183, 186, 194, 223, 278, 318, 320, 339, 349, 370],
    "fixed": [29, 32, 30, 33, 113, 124, 128, 241, 236, 238, 313, 314, 380, 381],
    "genderless": [81, 100, 120, 137, 132, 144, 292, 337, 343],
    "ratios": [1, 4, 7, 35, 37, 39, 58, 63, 66, 133, 209, 222, 296, 300, 16, 19, 129],
}


def slot3(g, kind=None):
    kind = kind or g.r.choice(list(POOLS) + ["any", "any", "any"])
    species = g.r.choice(POOLS[kind]) if kind in POOLS else g.r.randrange(1, 387)
    low = g.r.choice((1, 2, 5, g.r.randrange(1, 101), g.r.randrange(1, 101)))
    high = g.r.choice((low, low, min(100, low + 1), min(100, low + g.r.randrange(12)), g.r.randrange(low, 101), 100))
    return [low, high, species]


def area3(g, kind=None, location=None):
    rate = lambda: g.r.choice((0, 1, 10, 20, 90, 179, 180, 181, 255, g.r.randrange(256)))  # noqa: E731
    out = [location if location is not None else g.r.choice((0, 1, 20, 72, 73, 74, 89, 90, 97, 98, 92, 187, 186, 188, 189, 91, 300, g.r.randrange(400)))]
    for count in (12, 5, 5, 10):
        out.append(rate())
        for _ in range(count):
            out += slot3(g, kind)
    return out


def unown_area(g):
    area = area3(g)
    forms = g.r.sample(range(28), 12)
    for i in range(12):
        area[2 + 3 * i + 2] = 201 | forms[i] << 11
    return area


def gen3_new(g, o, game, enc, method, lead):
    return dict(new(o, "GEN3", w(g.r.getrandbits(16)), w(g.r.getrandbits(16)), npy=g.npy(), game=game, enc=enc, method=method, lead=lead,
                    enum=g.npy()))


def gen3_run(g, o, area, count, seed=None, delay=None, start=None, npy=None):
    if start is None:
        start = g.r.choice((0, 0, 1, 1000, 0x7FFFFFFF, 0x80000000, M32 - count, M32 + 1 - count, g.r.getrandbits(32) % (M32 - count), g.r.randrange(100000)))
    return st(o, "gen", w(g.u32() if seed is None else seed), w(g.r.choice((0, 0, 1, 700, M32, g.u32())) if delay is None else delay),
              w(start), w(count), area, npy=g.npy() if npy is None else npy)


def entries3(g, game):
    """numbers and contents of a game's own areas"""
    name, tag = {1: ("rs", "Ruby"), 2: ("rs", "Sapphire"), 4: ("e", ""), 8: ("frlg", "FireRed"), 16: ("frlg", "LeafGreen")}[game]
    tree = json.loads((g.res / "encount" / f"{name}_wild_encounters.json").read_text(encoding="utf-8"))
    entries = enumerate(e for e in tree["wild_encounter_groups"][0]["encounters"] if tag in e["base_label"])
    return [(n, e) for n, e in entries if "Unused" not in e["base_label"] and "AlteringCave" not in e["base_label"]]


def hunts(g, count):
    """generators at work in their game's own areas"""
    kinds = {"grass": "land_mons", "rock": "rock_smash_mons", "surf": "water_mons", **{rod: "fishing_mons" for rod in ("old", "good", "super")}}
    out = []
    for game in (1, 2, 4, 8, 16):
        entries = entries3(g, game)
        for kind, key in kinds.items():
            # a rare letter of a rare gender takes too long to find
            there = [(n, e) for n, e in entries if key in e and (g.res == RES or "UNOWN" not in json.dumps(e[key]))]
            h = [gen3_new(g, 1, game, ENC3[kind], g.r.choice((1, 2, 4)), g.r.choice((255, 255, 3, 20, 25, 26, 28, 29, 32)))]
            for n, _ in g.r.sample(there, min(count, len(there))):
                h.append(dict(gen3_run(g, 1, w(n), 6), op="hunt"))
            out.append(dict_first(h, "hunt"))
    return out


def g3_seed(g, pos, value, ok=lambda draws: True):
    """a seed whose draw number pos is the given 16-bit value and whose draws (from 1) please ok"""
    inv = MULT["PokeRNGRMod"]
    while True:
        s = value << 16 | g.r.getrandbits(16)
        for _ in range(pos):
            s = (s - 0x6073) * inv & M32
        draws, t = [s], s
        for _ in range(14):
            t = (t * MULT["PokeRNGMod"] + 0x6073) & M32
            draws.append(t >> 16)
        if ok(draws):
            return s


def pid_at(draws, k):
    return draws[k + 1] << 16 | draws[k]


def c16_aimed(g):
    """seeds whose draws lie on the edges of the decisions"""
    out = []
    rnd = g.r.getrandbits
    # cute charm: the first matching PID has the species' threshold, or one less, as its low byte
    for lead in (25, 26):
        for species, ratio in ((1, 31), (63, 63), (16, 127), (35, 191), (29, 254), (32, 0), (81, 255)):
            for low in {ratio, max(0, ratio - 1), min(255, ratio + 1)}:
                charmed = ratio in (31, 63, 127, 191)
                k = 5 if charmed else 4
                seed = g3_seed(g, k, rnd(8) << 8 | low, lambda v: pid_at(v, k) % 25 == v[k - 1] % 25 and (not charmed or v[3] % 3))
                area = area3(g, location=0)
                area[2:38] = [x if i % 3 < 2 else species for i, x in enumerate(area[2:38])]
                out.append([gen3_new(g, 1, 4, 0, g.r.choice((1, 3, 4)), lead), gen3_run(g, 1, area, 2, seed=seed, delay=0, start=0)])
    # rock smash: the draw is just below or at the rate
    for game in (1, 2, 4):
        for rate in (1, 20, 90, 179, 180):
            for edge in (0, 16 * rate - 1, 16 * rate, 2879):
                if edge < 2880:
                    area = area3(g)
                    area[54] = rate
                    seed = g3_seed(g, 1, g.r.choice([v for v in range(edge, 65536, 2880)]))
                    out.append([gen3_new(g, 1, game, 3, g.r.choice((1, 3, 4)), 255), gen3_run(g, 1, area, 1, seed=seed, delay=0, start=0)])
    # the slot draw at both ends of each slot's share; the level draw at both ends of the range
    for enc, odds in ((0, (20, 20, 10, 10, 10, 10, 5, 5, 4, 4, 1, 1)), (4, (60, 30, 5, 4, 1)), (6, (70, 30)), (7, (60, 20, 20)), (8, (40, 40, 15, 4, 1))):
        h = [gen3_new(g, 1, g.r.choice((4, 8)), enc, 1, 255)]
        below = 0
        for share in odds:
            for v in {below, below + share - 1}:
                h.append(gen3_run(g, 1, area3(g), 1, seed=g3_seed(g, 1, v + 100 * g.r.randrange(655)), delay=0, start=0))
            below += share
        out.append(h)
    for lead in (255, 32):
        h = [gen3_new(g, 1, 4, 0, 1, lead)]
        for v in (0, 1, 2, 9, 10):
            area = area3(g)
            area[2:38] = [x if i % 3 == 2 else 20 + 10 * (i % 3) for i, x in enumerate(area[2:38])]
            for half in (0, 1):
                h.append(gen3_run(g, 1, area, 1, seed=g3_seed(g, 2, v + 11 * g.r.randrange(5900), lambda w_: w_[3] % 2 == half), delay=0, start=0))
        out.append(h)
    # magnet pull and static: every size of the attracted part, its first and last slot
    for lead, kind in ((27, "steel"), (28, "electric")):
        for size in range(13):
            area = area3(g, "fixed")
            pos = g.r.sample(range(12), size)
            for p in pos:
                area[2 + 3 * p + 2] = g.r.choice(POOLS[kind])
            h = [gen3_new(g, 1, 4, 0, 1, lead)]
            for v in {0, size - 1} if size else {0}:
                h.append(gen3_run(g, 1, area, 1, delay=0, start=0,
                                  seed=g3_seed(g, 2, v + max(1, size) * g.r.randrange(65000 // max(1, size)), lambda w_: w_[1] % 2 == 0)))
            h.append(gen3_run(g, 1, area, 3))
            out.append(h)
    # shininess at its edges, for trainers made to fit
    for xor in 4 * (0, 0, 1, 7, 8, 9, 15, 16, 0x100, 0x8000):
        seed = g3_seed(g, 4, rnd(16), lambda v: pid_at(v, 4) % 25 == v[3] % 25)
        s, v = seed, []
        for _ in range(6):
            s = (s * MULT["PokeRNGMod"] + 0x6073) & M32
            v.append(s >> 16)
        tid = rnd(16)
        step = gen3_new(g, 1, g.r.choice((8, 4)), 0, 1, 255)
        step["a"] = [w(tid), w(tid ^ v[3] ^ v[4] ^ xor)]
        out.append([step, gen3_run(g, 1, area3(g, location=0), 1, seed=seed, delay=0, start=0)])
    return out


def c16(g):
    out = c16_aimed(g)
    methods = (1, 3, 4, 1, 3, 4, 0, 2)
    n = 10 if g.scale <= 1 else 40
    # Emerald: every lead, every encounter type
    for lead in list(range(36)) + [255]:
        for k, enc in enumerate(ENC3.values()):
            kind = {27: "steel", 28: "electric", 25: "ratios", 26: "ratios"}.get(lead) if g.r.random() < 0.3 else None
            h = [gen3_new(g, 1, 4, enc, methods[(lead + k) % 8], lead)]
            h.append(gen3_run(g, 1, area3(g, kind), n))
            if lead in (25, 26, 27, 28, 32, 255):
                h.append(gen3_run(g, 1, area3(g), 2 * n))
                h.append(gen3_run(g, 1, area3(g, "fixed" if lead < 27 else "any"), n))
            out.append(h)
    # the other games, whatever lead is asked for
    for game in (1, 2, 8, 16):
        for enc in ENC3.values():
            for method in (1, 3, 4):
                h = [gen3_new(g, 1, game, enc, method, g.r.choice((255, 255, 3, 25, 26, 27, 28, 32)))]
                h.append(gen3_run(g, 1, area3(g), n))
                out.append(h)
    # by user code
    for game, lead in ((4, 25), (4, 28), (4, 7), (1, 255), (8, 255)):
        h = [gen3_new(g, 1, game, g.r.choice((0, 4)), g.r.choice((1, 3, 4)), lead)]
        for op in ("within", "gen", "lent", "within", "lent", "gen"):
            h.append(dict(gen3_run(g, 1, area3(g), 4), op=op))
        out.append(h)
    # rock smash at every kind of rate, on both sides of each boundary
    for game in (1, 2, 4, 8, 16):
        for rate in (0, 1, 20, 90, 179, 180, 255):
            area = area3(g)
            area[54] = rate
            out.append([gen3_new(g, 1, game, 3, g.r.choice((1, 3, 4)), g.r.choice((255, 28, 10))), gen3_run(g, 1, area, 3 * n)])
    # safari zones and their neighbours
    for game in (1, 2, 4, 8, 16):
        for location in (20, 72, 73, 74, 97, 98, 89, 90, 91, 92, 186, 187, 188, 189, 0, 19, 21, 71, 75, 96, 99, 88, 93, 185, 190):
            if game < 8 or location % 7 == 0:
                out.append([gen3_new(g, 1, game, g.r.choice((0, 3, 4, 8)), 1, g.r.choice((255, 5, 25))),
                            gen3_run(g, 1, area3(g, location=location), 3)])
    # Unown
    for game in (8, 16, 4):
        out.append([gen3_new(g, 1, game, 0, g.r.choice((1, 3, 4)), 255), gen3_run(g, 1, unown_area(g), g.n(4))])
    # other encounter types walk on land
    for enc in (1, 2, 5, 9, 10):
        out.append([gen3_new(g, 1, 4, enc, 1, 255), gen3_run(g, 1, area3(g), 4)])
    # a window split into parts
    for game in (1, 2, 4, 4, 8, 16):
        for enc in ENC3.values():
            area, seed, delay = area3(g), g.u32(), g.r.choice((0, 1, 55, M32))
            start, a, b = g.r.choice((0, 3, 99999)), g.r.randrange(1, 6), g.r.randrange(0, 6)
            npy = g.npy()
            runs = [(start, a + b), (start, a), (start + a, b), (start + 1, 0)]
            h = [gen3_new(g, 1, game, enc, g.r.choice((1, 3, 4)), g.r.choice((255, 32, 26, 28)))]
            h += [gen3_run(g, 1, area, c, seed, delay, s, npy) for s, c in runs]
            h += [gen3_run(g, 1, area, a, seed, (delay + start) & M32, 0, npy)]
            out.append(h)
    # seeds and distances bit by bit
    h = [gen3_new(g, 1, 4, 0, 1, 255)]
    area = area3(g)
    for bit in range(32):
        h += [gen3_run(g, 1, area, 1, seed=1 << bit), gen3_run(g, 1, area, 1, delay=1 << bit), gen3_run(g, 1, area, 1, start=1 << bit)]
    out.append(h)
    for h in out:
        h[0]["grp"] = "gen3-%d" % (len(h) % 2)
    out += hunts(g, g.n(6))
    return out


def state3(g, o, game, species=None, form=None):
    ivs = [g.r.choice((0, 31, 30, 15, 16, g.r.randrange(32), g.r.randrange(32))) for _ in range(6)]
    if g.r.random() < 0.2:
        ivs = [ivs[0]] * 6
    level = g.r.choice((1, 2, 5, 50, 99, 100, g.r.randrange(1, 101)))
    if species is None:
        species = g.r.randrange(1, 387)
    if form is None:
        form = g.r.choice((0, 0, 1, 27, g.r.randrange(28)))
    return new(o, "STATE3", w(g.u32()), w(g.u32()), w(species), w(form), ivs, w(g.npy()), w(level), w(g.r.randrange(3)), npy=g.npy(), game=game)


def c17(g):
    out = []
    for game in (1, 4, 8, 16):
        for first in range(0, 387, 16):
            h = []
            for o, species in enumerate(range(first, min(first + 16, 387)), 1):
                h += [state3(g, o, game, species), st(o, "attrs"), st(o, "csv" if (species + game) % 3 else "line")]
            out.append(h)
    for _ in range(g.n(60)):
        h = []
        for o in range(1, 9):
            h += [state3(g, o, g.r.choice((1, 2, 4, 8, 16))), st(o, "attrs")]
        out.append(h)
    # every nature, ability slot, gender byte, letter
    h = []
    for o in range(1, 101):
        step = state3(g, o, g.r.choice((1, 4, 8, 16)))
        step["a"][1] = w((g.r.getrandbits(32) // 25 * 25 + o % 25) & M32)
        h += [step, st(o, "attrs")]
    out.append(h)
    h = [new(1, "UTIL3")]
    for value in (range(0, 720) if g.scale > 1 else sorted(set(list(range(0, 60)) + g.r.sample(range(60, 720), 150)))):
        h.append(st(1, "stat", w(value), npy=g.npy()))
    out.append(h)
    h = [new(1, "UTIL3")]
    for ratio in (0, 1, 31, 63, 127, 191, 225, 253, 254, 255):
        for low in (0, 1, ratio, max(0, ratio - 1), min(255, ratio + 1), 254, 255, g.r.randrange(256)):
            h.append(st(1, "gender", w(g.r.getrandbits(24) << 8 | low), w(ratio), npy=g.npy()))
    out.append(h)
    h = [new(1, "UTIL3")]
    for _ in range(g.n(100)):
        tsv, low = g.r.choice((0, 0xFFFF, g.r.getrandbits(16))), g.r.getrandbits(16)
        xor = g.r.choice((0, 1, 7, 8, 9, 15, 16, 0x8000, 1 << g.r.randrange(16), g.r.randrange(16)))
        h.append(st(1, "shiny", w((low ^ tsv ^ xor) << 16 | low), w(tsv), npy=g.npy()))
    out.append(h)
    h = [new(1, "UTIL3")]
    for letter in list(range(256)):
        pid = (g.r.getrandbits(32) & 0xFCFCFCFC) | (letter >> 6) << 24 | (letter >> 4 & 3) << 16 | (letter >> 2 & 3) << 8 | letter & 3
        h.append(st(1, "unown", w(pid), w(g.r.choice((letter % 28, letter % 28, g.r.randrange(28)))), npy=g.npy()))
    out.append(h)
    # in generated encounters
    for game in (1, 4, 8):
        h = [gen3_new(g, 1, game, 0, 1, 255), gen3_run(g, 1, area3(g), g.n(30))]
        h[0]["grp"] = "gen3"
        out.append(h)
    for h in out:
        if h[0]["c"]["k"] == "STATE3":
            h[0]["grp"] = "state3-%d" % (any(s["op"] == "csv" for s in h))
    return out


def dict_first(h, grp):
    return [dict(h[0], grp=grp)] + h[1:]


def c18(g):
    out = []
    quick = g.scale <= 1

    def distinct():
        area, k = [g.r.randrange(300)], 1
        for count in (12, 5, 5, 10):
            area.append(g.r.randrange(256))
            for _ in range(count):
                area += [k, 100 - k, k * 7]
                k += 1
        return area

    for enc in range(20):
        real = enc in ENC3.values()
        chunks = 66 if real and not quick else 2 if real else 1
        start, delta = sweep("PokeRNGMod", g.r.getrandbits(32), 1)
        per = 1000 if chunks > 2 else 100
        for chunk in range(chunks):
            out.append([new(1, "UTIL3"), st(1, "slots", w(per), w(start + chunk * per * delta), w(delta), w(enc), distinct())])
        h = [new(1, "UTIL3")]
        for _ in range(3):
            h.append(st(1, "rate", distinct(), w(enc)))
        out.append(h)
    ranges = [(60, 200), (180, 255), (1, 1), (1, 2), (5, 7), (20, 30), (1, 100), (100, 100), (50, 99), (2, 4), (30, 35), (3, 66)]
    ranges += [tuple(sorted((g.r.randrange(1, 101), g.r.randrange(1, 101)))) for _ in range(g.n(15))]
    for low, high in ranges:
        for pressure in (0, 1):
            start, delta = sweep("PokeRNGMod", g.r.getrandbits(32), g.r.choice((1, 1, 601)))
            out.append([new(1, "UTIL3"), st(1, "levels", w(150 if quick else 1500), w(start), w(delta), w(low), w(high), w(pressure))])
    # leads that attract a type
    wanted = {27: "steel", 28: "electric", 29: "grass", 30: "fire", 31: "water"}
    h = [new(1, "UTIL3")]
    for enc in ENC3.values():
        for lead in list(wanted) * g.n(1) + [255, 0, 32]:
            for kind in (wanted.get(lead, "any"), None, "fixed"):
                game, npy = g.r.choice((1, 2, 4, 8, 16)), g.npy()
                area = area3(g, kind)
                h.append(st(1, "attracted", w(enc), w(lead), w(game), area, npy=npy))
                if kind != "fixed":
                    start, delta = sweep("PokeRNGMod", g.r.getrandbits(32), g.r.choice((1, 601)))
                    h.append(st(1, "leads", w(12), w(start), w(delta), w(enc), w(lead), w(game), area, npy=npy))
    for part in range(0, len(h) - 1, 40):
        out.append(dict_first(h[:1] + h[1 + part:41 + part], "gen3"))
    for enc in ENC3.values():
        for lead in (255, 32, 27, 28):
            h = [gen3_new(g, 1, 4, enc, 1, lead), gen3_run(g, 1, area3(g, wanted.get(lead)), 30 if quick else 300)]
            h[0]["grp"] = "gen3"
            out.append(h)
    return out


# -- shipped data -----------------------------------------------------------------
AREAS = (1, 2, 3, 4, 5)


def text(t):
    return [ord(c) for c in t]


def raw(name, res=RES):
    return (res / "encount" / "la" / f"{name}.bin").read_bytes()


def c19(g):
    out = []
    groups = {1: "rs", 2: "rs", 4: "e", 8: "frlg", 16: "frlg"}
    for game, name in groups.items():
        entries = json.loads((g.res / "encount" / f"{name}_wild_encounters.json").read_text())["wild_encounter_groups"][0]["encounters"]
        tag = {1: "Ruby", 2: "Sapphire", 4: "", 8: "FireRed", 16: "LeafGreen"}[game]
        count = sum(tag in e["base_label"] for e in entries)
        for n, src in enumerate(("dict", "load", "const")):
            h = [new(1, "ENC3", game=game, src=src), st(1, "count")]
            for i in range(count):
                if n == 0 or i % 7 == n:
                    h += [st(1, "area", w(i)), st(1, "name", w(i))]
            out.append(h)
    # the clean-up on names of its own making
    words = ["ROUTE", "ROOM", "MAP", "B", "F", "R", "CAVE", "Mt", "mcX", "1F", "B2F", "3R", "12R", "B10F", "12F", "Room10", "101R", "ROUTE1", "ROUTE104", "route7",
             "Room2", "ROOM11", "ROUTEA1", "BF", "B1R", "1B", "2", "F1", "1FX", "B1FX", "ROUTE12A", "ROOMS1", "A", "z", "b1F", "1f", "XMAP", "ROOM01", "Room0", "ROUTE007", "Route0", "01F", "B01F", "00R"]
    h = [new(1, "ENC3", game=1, src="dict")]
    for k in range(g.n(150)):
        n = 1 + k % 5
        name = ("MAP_" if g.r.random() < 0.7 else "") + "_".join(g.r.choice(words) for _ in range(n))
        if g.r.random() < 0.1:
            name = name.replace("_", g.r.choice((" ", "__")), 1)
        h.append(st(1, "clean", text(name)))
    out.append(h)
    return out


# -- FlatBuffers
SCALARS = "u8 i8 u16 i16 u32 i32 u64 i64 f32 f64".split()


def fb_table(g, depth):
    """a random table and what it holds"""
    table = {}
    for f in range(g.r.choice((0, 1, 3, 6, 10, 20))):
        k = g.r.random()
        if k < 0.25:
            continue
        if k < 0.7 or depth == 0:
            kind = g.r.choice(SCALARS)
            bits = 8 * flat.SIZES[kind]
            val = g.r.choice((0, 1, (1 << bits) - 1, 1 << bits - 1, (1 << bits - 1) - 1, g.r.getrandbits(bits)))
            if kind == "f32" and (val >> 23 & 255) == 255 or kind == "f64" and (val >> 52 & 2047) == 2047:
                val = 0x40490FDB if kind == "f32" else 0x400921FB54442D18  # no infinities
            table[f] = (kind, val)
        elif k < 0.78:
            table[f] = ("str", g.r.choice(("", "a", "abc", "a\0b", "\0", "Pok\u00e9mon", "\u2642\u2640", "x" * 40, "\U0001F600!", "\ufeffa", " a ", "\n", "a\0", "x" * 70000 if g.r.random() < 0.01 else "\ufeff")).encode())
        elif k < 0.84:
            table[f] = {i: ("f32", g.r.choice((0, 0x3F800000, 0x80000000, 0xC2280000))) for i in range(3) if g.r.random() < 0.8}
            table[f]["vec"] = True
        elif k < 0.92:
            table[f] = fb_table(g, depth - 1)
        else:
            table[f] = [fb_table(g, depth - 1) for _ in range(g.r.choice((0, 0, 1, 2, 3)))]
    return table


def fb_strip(val):
    if isinstance(val, dict):
        return {k: fb_strip(v) for k, v in val.items() if k != "vec"}
    return [fb_strip(v) for v in val] if isinstance(val, list) else val


def fb_read(g, val):
    """kinds of reads that suit a value"""
    if val is None:
        op = g.r.choice(("val", "enum", "obj", "arr", "str", "vec", "cast", "isset"))
        return op, 1 + g.r.randrange(8 if op in ("cast", "isset") else 10)
    if isinstance(val, dict):
        return ("vec" if val.get("vec") and g.r.random() < 0.9 else "obj"), 1
    if isinstance(val, list):
        return "arr", 1
    if val[0] == "str":
        return "str", 1
    kind = SCALARS.index(val[0])
    if val[0] not in ("f32", "f64") and g.r.random() < 0.3:
        kind ^= 1  # the other signedness
    if kind < 8 and g.r.random() < 0.6:
        return g.r.choice(("enum", "cast", "isset", "member") if kind < 2 else ("enum", "cast", "isset")), kind + 1
    return "val", kind + 1


def fb_history(g, steps):
    root = fb_table(g, 3)
    h = [new(1, "FB", buf=flat.write(g.r, fb_strip(root)), array=g.npy())]
    nodes, counter = [root], [4]
    for _ in range(steps):
        n = g.r.randrange(len(nodes)) if g.r.random() < 0.7 else len(nodes) - 1
        k = g.r.random()
        if k < 0.08:
            size = g.r.choice((0, 1, 2, 5))
            h.append(st(1, "skip", w(n + 1), w(size)))
            counter[n] += 2 * size
            continue
        if k < 0.1:
            h.append(st(1, "dump", w(n + 1)))
            continue
        seq = k < 0.6
        if seq:
            pos = counter[n]
            counter[n] += 2
        else:
            fields = [f for f in nodes[n] if f != "vec"]
            pos = 4 + 2 * (g.r.choice(fields) if fields and g.r.random() < 0.8 else g.r.randrange(24))
        val = nodes[n].get((pos - 4) // 2)
        op, kind = fb_read(g, val)
        default = [] if g.r.random() < 0.4 else [g.r.choice((0, 1, -1, 7))]
        h.append(st(1, ("s" if seq else "") + op, w(n + 1), w(kind), default, w(pos)))
        if val is not None and op == "obj":
            nodes.append(val)
            counter.append(4)
        elif val is not None and op == "arr":
            nodes += val
            counter += [4] * len(val)
    return h


def i32_(g, corner=(0, 1, -1, 2, 100, 101, 0x7FFFFFFF, -0x80000000)):
    return ("i32", g.r.choice((g.r.choice(corner), g.r.getrandbits(31), g.r.randrange(200))))


def f32_(g):
    return ("f32", g.r.choice((0, 0x3F800000, 0xBF800000, 0x3F99999A, 0x3F4CCCCD, 0x40A00000, 0x80000000)))


def u64_(g):
    return ("u64", g.u64())


def some(g, fields, p=0.75):
    """a random part of the fields"""
    return {k: v for k, v in fields.items() if g.r.random() < p}


def multipliers_(g, first):
    return some(g, {first + i: f32_(g) for i in range(12)})


def record8(g, kind, key):
    n = g.r.randrange(4)
    if kind == "multiplier":
        return {0: ("i32", key), **({1: ("i32", key % 3)} if key % 3 or g.npy() else {}), **multipliers_(g, 2)}
    if kind == "misc":
        return {0: ("i32", key), **({1: ("i32", key % 3)} if key % 3 or g.npy() else {}), **some(g, {i: i32_(g) for i in range(2, 23)})}
    ident = {0: ("u64", key << 33 | key)}
    if kind == "spawner":
        place = {**some(g, {i: i32_(g) for i in range(7)}), 7: some(g, {i: f32_(g) for i in range(3)}), **some(g, {8: i32_(g), 9: i32_(g)})}
        f20 = {0: u64_(g), **some(g, {i: i32_(g) for i in range(1, 9)})}
        flags = {i: ("i8", g.r.choice((0, 1))) for i in (9, 10, 11, 12, 13)}
        return {**ident, 1: ("u64", (key + 5) << 40), 2: [place] * (1 + n % 2), **some(g, {i: i32_(g) for i in (3, 4, 5, 6, 7, 8)}), **some(g, flags),
                **some(g, {i: i32_(g) for i in range(14, 20)}), 20: [f20] * (1 + n // 2), **some(g, {21: i32_(g), 22: i32_(g)})}
    if kind == "encounter":
        def slot():
            elig = {**some(g, {i: i32_(g) for i in range(7)}), **multipliers_(g, 7)}
            oybn = some(g, {i: ("i8", g.r.choice((0, 1))) for i in range(4)})
            return {**some(g, {i: i32_(g) for i in range(45)}, 0.6), 45: elig, 46: oybn}
        return {**ident, **some(g, {1: i32_(g), 2: i32_(g)}), **({3: [slot() for _ in range(n)]} if n else some(g, {3: []}))}
    if kind == "group":
        waves = [{**some(g, {i: i32_(g) for i in range(7)}), **some(g, {7: u64_(g), 8: i32_(g)})} for _ in range(n)]
        return {**ident, 1: waves, **some(g, {2: u64_(g)})}
    base = key << 20
    parts = {}
    for f in (1, 2, 3):
        parts[f] = [{0: ("u64", base | f << 8 | i), **some(g, {1: i32_(g)})} for i in range(g.r.randrange(4))]
    return {**ident, **{f: v for f, v in parts.items() if v or g.npy()}}


KINDS8 = ("spawner", "multiplier", "misc", "encounter", "group", "lottery")
FILES8 = ([("spawner", f"ha_area{a:02d}_spawner") for a in AREAS] + [("encounter", f"ha_area{a:02d}_encounter") for a in AREAS]
          + [("multiplier", "poke_encount"), ("misc", "poke_misc"), ("group", "new_huge_outbreak_group"), ("lottery", "new_huge_outbreak_group_lottery")])


def c22(g):
    # tables written by the specification, read and skipped in sequence
    out = [[new(1, "FB", buf=b["buf"], array=g.npy())] + [st(1, op, *a, npy=g.npy()) for op, a in b["ops"]] for b in g.behaviours]
    for _ in range(g.n(250)):
        out.append(fb_history(g, g.r.choice((10, 20, 40))))
    # long vectors
    for n in (300, 4097, 5000) if g.scale <= 1 else (255, 256, 4096, 9000, 33000):
        root = {1: [{0: ("u8", i & 255)} for i in range(n)]}
        out.append([new(1, "FB", buf=flat.write(g.r, root), array=g.npy()), st(1, "skip", w(1), w(1)), st(1, "sarr", w(1), w(1), [], w(0))]
                   + [st(1, "val", w(2 + i), w(1), [], w(4)) for i in (0, 1, 255, 256, n - 1) if i < n])
    # the tables of Legends Arceus on files of our own
    for kind in KINDS8:
        for _ in range(g.n(8)):
            keys = g.r.sample(range(1, 1000), g.r.choice((0, 1, 2, 5)))
            root = {0: [record8(g, kind, k) for k in keys]}
            h = [new(1, "TABLE8", tab=kind, src="bytes", file="", buf=flat.write(g.r, root)), st(1, "count"), st(1, "rows", w(0), w(len(keys))),
                 st(1, "lookup", w(1))]
            if kind == "spawner":
                h.append(st(1, "lookup", w(2)))
            out.append(h)
    # and on the shipped ones
    for kind, name in FILES8:
        keys = flat.pairs(raw(name)) if kind in ("multiplier", "misc") else flat.ids(raw(name))
        group = flat.ids(raw(name), 1) if kind == "spawner" else None
        for src in ("file",) if kind == "encounter" else ("loaded", "file"):
            def start():
                return [new(1, "TABLE8", tab=kind, src=src, file=name, buf=[])]
            step = 40
            out.append(start() + [st(1, "count"), st(1, "lookup", w(1))])
            for k in range(0, len(keys), step):
                if src == "loaded" or kind == "encounter" or k == 0:
                    out.append(start() + [st(1, "rows", w(k), w(min(step, len(keys) - k)))])
            h = start() + [st(1, "find", w(1), k) for k in g.r.sample(keys, 4)] + [st(1, "find", w(1), [5, 5])]
            if group:
                h += [st(1, "lookup", w(2))] + [st(1, "find", w(2), k) for k in g.r.sample(group, 2)]
            out.append(h)
    for h in out:
        con = h[0]["c"]
        h[0]["grp"] = "fb" if con["k"] == "FB" or con["src"] == "bytes" else "shipped"
    return out


def c23(g):
    out = []
    for area in AREAS:
        keys = flat.ids(raw(f"ha_area{area:02d}_encounter", g.res))
        for src in ("loaded", "load"):
            step = 40
            out.append([new(1, "AREAS8", area=area, src=src, ids=[]), st(1, "count")])
            for k in range(0, len(keys), step):
                n = min(step, len(keys) - k)
                if src == "loaded" or k == 0:
                    out.append([new(1, "AREAS8", area=area, src=src, ids=keys), st(1, "rows", w(k), w(n))])
    return out


def slots8(g, n, exact=True):
    """synthetic slots whose weights have an exact sum"""
    out = []
    mult = (0x3F800000, 0, 0x3F000000, 0x3FC00000, 0x40000000, 0x3F400000, 0x3E000000) if exact else (0x3F800000, 0, 0x3F99999A, 0x3F4CCCCD, 0x3F000000)
    zero = g.r.choice((0.0, 0.1, 0.5))
    for i in range(n):
        prob = g.r.choice((0, 1, 5, 100, 255, 256, 300, 500, g.r.randrange(500)))
        if g.r.random() < zero:
            prob = 0
        slot = [i + 1, i % 3, g.r.randrange(4), g.r.randrange(1, 100), g.r.randrange(1, 100), g.r.randrange(4), prob, i % 2]
        out.append(slot + [g.r.choice(mult) for _ in range(13)])
    return out


def binary32(bits):
    return Fraction(struct.unpack("<f", struct.pack("<I", bits))[0])


def c21(g):
    out = []

    def draws(npy=0):
        t, wt = w(g.r.randrange(4)), w(g.r.randrange(9))
        k = g.r.random()
        if k < 0.5:  # evenly
            count, start, delta = 24, g.r.getrandbits(24), (1 << 24) // 24
        elif k < 0.7:  # at the ends
            count, start, delta = 8, -4, 1
        else:
            count, start, delta = 16, g.r.getrandbits(24), g.r.getrandbits(24)
        return st(1, "calc", t, wt, w(count), w(start), w(delta), npy=npy)

    for n in [1, 1, 2, 2, 3, 4, 6, 8, 10, 12, 20, 28, 56] * g.n(4):
        h = [new(1, "CHOOSE8", area=0, id=[], slots=slots8(g, n, g.r.random() < 0.8))]
        h += [draws(g.npy()) for _ in range(8)]
        out.append(h)
    # exactly at every boundary: equal powers of two
    for n in (2, 4, 8, 16):
        for zero in (None, 0, n - 1, n // 2):
            slots = [[i + 1, 0, 0, 1, 2, 0, 0 if i == zero else 16, 0] + [0x3F800000] * 13 for i in range(n)]
            h = [new(1, "CHOOSE8", area=0, id=[], slots=slots)]
            for off in (-1, 0, 1):
                h.append(st(1, "calc", w(0), w(0), w(n), w(off), w((1 << 24) // n)))
            h.append(st(1, "calc", w(3), w(8), w(20), w(-10), w(1)))
            out.append(h)
    # at the boundaries of slots of any weight
    for n in [2, 3, 5, 9, 17, 40] * g.n(3):
        slots = slots8(g, n, True)
        h = [new(1, "CHOOSE8", area=0, id=[], slots=slots)]
        for _ in range(3):
            t, wt = g.r.randrange(4), g.r.randrange(9)
            weights = [Fraction(slot[6]) * binary32(slot[8 + t]) * binary32(slot[12 + wt]) for slot in slots]
            total = sum(weights)
            for i in g.r.sample(range(n), min(n, 12)) if total else ():
                first = -(-sum(weights[: i + 1]) * (1 << 24) // total)
                h.append(st(1, "calc", w(t), w(wt), w(4), w(int(first) - 2), w(1), npy=g.npy()))
        out.append(h)
    # doubles right below 1 among weights that are not binary fractions, followed by impossible slots
    for n in [1, 2, 3, 5, 8, 12] * g.n(2):
        slots = slots8(g, n, True)
        for slot in slots:
            slot[8:] = [g.r.choice((0x3DCCCCCD, 0x3E99999A, 0x3F800000, 0x3FA66666)) for _ in range(13)]
        slots += [slot[:6] + [0] + slot[7:] for slot in slots8(g, g.r.randrange(1, 3), True)]
        h = [new(1, "CHOOSE8", area=0, id=[], slots=slots)]
        for t in range(4):
            h.append(st(1, "highest", w(t), w(g.r.randrange(9)), w(30), w(24), npy=g.npy()))
        out.append(h)
    # every time and weather picks its own multiplier
    for _ in range(g.n(3)):
        slots = slots8(g, 6)
        for s, slot in enumerate(slots):
            slot[6] = 16 << s
            slot[8:] = [g.r.choice((0, 0x3F800000, 0x40000000)) if s else 0x3F800000 for _ in range(13)]
        h = [new(1, "CHOOSE8", area=0, id=[], slots=slots)]
        for t in range(4):
            for wt in range(9):
                h.append(st(1, "calc", w(t), w(wt), w(8), w(g.r.getrandbits(24)), w(1 << 21), npy=g.npy()))
        out.append(h)
    for area in AREAS:
        keys = flat.ids(raw(f"ha_area{area:02d}_encounter", g.res))
        for key in g.r.sample(keys, min(len(keys), g.n(30))):
            h = [new(1, "CHOOSE8", area=area, id=key, slots=[])]
            h += [draws(g.npy()) for _ in range(3)]
            out.append(h)
    for h in out:
        h[0]["grp"] = "choose-%d" % (h[0]["c"]["area"] > 0)
    return out


def loader3(game):
    return {"k": "ENC3", "game": game, "src": "load"}


def loader8(area):
    return {"k": "AREAS8", "area": area, "src": "load", "ids": flat.ids(raw(f"ha_area{area:02d}_encounter"))}


GAMES3 = (1, 2, 4, 8, 16)


def c20_lab(g, behaviours, areas):
    """schedules of loaders on one cache directory"""
    out = []
    quick = g.scale <= 1

    def any_start(kind="part"):
        if kind != "part":
            return "absent" if kind == "none" else "whole"
        k = g.r.random()
        start = {"part": g.r.random()} if k < 0.6 else {"cut": g.r.choice((0, 1, 2, 9, 10, 100))} if k < 0.8 else {"cut": -g.r.choice((1, 2, 3, 50))}
        return dict(start, **({"only": 0} if g.r.random() < 0.3 else {}))

    def pick(n):
        if g.r.random() < 0.85:
            one = loader8(g.r.choice(areas)) if g.r.random() < 0.1 else loader3(g.r.choice(GAMES3))
            return [one] * n
        return [loader3(x) for x in g.r.sample(GAMES3, n)]

    def add(loaders, start, steps, fine=0):
        out.append({"loaders": loaders, "start": start, "steps": steps, "late": 2 if len(out) % 3 == 0 else 1, "fine": fine})

    # the model's behaviours
    for b in g.r.sample(behaviours, min(len(behaviours), g.n(400))):
        add(pick(2), any_start(b["start"]), b["steps"])
    # every operation of one loader fails in every way
    for kind in ("none", "part", "whole"):
        for what in ("kill", "torn", "full", "full1", "short"):
            for n in range(9):
                for loader in [loader3(4)] + ([loader8(a) for a in areas] if not quick or n < 6 and what in ("torn", "kill") else []):
                    add([loader], any_start(kind), [[0, "go"]] * n + [[0, what]], 1)
    # cut anywhere
    for k in range(g.n(60)):
        add([loader3(GAMES3[k % 5])] if k % 6 else [loader8(g.r.choice(areas))], any_start(), [])
    # more loaders, every operation a step
    for _ in range(g.n(120)):
        n = g.r.choice((2, 3, 3, 4))
        steps = []
        for _ in range(g.r.randrange(2, 30)):
            steps.append([g.r.randrange(n), g.r.choice(("kill", "torn", "full", "full1", "short")) if g.r.random() < 0.08 else "go"])
        add(pick(n), any_start(g.r.choice(("none", "part", "whole", "part"))), steps, 1)
    return [[dict(s, modes=["FALSE"], grp=str(n))] for n, s in enumerate(out)]


def c20_real(g, areas):
    """all loaders, from an undisturbed cache"""
    out = [[dict(new(1, "ENC3", game=game, src=src), grp="load"), st(1, "digest")] for game in GAMES3 for src in ("dict", "load")]
    return out + [[dict(new(1, "AREAS8", **dict(loader8(a), src=src)), grp="load"), st(1, "digest")] for a in areas for src in ("loaded", "load")]


def c20_cut(g, areas):
    """one process after another finds the files cut short; the first time before it has loaded anything"""
    h = [dict(new(1, "CACHE"), grp="cut")]
    for k in range(g.n(4)):
        h.append(st(1, "cut", w(g.r.choice((0, 10, 500, 900, 999, -1, -2, g.r.randrange(1000)))) if k else w(g.r.randrange(1000))))
        if k == 2:
            h.append(st(1, "remove", w(0)))
        o = 2
        for con in [loader3(game) for game in GAMES3] + [loader8(a) for a in areas]:
            h += [{"o": o, "op": "new", "a": [], "c": con}, st(o, "digest")]
            o += 1
    return [h]


# fields of each game's species table, in the documented order
FIELDS = {
    "common": "hp attack defense speed special_attack special_defense type_1 type_2 catch_rate ev_yield item_1 item_2 gender_ratio hatch_cycles "
              "base_friendship exp_growth egg_group_1 egg_group_2 ability_1 ability_2 misc base_exp",
    "newer": "evo_stage item_3 ability_h form_stats_index form_count height weight",
    "byte": "escape_rate form_sprite type_tutors",
}
TABLES = {
    "RUBY SAPPHIRE EMERALD FIRE_RED LEAF_GREEN": "escape_rate",
    "DIAMOND PEARL PLATINUM": "escape_rate tm_hm form_count form_stats_index",
    "BLACK WHITE": "newer byte tm_hm",
    "BLACK2 WHITE2": "newer byte tm_hm specific_tutors",
    "X Y": "newer byte tm_hm",
    "OMEGA_RUBY ALPHA_SAPPHIRE": "newer byte tm_hm specific_tutors",
    "SUN MOON ULTRA_SUN ULTRA_MOON": "newer byte tm specific_tutors special_z_item special_z_base_move special_z_move local_variant",
    "SWORD SHIELD": "newer type_tutors tm tr species hatch_species local_form_index regional_flags pokedex_index regional_form_index armor_tutor "
                    "armor_dex_index crown_dex_index",
    "BRILLIANT_DIAMOND SHINING_PEARL": "newer type_tutors tm species hatch_species hatch_form_index pokedex_index",
    "LEGENDS_ARCEUS": "newer hatch_species hatch_form_index regional_flags species form dex_index_hisui dex_index_hisui_local_1 dex_index_hisui_local_2 "
                      "dex_index_hisui_local_3 dex_index_hisui_local_4 dex_index_hisui_local_5 move_shop",
}
SIZES24 = {"RUBY": 387, "DIAMOND": 501, "PLATINUM": 508, "BLACK": 668, "BLACK2": 709, "X": 799, "OMEGA_RUBY": 826, "SUN": 961, "ULTRA_SUN": 976,
           "SWORD": 1192, "BRILLIANT_DIAMOND": 560, "LEGENDS_ARCEUS": 1276}
NO_TABLE = "NONE GALES COLOSSEUM HEART_GOLD SOUL_SILVER"


def c24(g):
    out = []
    games = " ".join(TABLES).split() + NO_TABLE.split()[1:]
    out.append([new(1, "GAMES", names=games), st(1, "values")])
    for names, fields in TABLES.items():
        fields = [x for f in ["common"] + fields.split() for x in FIELDS.get(f, f).split()]
        size = None
        for game in names.split():
            size = SIZES24.get(game, size)
            for via in (1, 3) if names.startswith("RUBY") else (1,):
                out.append([new(1, "PERSONAL", game=game, field="hp", via=via), st(1, "count")])
                for field in fields:
                    step = 1 if g.scale > 1 or game in SIZES24 and via == 1 else 7
                    first = g.r.randrange(step)
                    per = 300
                    h = [new(1, "PERSONAL", game=game, field=field, via=via)]
                    total = (size - first + step - 1) // step
                    for k in range(0, total, per):
                        h.append(st(1, "column", w(first + k * step), w(step), w(min(per, total - k))))
                    out.append(h)
    for game in NO_TABLE.split():
        out.append([new(1, "PERSONAL", game=game, field="hp", via=1), st(1, "count")])
    for h in out:
        h[0]["grp"] = "personal"
    return out


def names_la(g):
    """shipped names of encounter tables, looked up by hash"""
    names = list(json.loads((RES / "encount" / "la" / "encounter_table_names.json").read_text()).values())
    out = []
    for k in range(0, len(names), 1000):
        part = names[k:k + 1000] if g.scale > 1 else g.r.sample(names[k:k + 1000], min(400, len(names) - k))
        h = [new(1, "UTIL")]
        for name in part:
            h.append(st(1, "tname", *[w(ord(c)) for c in name]))
        h[0]["grp"] = "names"
        out.append(h)
    return out


NATURES = ("HARDY LONELY BRAVE ADAMANT NAUGHTY BOLD DOCILE RELAXED IMPISH LAX TIMID HASTY SERIOUS JOLLY NAIVE MODEST MILD QUIET "
           "BASHFUL RASH CALM GENTLE SASSY CAREFUL QUIRKY").split()
ENUMS = {
    "DSType": "DS DSI DS3", "Language": "ENGLISH FRENCH GERMAN ITALIAN JAPANESE KOREAN SPANISH",
    "LAArea": "JUBILIFE_VILLAGE OBSIDIAN_FIELDLANDS CRIMSON_MIRELANDS COBALT_COASTLANDS CORONET_HIGHLANDS ALABASTER_ICELANDS ANCIENT_RETREAT",
    "LATime": "DAWN DAY DUSK NIGHT", "LAWeather": "NONE SUNNY CLOUDY RAIN SNOW DROUGHT FOG RAINSTORM SNOWSTORM",
    "Encounter": "GRASS DOUBLE_GRASS SPECIAL_GRASS ROCK_SMASH SURFING SPECIAL_SURF OLD_ROD GOOD_ROD SUPER_ROD SPECIAL_SUPER_ROD STATIC "
                 "BUG_CATCHING_CONTEST HEADBUTT HEADBUTT_ALT HEADBUTT_SPECIAL ROAMER GIFT ENTRALINK GIFT_EGG HIDDEN_GROTTO",
    "Method": "NONE METHOD_1 METHOD_1_REVERSE METHOD_2 METHOD_4 XD_COLO CHANNEL EBRED EBRED_SPLIT EBRED_ALTERNATE EBRED_PID RSFRLGBRED "
              "RSFRLGBRED_SPLIT RSFRLGBRED_ALTERNATE RSFRLGBRED_MIXED CUTE_CHARM_DPPT CUTE_CHARM_HGSS METHOD_J METHOD_K POKERADAR "
              "WONDERCARD_IVS METHOD_5_IVS METHOD_5_CGEAR METHOD_5",
    "Lead": " ".join("SYNCHRONIZE_" + n for n in NATURES) + " NONE CUTE_CHARM_F CUTE_CHARM_M MAGNET_PULL STATIC HARVEST FLASH_FIRE "
            "STORM_DRAIN PRESSURE SUCTION_CUPS COMPOUND_EYES ARENA_TRAP HUSTLE VITAL_SPIRIT STICKY_HOLD SUPER_LUCK ILLUMINATE NO_GUARD",
}


def c26(g):
    return [[new(1, "ENUM", enum=enum, names=names.split()), st(1, "values")] for enum, names in ENUMS.items()]


FUNCTIONS = "bare called signed locals narrow both given inlined pair nothing single parts product below given_array filled step text".split()
FUNCTIONS += [f"{kind}{layout}{n}" for kind in ("array", "fixed") for n in (1, 2, 3) for layout in "CFA" if n > 1 or layout != "F"]


def stores(g, key, val, count):
    """two pairs of typed containers; a list is only looked at once it has an element (and a type)"""
    bits = {"U8": 8, "U16": 16, "U32": 32, "CELL": 32, "U64": 64, "I64": 64}

    def words(kind, v):
        return d(v) if bits[kind] == 64 else w(v)

    def some(kind):
        n = bits[kind]
        return g.r.choice((0, 1, (1 << n) - 1, 1 << (n - 1), g.r.getrandbits(n), g.r.getrandbits(n), g.r.getrandbits(n)))

    h = [new(o, "STORE", key=key, val=val) for o in (1, 2)]
    keys = [some(key) for _ in range(7)] + [1 << (bits[key] - 1), (1 << bits[key]) - 1]
    size = {1: 0, 2: 0}
    for _ in range(count):
        o, k, v = g.r.choice((1, 1, 2)), words(key, g.r.choice(keys)), words(val, some(val))
        ops = "put put put has look drop keys items sizes push push list at pick set squeeze popped".split()
        op = g.r.choice(ops + ["raise"] * 4 * (val == "CELL"))
        if op in ("list", "at", "pick", "set", "squeeze", "popped") and not size[o]:
            op = "push"
        place = w(g.r.randrange(-size[o], size[o])) if size[o] else None
        # a list that has become empty keeps its type, yet stay clear of it
        if op == "popped" and size[o] < 2:
            op = "list"
        if op == "squeeze" and place[0] < 0:
            place = w(g.r.randrange(size[o]))
        size[o] += {"push": 1, "squeeze": 1, "popped": -1}.get(op, 0)
        args = {"put": [k, v], "has": [k], "look": [k], "drop": [k], "raise": [k, w(g.u32())], "push": [v], "at": [place],
                "pick": [place], "popped": [place], "set": [place, v], "squeeze": [place, v]}.get(op, [])
        h.append(st(o, op, *args))
    return h


def c27(g):
    out = []
    for form in ("bare", "called", "dict", "both", "keyword"):
        for _ in range(g.n(2)):
            h = [new(1, "TALLY", w(g.u32()), form=form, npy=1), new(2, "TALLY", w(g.u32()), form=g.r.choice((form, "bare")), npy=1)]
            for _ in range(g.n(25)):
                o = g.r.choice((1, 1, 2))
                op = g.r.choice("add add add twice many prod seen".split())
                args = {"many": [w(g.r.choice((0, 1, 9, 300))), w(g.u32())], "prod": [], "seen": []}.get(op, [w(g.u32())])
                h.append(st(o, op, *args, npy=1))
            # a counter past its 16 bits
            h += [st(1, "many", w(70001), w(4), npy=1), st(1, "seen"), st(1, "prod"), st(2, "seen")]
            out.append(h)
    h = [new(1, "FUNCTION")]
    for x in CORNER32[:7] + [g.u32() for _ in range(g.n(8))]:
        for op in FUNCTIONS:
            h += [st(1, op, w(x), w(y)) for y in (0, M32, g.u32())]
    out.append(h)
    for k, (key, val) in enumerate((("U32", "U64"), ("U64", "CELL"), ("U16", "U8"), ("I64", "U16"), ("U64", "U64")) * g.n(1)):
        out.append(stores(g, key, val, 60))
    # the library's objects in the hands of such code
    for i, cls in enumerate(LCG + ["MT", "SFMT", "TINY", "XS", "XO", "XM"]):
        h = [new(1, cls, *g.seed(cls)), new(2, cls, *g.seed(cls))]
        for _ in range(g.n(6)):
            o = g.r.choice((1, 2))
            h += [st(o, g.r.choice(("inner", "held", "nexts")), w(g.r.choice((1, 3, 20)))), any_step(g, o, cls)[0]]
            if cls in LCG and i % 3 == 0:
                h.append(st(o, "leaps", dw(cls, 1000), w(3)))
        out.append(h + [st(1, op, w(2)) for op in ("inner", "held", "nexts")])
    for cfg in RL_CONFIGS[1:8:3]:
        h = [rl_new(g, 1, cfg, 8)]
        for _ in range(g.n(3)):
            h += rl_steps(g, 1, 8, 3, cfg[3]) + [st(1, "inner", w(11))]
        out.append(h)
    for _ in range(g.n(2)):
        out.append([sha_new(g, 1)] + sha_setup(g, 1) + [st(1, "pre"), st(1, "scan", w(11), w(59), w(60)), st(1, "scan", w(12), w(0), w(3)), st(1, "hash")])
    return out


# ---------------------------------------------------------------- C28: record definitions
SIZES = {"B1": 1, "U8": 1, "U16": 2, "U32": 4, "U64": 8, "F32": 4}


def definition(g, depth=0):
    out = []
    for _ in range(g.r.randint(2, 4 if depth else 7)):
        kind = g.r.choice("B1 U8 U16 U32 U64 F32".split() + ["U8", "U16"] + ([] if depth else ["REC"]))
        if kind == "REC":
            out.append({"t": "REC", "n": [], "in": definition(g, 1)})
        else:
            n = [] if kind == "B1" or depth and g.r.random() < 0.7 else g.r.choice(([], [], [g.r.randint(1, 5)], [g.r.randint(1, 3), g.r.randint(2, 3)], [2, g.r.randint(1, 3), g.r.randint(2, 4)]))
            out.append({"t": kind, "n": n, "in": []})
    return out


def lengths(field):
    count = 1
    for x in field["n"]:
        count *= x
    return count


def record_bytes(g, fields):
    out = []
    for f in fields:
        for _ in range(lengths(f)):
            if f["t"] == "REC":
                out += record_bytes(g, f["in"])
            else:
                out += [b for b in value_bytes(record_value(g, f["t"]), f["t"])]
    return out


def record_value(g, kind):
    """as an unsigned number; floats are never NaN"""
    if kind == "B1":
        return g.r.randint(0, 1)
    bits = 8 * SIZES[kind]
    val = g.r.choice((0, 1, (1 << bits) - 1, 1 << bits - 1, g.r.getrandbits(bits), g.r.getrandbits(bits), g.r.getrandbits(bits)))
    if kind == "F32" and val >> 23 & 255 == 255:
        val &= 0xFF7FFFFF
    return val


def value_bytes(val, kind):
    return val.to_bytes(SIZES[kind], "little")


def c28(g):
    out = []
    for turn in range(g.n(8)):
        fields = definition(g)
        if turn < 2:
            fields.insert(g.r.randrange(len(fields)), {"t": ("U8", "U16")[turn], "n": [2, 3, 4], "in": []})
        count = g.r.randint(2, 4)
        h = [new(1, "RECORD", **{"def": fields, "bytes": sum((record_bytes(g, fields) for _ in range(count)), [])}), st(1, "layout")]
        two = turn % 2
        if two:
            h.append(new(2, "RECORD", **{"def": fields, "bytes": sum((record_bytes(g, fields) for _ in range(count)), [])}))
        leaves = [(f + 1, 0, x) for f, x in enumerate(fields) if x["t"] != "REC"]
        leaves += [(f + 1, k + 1, y) for f, x in enumerate(fields) if x["t"] == "REC" for k, y in enumerate(x["in"])]
        for f, k, leaf in leaves:
            for op in ("get", "read", g.r.choice(("passed", "kept"))):
                for i in range(count):
                    h.append(st(1, op, [i], [f], [k], [g.r.randrange(x) for x in leaf["n"]]))
            if k == 0:
                h.append(st(1, "column", [f], [g.r.randrange(x) for x in leaf["n"]]))
                if not leaf["n"] and leaf["t"] in ("U8", "U16", "U32"):
                    h.append(st(1, "gather", [f], [s32(record_value(g, leaf["t"]))]))
            val = record_value(g, leaf["t"])
            op = g.r.choice(("set", "write", "hold"))
            at = [g.r.randrange(x) for x in leaf["n"]]
            o = 1 + two * g.r.randrange(2)
            i = g.r.randrange(count)
            h += [st(o, op, [i], [f], [k], at, d(val) if leaf["t"] == "U64" else w(val)),
                  st(o, "get", [i], [f], [k], at), st(1, "bytes")]
        out.append(h + ([st(2, "bytes")] if two else []))
    return out
