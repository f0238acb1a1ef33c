"""What each property's check runs: jobs per tier, bounds, assumptions."""
from core import Job, CONFIGS, PSNAMES
F = [0, 2, 4, 6, 8, 10]      # fast parameter sets
S = [1, 3, 5, 7, 9, 11]      # small parameter sets
ALL = list(range(12))
# FORS trees, FORS height, layers, tree height of each set
DIM = {0: (33, 6, 22, 3), 1: (14, 12, 7, 9), 2: (33, 8, 22, 3), 3: (17, 14, 7, 9), 4: (35, 9, 17, 4), 5: (22, 14, 8, 8)}
for i in range(6): DIM[i + 6] = DIM[i]
SMALL = dict(k=2, t=2, d=2, mh=1)

STUBS = [
    "protocol jobs: the hash primitives (ts_SHA256_*, ts_SHA512_*, ts_shake256_inc_*) are summarised as uninterpreted functions of the exact byte string absorbed (equal strings give equal outputs, nothing else is assumed); their contracts are decided on the real code by the jobs of C13, C14, C15 and C22",
    "the random source is a stand-in that writes symbolic bytes and returns a symbolic 0 or 1",
    "messages are opaque strings of symbolic 64-bit length, readable in full by the hash primitives only",
    "memcmp/bcmp/strlen/explicit_bzero are modelled (memcmp: zero iff equal); memcpy/memset/memmove are the compiler's intrinsics",
]
ASSUMPTIONS = [
    "clang 18 -O0 bitcode after mem2reg is the code: what other compilers or optimisation levels do with undefined behaviour is not covered",
    "64-bit little-endian target, the sandbox's data layout",
    "single-threaded use of one context at a time",
    "the term rewriting and slicing of the executor and Z3 are trusted (conclusions are cross-checked by running concrete assignments of each path against the compiled code)",
]
OUT_PROTO = "hash functions beyond their functional consistency; real parameter sets whose hypertree is too large to build symbolically are covered with reduced tree sizes as listed; other compilers"
PROPS = {}
def P(id, jobs, bounds, outside=OUT_PROTO, **kw):
    PROPS[id] = dict(jobs=jobs, bounds=bounds, outside=outside, **kw)
def J(h, **kw): return Job(h, **kw)

# ---- building blocks ------------------------------------------------------
def keygen(sets, cfg="default", rng=2, pk=1, validate=1, **kw):
    cov = ["key generated"] + (["rng failure"] if rng == 2 else [])
    return [J("h_keygen", cfg=cfg, ps=i, rng=rng, pk=pk, cov=cov, validate=validate, mem=1.0 if i in S else 0.3, **kw) for i in sets]
def verify(sets, cfg="default", validate=1, **kw):
    return [J("h_verify", cfg=cfg, ps=i, cov=["accepted", "rejected"], validate=validate, mem=0.4, **kw) for i in sets]
def sign_real(sets, cfg="default", **kw):
    mem = {0: .6, 6: .8, 2: 1.2, 8: 1.4, 4: 1.8, 10: 2.2}
    return [J("h_sign", cfg=cfg, ps=i, cov=["signed"], validate=1, mem=mem.get(i, 6), **kw) for i in sets]
def red(i, mh=3, d=2, k=2, t=None): return dict(ps=i, k=k, t=t if t is not None else DIM[i][1], d=d, mh=mh)
def sign_red(sets, cfg="default", mh=3, d=2, k=2, t=None, **kw):
    return [J("h_sign", cfg=cfg, cov=["signed"], validate=1, mem=1.5, **{**red(i, mh=mh, d=d, k=k, t=t), **kw}) for i in sets]
def sign_small(sets, cfg="default", **kw):
    return [J("h_sign", cfg=cfg, cov=["signed"], validate=1, mem=0.3, ps=i, **{**SMALL, **kw}) for i in sets]
def sign_head(sets, limit, cfg="default", **kw):
    return [J("h_sign", cfg=cfg, cov=["signed"], validate=1, mem=0.8, ps=i, limit=limit, **kw) for i in sets]

# C01
def c01(t):
    js = keygen(F) + keygen([0, 6], pk=0)
    js += keygen(S if t == "thorough" else [1, 11])
    if t == "thorough": js += keygen(ALL, cfg="noopt")
    return js
P("C01", c01, "no bound on seeds (3n symbolic bytes), random-source result 0/1, public key requested or not; full top tree of every fast parameter set and of sha2_128s, shake_256s (thorough: all twelve sets, both prehash settings)")

# C02
def c02(t):
    js = sign_real([0, 6])                                           # complete, real size
    js += sign_red([2], mh=3, k=33, t=8, d=2) + sign_red([4], mh=2, k=35, t=9)
    js += sign_red([1, 3, 5], mh=3, k=1)                       # full FORS tree height
    if t == "thorough":
        js += sign_red([8], mh=3, k=33, t=8, d=2) + sign_red([10], mh=2, k=35, t=9) + sign_red([7, 9, 11], mh=3, k=1)
    else:
        js += sign_red([8], mh=3, k=5, t=8) + sign_red([8], mh=2, k=33, t=4) + sign_red([10], mh=2, k=5, t=9) + sign_red([10], mh=2, k=35, t=4) + sign_red([7, 9, 11], mh=3, k=1, t=10)
    js += sign_red([1, 7], k=14, t=4, d=7, mh=2) + sign_red([3, 9], k=17, t=3, d=7, mh=1) + sign_red([5, 11], k=22, t=3, d=8, mh=1)
    js += sign_small([0, 6], mh=6)
    js += sign_small([0, 2, 4, 6, 8, 10], rng=2)
    js += sign_head(ALL, 1, rng=2)
    if t == "thorough":
        js += sign_real([2, 4, 8, 10])
        js += sign_red([1, 3, 5, 7, 9, 11], mh=9, k=1, t=3)            # full Merkle tree height
        js += sign_red([1, 7], k=14, mh=1) + sign_red([3, 9], k=17, mh=1) + sign_red([5, 11], k=22, mh=1)
    return js
P("C02", c02, "private key, message (opaque, symbolic 64-bit length), randomness symbolic throughout; complete real signatures of sha2_128f and shake_128f; 192f/256f with all FORS trees at full height and two hypertree layers; s sets with one FORS tree of full height (12/14) and, separately, their real number of FORS trees and layers with reduced heights; Merkle height up to 6 (thorough: all f sets complete, s sets with all FORS trees and full Merkle height 9)")
P("C03", lambda t: verify(ALL, validate=2) + (verify(ALL, cfg="noopt") if t == "thorough" else []),
  "no bound: complete verification at real size for all twelve parameter sets, public key and all signature bytes symbolic, message opaque with symbolic 64-bit length")
# C04
def c04(t):
    def rd(i, **kw): return J("h_round", ps=i, cov=["verified"], **kw)
    mem = {0: 1, 6: 1.5, 2: 1.5, 4: 2.5, 8: 2.5, 10: 4}
    js = [rd(i, mem=mem[i], rng=0, validate=1) for i in (F if t == "thorough" else [0, 2, 4, 6])]
    js += [rd(i, **SMALL, rng=2, mem=.3) for i in F]
    for i in S:
        k, h, d, mh = DIM[i]
        js.append(rd(i, k=k, t=3, d=d, mh=2, mem=.8, validate=1))
        if t == "thorough": js += [rd(i, k=k, t=3, d=d, mh=4, mem=3), rd(i, k=1, t=h, d=2, mh=2, mem=4), rd(i, k=1, t=2, d=2, mh=mh, mem=4)]
    js += [rd(1, k=1, t=8, d=2, mh=5, mem=.8), rd(9, k=2, t=6, d=2, mh=6, mem=2)]
    if t == "thorough": js += [J("h_round", cfg=c, ps=i, cov=["verified"], mem=3) for c in ("noopt", "shake1", "shake2", "small") for i in (0, 6)]
    return js
P("C04", c04, "key generation, signing and verification in one run of the real code, random seed, signing randomness (source absent, or present and failing or succeeding), message (opaque, symbolic 64-bit length) all symbolic, with the hash functions uninterpreted: so every digest, every leaf and every Winternitz digit is covered. sha2_128f, sha2_192f, sha2_256f and shake_128f (thorough: all six fast parameter sets) at real size; small sets with their real number of FORS trees and layers and reduced heights, and with higher trees for fewer of them (thorough: full FORS and Merkle heights)")
# C05
def total(n, k, t, d, mh): return n * (1 + k * (t + 1) + d * (2 * n + 3) + d * mh)
def c05(t):
    js = []
    T = total(16, 2, 2, 2, 1)
    w = [(0, 9 * 16), (9 * 16 - 34, 11 * 16), (41 * 16 - 2, 41 * 16 + 40), (T - 40 - 35 * 16, T - 33 * 16), (T - 56, T)]
    w = [(0, 160), (7 * 16 + 34 * 16 - 2, 7 * 16 + 37 * 16 + 2), (T - 50, T)]
    for i in ([0, 6] if t == "quick" else [0, 6, 2, 10]):
        for a, b in w: js.append(J("h_split_sign", ps=i, first=a, last=b, m0=0, m1=33, cov=["split compared"], mem=0.5, **SMALL))
    for pat in [(1, 1, 1), (7, 7, 7), (15, 17, 16), (16, 0, 33), (31, 1, 64), (100, 255, 256), (257, 3, 511)]:
        js.append(J("h_pattern_sign", ps=0, m0=pat[0], m1=pat[1], mstep=pat[2], cov=["pattern compared"], validate=1, mem=0.3, **SMALL))
    js += [J("h_pattern_sign", ps=i, m0=23, m1=1, mstep=200, cov=["pattern compared"], mem=0.3, **SMALL) for i in (2, 4, 8, 10)]
    js += [J("h_sign", ps=i, chunk=c, cov=["signed"], mem=0.3, **SMALL) for i, c in ((0, 1), (4, 31), (6, 5), (10, 33), (2, 25))]
    if t == "thorough":
        js += [J("h_split_sign", ps=i, first=a, last=a + 120, m0=0, m1=49, cov=["split compared"], mem=1, **SMALL) for i in (0, 6) for a in range(0, T, 120)]
        js += [J("h_sign", ps=0, chunk=c, cov=["signed"], mem=1) for c in (1, 17, 1000)]
    return js
P("C05", c05, "reduced parameter set (k=2, FORS height 2, two layers of height-1 trees) per family: at every position within windows around each kind of element boundary (thorough: every position), every request size 0..33 (thorough 0..49) leads to the same bytes and the same state as single-byte requests, hence any sequence of such requests; further repeating patterns of request sizes up to 511 over whole signatures")
def c06(t):
    js = []
    for i in (0, 6): js.append(J("h_split_verify", ps=i, first=0, last=2000, m0=0, m1=33, cov=["split compared"], mem=1, **SMALL))
    for i in (4, 8): js.append(J("h_split_verify", ps=i, first=0, last=300, m0=0, m1=65, mstep=1 if t == "thorough" else 4, cov=["split compared"], mem=1, **SMALL))
    for pat in [(1, 1, 1), (7, 7, 7), (15, 17, 16), (16, 0, 33), (31, 1, 64), (100, 255, 256), (257, 3, 511)]:
        js.append(J("h_pattern_verify", ps=0, m0=pat[0], m1=pat[1], mstep=pat[2], cov=["accepted", "rejected"], mem=0.3, validate=1, **SMALL))
    js += [J("h_pattern_verify", ps=i, m0=23, m1=1, mstep=200, cov=["accepted", "rejected"], mem=0.3, **SMALL) for i in (2, 4, 8, 10)]
    js += [J("h_verify", ps=i, chunk=c, cov=["accepted", "rejected"], mem=0.6) for i, c in ((0, 1), (5, 31), (7, 4096))]
    if t == "thorough":
        js += [J("h_split_verify", ps=i, first=0, last=9000, m0=0, m1=129, cov=["split compared"], mem=3, **SMALL) for i in (0, 4, 6)]
        js += [J("h_verify", ps=i, chunk=c, cov=["accepted", "rejected"], mem=1) for i in ALL for c in (1, 13, 48, 100000)]
    return js
P("C06", c06, "reduced parameter set per family: at every position of the signature every update size 0..33 leads to the same state and verdict as single-byte updates, hence any sequence of such updates; patterns of sizes up to 511 on the reduced sets; real sets sha2_128f byte by byte, sha2_256s in 31-byte and shake_128s in 4096-byte pieces; all signature bytes symbolic")
def c07(t):
    js = []
    for i in (0, 6, 4, 8):
        for first, ask in ((0, 0xffffffff), (0, 65536), (100001, 2), (100000, 1), (100007, 8), (100003, 300), (100040, 41), (1, 15), (17, 3), (5, 100)):
            if i not in (0, 6) and first > 1: continue
            js.append(J("h_overask", ps=i, first=first, m0=ask, cov=["asked"] + (["end reached"] if first in (0,) or first > 99999 else []), mem=0.3, validate=1, **SMALL))
    js += [J("h_overask", ps=i, first=f, m0=m, cov=["asked"], mem=0.3, **{**SMALL, "k": 3, "t": 3, "d": 3}) for i in (0, 10) for f, m in ((0, 100000), (100001, 99))]
    js += sign_real([0]) + sign_red([1, 9], mh=2, k=2, t=3)
    js += [J("h_sizes", cov=["sizes compared"])]
    if t == "thorough": js += sign_real([2, 4, 6, 8, 10])
    return js
P("C07", c07, "reduced parameter sets, requests from several positions with sizes up to 2^32-1, destination contents symbolic; complete signature of sha2_128f at real size (thorough: all f sets)")
def c08(t):
    js = []
    sm = lambda i: dict(ps=i, mem=0.4, **SMALL)
    cov = ["prefix valid", "prefix invalid"]
    for i in (0, 6):
        for e in (1, 15, 16, 17, 32, 255, 256, 1136, 65536): js.append(J("h_badlen", m0=e, m1=0, mode=0, first=1, cov=cov, **sm(i)))
        for e, m in ((1, 1), (15, 15), (16, 16), (17, 1), (40, 1), (40, 7), (48, 16), (33, 17), (300, 300)): js.append(J("h_badlen", m0=e, m1=0, mode=m, first=1, cov=cov, **sm(i)))
        js.append(J("h_badlen", m0=7, m1=13, mode=0, first=0, cov=cov, **sm(i)))
        js.append(J("h_badlen", m0=200, m1=17, mode=0, first=1, cov=cov, **sm(i)))
        js.append(J("h_badlen", m0=33, m1=1, mode=0, first=1, cov=cov, **sm(i)))
        js.append(J("h_verdict", m0=1, cov=["accepted", "rejected"], validate=1, **sm(i)))
    for i in (2, 4, 8, 10):
        for e in (1, 23, 24, 31, 32, 33): js.append(J("h_badlen", m0=e, m1=0, mode=0, first=1, cov=cov, **sm(i)))
        js.append(J("h_badlen", m0=70, m1=0, mode=9, first=1, cov=cov, **sm(i)))
        js.append(J("h_verdict", m0=5, cov=["accepted", "rejected"], **sm(i)))
    js += [J("h_badlen", ps=i, m0=1, m1=0, mode=m, first=0, cov=cov, mem=0.6) for i in ((0, 7) if t == "quick" else ALL) for m in (0, 1)]
    return js
P("C08", c08, "reduced parameter sets of every n and family: truncation at every length, extension by 1..2n+1 and selected larger amounts up to 65536 bytes in the same call, extension byte by byte and in pieces in later calls, a complete further signature after failure; signature bytes and public key symbolic, both the valid-prefix and invalid-prefix cases")
def c09(t):
    js = [J("h_misuse_unset", ps=i, cov=["done"], validate=1, mem=0.1) for i in ALL]
    for i, m in ((0, 1), (0, 16), (6, 5), (4, 32), (10, 16)):
        js.append(J("h_misuse_sign", ps=i, m0=m, cov=["done"], mem=0.3, validate=1, **SMALL))
        js.append(J("h_misuse_verify", ps=i, m0=m, cov=["accepted", "rejected"], mem=0.3, validate=1, **SMALL))
    if t == "thorough": js += [J("h_misuse_verify", ps=i, m0=9, cov=["accepted", "rejected"], mem=1) for i in ALL]
    return js
P("C09", c09, "every byte position of signing and verifying with reduced parameter sets; zero-initialised context; every combination of missing key-generation arguments; buffers and keys symbolic")
MINCFG = [c for c in CONFIGS if c.startswith("min_")]
def cfg_ps(c):
    fam, lvl = c.split("_")[1:3]
    return {"sha2": 0, "shake": 6}[fam] + {"128": 0, "192": 2, "256": 4}[lvl[:3]] + (lvl[3] == "s")
MEMK = ["memory", "subobject", "ub", "uninit", "hashctx", "readonly", "global"]
def c10(t):
    js = []
    def ex(c, kinds=MEMK, **kw): js.append(J("h_exec", cfg=c, kinds=kinds, mem=1, **kw))
    for c in MINCFG:
        i = cfg_ps(c); k, tt, d, mh = DIM[i]
        slow = i in S
        if not slow:
            ex(c, ps=i, mode=5, cov=["keygen", "verify"])
            ex(c, ps=i, mode=2, k=k, t=tt, d=2, mh=mh, rng=2, cov=["sign"])
        else:
            ex(c, ps=i, mode=4, cov=["verify"])
            ex(c, ps=i, mode=2, k=1, t=tt, d=2, mh=1, rng=2, cov=["sign"])
            ex(c, ps=i, mode=2, k=k, t=3, d=2, mh=2, rng=2, cov=["sign"])
            if t == "thorough": ex(c, ps=i, mode=1, cov=["keygen"]); ex(c, ps=i, mode=2, k=1, t=2, d=2, mh=mh, cov=["sign"])
    for c in ("default", "noopt", "shake1", "small"):
        for i in (0, 3, 5, 6, 10): ex(c, ps=i, mode=7, chunk=7, rng=2, cov=["keygen", "sign", "verify"], **SMALL)
    ex("default", ps=1, mode=1, cov=["keygen"])
    js += prim_memory(t)
    return js
P("C10", c10, "twelve minimal configurations (one parameter set each) with and without the prehash optimisation / Keccak variants, default and four full configurations; key generation and verification at real size for f sets, verification at real size for s sets, signing with full number and height of FORS trees and full Merkle height for f sets, s sets with full FORS height (one tree) and full number of FORS trees (height 3)", budget=800)
def c11(t):
    ks = ["readonly", "global", "memory", "assert"]
    js = [J("h_exec", cfg=c, ps=i, mode=7, rng=r, chunk=ch, kinds=ks, cov=["keygen", "sign", "verify"], mem=0.4, validate=1, **SMALL)
          for c in ("default", "noopt") for i, r, ch in ((0, 2, 0), (3, 0, 5), (5, 2, 32), (6, 2, 1), (9, 0, 0), (11, 1, 100))]
    js += [J("h_exec", ps=i, mode=5, kinds=ks, cov=["keygen", "verify"], mem=0.6) for i in F]
    js += [J("h_exec", cfg=c, ps=6, mode=7, kinds=ks, cov=["keygen", "sign", "verify"], mem=0.4, **SMALL) for c in ("shake1", "shake2")]
    if t == "thorough": js += [J("h_exec", ps=i, mode=2, rng=2, kinds=ks, cov=["sign"], mem=2) for i in F]
    return js
P("C11", c11, "all three operations with all inputs symbolic and write-protected, every static object of the library write-protected, the message removed after the start of signing, the random source counted; reduced parameter sets of every family and level, key generation and verification of the f sets at real size")
def c12(t):
    js = []
    sm = dict(mem=0.5, **SMALL)
    for a, b in ((0, 6), (6, 0), (0, 0), (4, 10), (10, 2)):
        for mode in (0, 1, 2, 3): js.append(J("h_inter", ps=a, ps2=b, mode=mode, m0=16, m1=24 if mode & 2 else 16, first=1, cov=["both done"], **sm))
        js.append(J("h_inter", ps=a, ps2=b, mode=4 + (a & 1), m0=7, m1=40, first=3, stale=1, cov=["both done"], **sm))
    for i in ALL[::2]:
        js.append(J("h_sign", ps=i, stale=1, cov=["signed"], **sm))
        js.append(J("h_verify", ps=i, stale=1, cov=["accepted", "rejected"], **sm))
    for a, b in ((0, 6), (6, 0), (4, 4), (10, 1)):
        for mode, st in ((0, 3), (1, 30), (2, 40), (3, 90), (0, 100)): js.append(J("h_reuse", ps=a, ps2=b, mode=mode, first=st, stale=1, cov=["both done"], **sm))
    if t == "thorough":
        js += [J("h_inter", ps=a, ps2=b, mode=mode, m0=m, m1=n, first=f, cov=["both done"], **sm) for a in (0, 6, 4) for b in (0, 6, 10) for mode in range(8) for m, n, f in ((1, 1, 0), (16, 40, 5), (3, 64, 50))]
        js += [J("h_verify", ps=i, stale=1, cov=["accepted", "rejected"], mem=0.6) for i in ALL]
    return js
P("C12", c12, "arbitrary (symbolic) previous contents of the context structure for signing and verification; pairs of operations on two contexts alternating in several piece sizes with a key generation in between; a context abandoned at several points and initialised again for the other kind or family; reduced parameter sets")
# ---- hash primitives on the real code --------------------------------------
PRIM = ["--words", "--prims", "--lin", "8"]
def R(h, cov="compared", cfg="default", mem=1.5, **kw): return Job(h, cfg=cfg, real=True, cov=[cov], opts=PRIM, mem=mem, **kw)
def ranges(lo, hi, n): return [(lo + (hi + 1 - lo) * i // n, lo + (hi + 1 - lo) * (i + 1) // n - 1) for i in range(n)]
def sha2_jobs(b, t):
    blk = 64 if b == 256 else 128
    h = f"h_sha{b}_"
    js = [R(h + "step", first=a, last=z, m0=0, m1=2 * blk + 4 if t == "thorough" or b == 256 else blk + 4, mem=2) for a, z in ranges(0, blk - 1, 8)]
    if b == 512 and t != "thorough": js += [R(h + "step", first=a, last=z, m0=2 * blk - 3, m1=2 * blk + 3, mstep=2, mem=2) for a, z in ranges(0, blk - 1, 2)]
    js += [R(h + "fin", first=a, last=z, mem=1.5) for a, z in ranges(0, blk - 1, 2)]
    js += [R(h + "msg", m0=a, last=z, validate=1, mem=2) for a, z in ranges(0, 3 * blk + 2, b // 64)]
    js += [R(h + "msg", m0=m, last=l, m1=p, mstep=st, validate=1) for m, l, p, st in ((0, 3 * blk, 1, 29), (5, 4 * blk, blk - 1, 31), (blk, 5 * blk, blk, blk), (3, 6 * blk, 2 * blk + 1, 67))]
    js += [R(h + "huge", cov="long input", m0=m, first=f) for m, f in ((3, 0), (blk, 0), (5 * blk + 1, 7), (700, blk - 1))]
    js = [R(h + "count", cov="counted", m0=m, first=f, k=k, t=lo) for m, f, k, lo in ((200, 5, 29, 29), (0, blk - 1, 0, 0), (3 * blk, 1, 0, 32))] + js
    if t == "thorough":
        js += [R(h + "step", first=a, last=z, m0=2 * blk + 5, m1=5 * blk, mem=3) for a, z in ranges(0, blk - 1, 16)]
        js += [R(h + "msg", m0=a, last=a + 99, m1=p, mem=3) for a in range(0, 700, 100) for p in (0, 3, blk - 9)]
    return js
BOUND_SHA = "one update of 0..2 blocks+4 bytes (quick, SHA-512: 0..1 block+4 and around 2 blocks; thorough: 5 blocks) and the finishing step, each from every fill of the block buffer with arbitrary chaining value, buffered bytes and number of preceding blocks (so, by induction over updates of such sizes, every message and every split into them, total below 2^61 bytes); whole messages through the public interface up to 3 blocks+2 bytes, every length, and up to 6 blocks in pieces; one update with an arbitrary 64-bit size does not return before the first 3..700 bytes have been read, and has by then entered its size in the message's 64-bit count or is doing so piece by piece"
OUT_SHA = "the effect of a single update larger than the sizes given beyond its first 700 bytes, apart from the count; messages of 2^61 bytes or more"
STUBS_PRIM = ["none: the primitives are executed as they are; the references are textbook implementations of FIPS 180-4 / FIPS 202 in harness/prims.c, executed symbolically too"]
P("C13", lambda t: sha2_jobs(256, t), BOUND_SHA, OUT_SHA, stubs=STUBS_PRIM)
P("C14", lambda t: sha2_jobs(512, t), BOUND_SHA, OUT_SHA, stubs=STUBS_PRIM)
def shake_jobs(c, t):
    top = 140 if t == "quick" else 420
    js = [R("h_shake_absorb", cfg=c, first=a, last=z, m0=0, m1=top, mem=1) for a, z in ranges(0, 135, 4 if t == "quick" else 12)]
    js += [R("h_shake_requests", cfg=c, first=a, last=z, m0=0, m1=top, mem=.5) for a, z in ranges(0, 140, 3 if t == "quick" else 8)]
    js += [R("h_shake_squeeze", cfg=c, first=a, last=z, m0=x, m1=y, mstep=w, mem=1) for a, z in ranges(0, 135, 2) for x, y, w in ((0, 50, 100), (136, 1, 271))]
    js += [R("h_shake_msg", cfg=c, m0=m, last=l, mstep=st, k=k, m1=p, t=q, validate=1) for m, l, st, k, p, q in
           ((0, 280, 3, 40, 0, 0), (1, 280, 9, 40, 1, 1), (130, 150, 1, 600, 50, 137), (2, 290, 24, 300, 135, 7), (136, 544, 136, 272, 136, 136))]
    js += [R("h_shake_huge", cfg=c, cov="long input", m0=m, first=f) for m, f in ((3, 0), (136, 0), (500, 7), (700, 135))]
    return js
def c15(t): return [j for c in ("default", "shake1", "shake2") for j in shake_jobs(c, t)]
P("C15", c15, "each of the three Keccak implementations: absorbing 0..140 bytes (thorough 420) from every position in a block with arbitrary sponge state, finishing and squeezing 150..408 bytes from every position, requests of 0..140 bytes (thorough 420) at every output position 0..140 with arbitrary state (so, by induction, every input and every split into such sizes); whole inputs up to 290 (544) bytes through the public interface; one absorb call with an arbitrary 64-bit size does not return before the first 3..700 bytes have been read",
  "single calls larger than given; sizes of 2^61 bytes or more", stubs=STUBS_PRIM)
def c22(t):
    js = []
    for b in (256, 512):
        blk, h = (64, "h_sha256_") if b == 256 else (128, "h_sha512_")
        for sp in (0, 1, blk // 2 + 5, blk - 1, blk): js.append(R(h + "save", m0=0, last=2 * blk + 8, mstep=1 if t == "thorough" else (3 if sp == 0 else 37), m1=sp, mem=2, validate=1))
        js.append(R(h + "trunc", m0=0, last=2 * blk, mstep=5 if t == "thorough" else 21, validate=1))
        w = b // 64
        js += [R(h + "fin", first=a, last=z, m0=n) for a, z in ((0, blk // 2 - 1), (blk // 2, blk - 1)) for n in ((16, 24) if b == 256 else (16, 24, 32, 40))]
    return js
P("C22", c22, "arbitrary one-block prefix (absorbed in one or two pieces), continuations of 0..2 blocks+8 bytes with symbolic contents in several lengths (thorough: every length) through the public interface, saved state write-protected, context contents before restoring arbitrary, restored twice; truncated digests of every multiple of the word size at several message lengths, and of the sizes the schemes use from every buffer fill with arbitrary state",
  "continuations longer than given (the state after restoring is an ordinary one to which C13/C14 apply)", stubs=STUBS_PRIM)
def prim_memory(t):
    js = []
    for b, blk in ((256, 64), (512, 128)):
        js += [R(f"h_sha{b}_msg", m0=0, last=3 * blk, m1=p, mstep=11, kinds=MEMK) for p in (0, 17)]
        js += [R(f"h_sha{b}_save", m0=0, last=blk, mstep=29, kinds=MEMK), R(f"h_sha{b}_trunc", m0=blk - 10, last=blk, mstep=9, kinds=MEMK)]
    js += [R("h_shake_msg", cfg=c, m0=0, last=280, mstep=23, k=300, m1=p, t=q, kinds=MEMK) for c in ("default", "shake1", "shake2") for p, q in ((0, 0), (19, 41))]
    return js
def prim_shake(t):
    return [R("h_shake_msg", cfg=c, m0=0, last=280, mstep=11, k=300, m1=p, t=q) for c in ("default", "shake1", "shake2") for p, q in ((0, 0), (19, 41))]
CTXSIZE = dict(all=1136, small=1040, noopt=1040, shake1=1136, shake2=1136, min_sha2_128f_0=472, min_sha2_128f_1=504, min_sha2_128s_0=568, min_sha2_128s_1=600,
    min_sha2_192f_0=768, min_sha2_192f_1=864, min_sha2_192s_0=912, min_sha2_192s_1=1008, min_sha2_256f_0=872, min_sha2_256f_1=968, min_sha2_256s_0=1032, min_sha2_256s_1=1128)
for o in "01": CTXSIZE.update({f"min_shake_{a}_{o}": b for a, b in (("128f", 672), ("128s", 768), ("192f", 776), ("192s", 920), ("256f", 880), ("256s", 1040))})
# ---------------------------------------------------------------------------
def c16(fam, cfgs, t):
    sets = [i for i in ALL if (i < 6) == (fam == "sha2")]
    js = []
    for c in cfgs:
        js += verify(sets, cfg=c, validate=1)
        js += sign_head(sets, 2, cfg=c, rng=2)
        js += keygen([i for i in sets if i in F], cfg=c)
    for c in cfgs[:1]: js += sign_small([i for i in sets if i in F], cfg=c)
    return js
P("C16", lambda t: c16("sha2", ["opt", "noopt", "default"] if t == "thorough" else ["default", "noopt"], t),
  "key generation of the f sets, complete verification and the first signature elements (message PRF, digest, PRF) of all six SHA-2 sets with and without the prehash optimisation; message length symbolic (64 bit), all addresses that occur at real size")
P("C17", lambda t: c16("shake", ["default"] + (["shake1", "shake2"] if t == "thorough" else []), t),
  "key generation of the f sets, complete verification and the first signature elements (message PRF, digest, PRF) of all six SHAKE sets; message length symbolic (64 bit)")
def c18(t):
    js = verify(ALL) + sign_head(F, 60) + sign_head([0, 6], 250)
    js += sign_red([1, 3], k=1, mh=1, rng=0) + sign_red([7, 9], k=1, mh=1, rng=0, t=None if t == "thorough" else 9) + sign_head([1, 7] if t == "thorough" else [1], 14)
    if t == "thorough": js += sign_real(F) + sign_head(S, 31)
    return js
P("C18", c18, "complete verification of all twelve sets with symbolic digest (every index, tree and leaf address appears in hash inputs compared with the specification); signing prefixes of f sets (first 60 elements, 128f: all FORS trees and the first layer), s sets: first FORS tree at real size")
def c19(t):
    js = keygen(F) + keygen([0, 10], pk=0) + sign_small(F, rng=2) + sign_small([0, 6, 4], rng=3) + sign_head(ALL, 1, rng=2) + sign_small([0, 6], rng=0)
    return js
P("C19", c19, "3n / n symbolic random bytes, result 0 or 1 (written bytes symbolic in both cases); key generation of all f sets, signing of reduced sets to the end and of all twelve real sets up to the first element")
def c20(t):
    js = [J("h_sizes", cfg=c, cov=["sizes compared"]) for c in ["default", "noopt"] + MINCFG]
    js += keygen(F, rng=1, validate=0) + keygen([1, 11] if t == "quick" else S, rng=1, validate=0) + verify(ALL, validate=0)
    js += sign_red([1, 3, 5, 7, 9, 11], mh=1, k=1, t=3, d=3) + sign_small(F)
    if t == "thorough": js += sign_real(F)
    return js
P("C20", c20, "announced sizes of all twelve sets in 26 configurations; key generation into buffers of exactly the announced size (f sets, sha2_128s, shake_256s), verification with a public key of exactly the announced size (all sets), exact signature length on reduced sets (thorough: f sets complete)")
def c21(t):
    js = []
    for c in MINCFG:
        i = cfg_ps(c)
        js += verify([i], cfg=c, validate=0) + sign_small([i], cfg=c, mh=2, rng=2) + sign_head([i], 1, cfg=c)
        if i in F: js += keygen([i], cfg=c, validate=0)
        elif t == "thorough": js += keygen([i], cfg=c, validate=0)
    for c in ("shake1", "shake2", "noopt", "small"):
        js += sign_small([0, 4, 6, 10] if "shake" not in c else [6], cfg=c, rng=2) + verify([0, 6], cfg=c, validate=0)
    js += prim_shake(t)
    return js
P("C21", c21, "24 minimal configurations (each parameter set, with and without the prehash optimisation / Keccak variant 1 and 2) and four full ones, each compared with the same specification; verification at real size, signing with reduced trees, key generation of the f sets", budget=800)
# C23
def c23(t):
    def ct(i, cfg="default", **kw): kw["ps"] = i; return J("h_ct", cfg=cfg, rng=2, mem=kw.pop("mem", .4), validate=kw.pop("validate", 1), cov=["keygen" if kw["mode"] == 1 else "sign"], **kw)
    js = [ct(i, mode=1, pk=i % 4 // 2) for i in F] + [ct(0, mode=1, pk=1), ct(6, mode=1, pk=1)]
    js += [ct(i, mode=2, **SMALL) for i in F] + [ct(i, mode=2, mem=.8, **red(i, mh=2, k=2, t=3)) for i in S]
    js += [ct(i, mode=2, chunk=c, **SMALL) for i, c in ((0, 1), (4, 31), (6, 5), (10, 33))]
    js += [ct(0, mode=2, k=3, t=3, d=3, mh=3), ct(6, mode=2, k=3, t=3, d=3, mh=3)]
    for c in ("noopt", "small"): js += [ct(i, cfg=c, mode=2, **SMALL) for i in (0, 2, 4)]
    js += [ct(i, mode=2, limit=l, mem=m) for i, l, m in ((0, 40, .5), (2, 30, .6), (4, 30, .8), (6, 40, .5), (8, 30, .6), (10, 30, .8))]
    for c in ("default", "shake1", "shake2"):
        js += [R("h_ct_hash", cfg=c, cov="hashed", m0=a, last=z, mstep=st, m1=sp) for a, z, st, sp in ((0, 140, 7 if t == "quick" else 1, 0), (1, 300, 27 if t == "quick" else 5, 33))]
    if t == "thorough":
        js += [ct(i, mode=1, pk=1, mem=1) for i in S]
        js += [ct(i, mode=2, mem=4) for i in F] + [ct(i, mode=2, mem=2, **red(i, mh=3, k=1)) for i in S]
    return js
P("C23", c23, "key generation of the f sets at real size (thorough: all twelve), signing with reduced parameter sets of every n and family to the end (several request sizes, with and without the prehash optimisation), the first 30 to 40 elements at real size (thorough: f sets complete); SHA-256, SHA-512 and the three SHAKE256 implementations over whole inputs of up to 300 bytes, all bytes secret",
  "source level: instructions whose duration depends on operands, speculative execution, and branches a compiler introduces by itself are not covered; the random source and the caller; the digest of the message and the message length are treated as public, as is the result of the random source")
def c24(t):
    js = []
    for i in (0, 6): js.append(J("h_verdict", ps=i, m0=1, cov=["accepted", "rejected"], mem=0.4, validate=1, **SMALL))
    for i in (2, 4, 8, 10): js += [J("h_verdict", ps=i, m0=m, cov=["accepted", "rejected"], mem=0.4, **SMALL) for m in (3, 16, 32, 57)]
    js += [J("h_verdict", ps=i, m0=m, cov=["accepted", "rejected"], mem=0.6) for i, m in ((0, 16), (1, 100), (5, 32), (6, 1), (9, 24), (10, 32))]
    if t == "thorough": js += [J("h_verdict", ps=i, m0=m, cov=["accepted", "rejected"], mem=1) for i in ALL for m in (1, 77)]
    return js
P("C24", c24, "verdict asked at every byte of the stream on reduced sets and on shake_128f, at element or piece boundaries on other real sets; both verdicts; all signature bytes symbolic")

# C25, C26
def cost(i, mode, cfg="all", **kw): return J("h_cost", cfg=cfg, ps=i, mode=mode, cov=[{1: "keygen", 2: "sign", 4: "verify"}[mode]], mem=kw.pop("mem", .5), **kw)
RED = dict(k=3, t=4, d=2, mh=3)
def c25(t):
    K = dict(limit=512, kinds=("stack", "assert", "global"), mem=.4)
    js = []
    for c, size in CTXSIZE.items():
        sets = [cfg_ps(c)] if c.startswith("min") else ([0, 4, 8, 11] if c in ("all", "small") else [5, 9])
        for i in sets:
            js += [cost(i, m, cfg=c, m1=(size + 64 if c.startswith("min") else 1200), rng=2, **K, **(RED if t == "thorough" else dict(k=2, t=2, d=2, mh=1))) for m in (1, 2, 4)]
    js += [cost(i, 2, chunk=n, **K, **RED) for i, n in ((0, 1), (4, 1000), (8, 17))]
    js += [cost(i, 4, mem=.8, **{k: v for k, v in K.items() if k != "mem"}) for i in (0, 5, 11)]
    for m, c in ((0, "all"), (1, "all"), (2, "all"), (2, "shake1"), (2, "shake2")):
        js.append(R("h_prim_auto", cfg=c, mode=m, m0=0, last=600, mstep=149, limit=512, kinds=("stack", "assert", "global")))
    return js
P("C25", c25, "every configuration; key generation, signing and verification with reduced trees and symbolic keys, messages of symbolic length, random bytes and signatures; verification at real size; the primitives over updates of 0 to 600 bytes",
  "scalars the compiler keeps in registers or spills (automatic storage is counted in arrays, structures and objects whose address is taken, plus 16 bytes for each active call); other compilers' layouts")
def c26(t):
    W = dict(first=1, mem=1)
    js = [cost(i, 1, **W) for i in F] + [cost(i, 2, rng=2, **W) for i in F] + [cost(i, 4, **W) for i in ALL]
    js += [cost(i, 1, first=1, mem=4) for i in ([1, 9] if t == "quick" else S)]
    js += [cost(i, 2, first=1, k=3, t=6, d=3, mh=5, mem=1) for i in S]
    js += [cost(i, 2, first=1, chunk=n, k=4, t=5, d=3, mh=4) for i, n in ((0, 1), (2, 23), (4, 33), (6, 1), (8, 25), (10, 64))]
    js += [cost(i, 4, first=1, chunk=n) for i, n in ((0, 1), (3, 23), (4, 33), (6, 5), (9, 100), (11, 1))]
    for c in ("noopt", "small", "shake1", "shake2"): js += [cost(i, m, cfg=c, **W) for i in ((0, 4) if "shake" not in c else (6, 10)) for m in (1, 4)] + [cost(i, 2, cfg=c, first=1, k=4, t=5, d=3, mh=4) for i in ((0, 4) if "shake" not in c else (6, 10))]
    if t == "thorough": js += [cost(i, 2, first=1, chunk=n, mem=1.5) for i in F for n in (1, 61)] + [cost(i, 2, first=1, k=4, t=8, d=3, mh=6, mem=2) for i in S]
    return js
P("C26", c26, "hash computations and bytes fed to them, counted on every path (the larger count is kept where paths meet): key generation, complete signing of the f sets and complete verification of all sets at real size, signing of the s sets with reduced trees, several request sizes, with and without the midstate optimisation",
  "time spent elsewhere than in hash computations")
