COMMON_ASSUMPTIONS = [
  "symbolic execution of the LLVM-18 bitcode that clang -O1 emits for /repo's sources; each counterexample and a sample of path witnesses are re-run on a gcc -O1 AddressSanitizer build of the same sources",
  "libc, GMP and (where named) FLINT services are models in /verif/models and /verif/engine; allocation does not fail; one thread",
]
INV = ["mod_p_inverse_8", "mod_p_inverse_16", "mod_p_inverse_32", "ref_inv"]
PROPS = {}
def job(name, src, **kw):
    d = dict(name=name, src=src); d.update(kw); return d
def gb(name, sys, p=101, simd="avx512", tier="quick", t=30, **par):
    d = dict(sys=sys, p=p); d.update(par)
    return job(name, "gb_f4.c", simd=simd, params=d, p=p, inv=INV, q=0.5, Q=2, t=t, tier=tier)

DEG = ("field branch conditions are decided by the engine's complete finite-field procedure (Groebner completion and root finding over GF(p), cases exhausted), the rest by z3")
# ---- F01: reduced Groebner bases over prime fields
jobs = []
PR = [2, 3, 7, 101, 251, 257, 65521, 65537, 2147483647]
CFG = [dict(ord=0), dict(ord=1), dict(ord=0, elim=1), dict(ord=0, elim=2), dict(la=1), dict(ht=2), dict(ht=2, reset=1, mnsel=1), dict(la=1, ord=1, mnsel=2)]
HEAVY = {(0, 1), (0, 3), (0, 7), (6, 1), (6, 3), (6, 7), (21, 1), (21, 3), (21, 7), (5, 3), (5, 1), (4, 7)}
for k in range(25):
    for c in range(len(CFG)):
        p = PR[(k * 3 + c * 5) % len(PR)]
        if CFG[c].get("elim", 0) >= {1: 2, 4: 2, 8: 2, 10: 1, 12: 2, 15: 2, 17: 2, 20: 2, 21: 2}.get(k, 3): continue
        jobs.append(gb("s%d_c%d_p%d" % (k, c, p), k, p, tier="thorough" if (k, c) in HEAVY else "quick", simd=("avx512", "avx512", "avx2", "s")[(k + 2 * c) % 4], **CFG[c]))
for k in (25,):
    for c, p in ((0, 101), (1, 65521), (5, 257), (6, 101), (5, 2147483647), (4, 7), (2, 65537)): jobs.append(gb("s%d_c%d_p%d" % (k, c, p), k, p, simd=("avx512", "s")[c % 2], **CFG[c]))
for la in (42, 44):
    for p in (251, 257, 65537, 2147483647): jobs.append(gb("s24_la%d_p%d" % (la, p), 24, p, la=la))
# zero polynomials among the generators: zero=m inserts one before each generator i with bit i of m set (or behind the last)
for k, z, p, c in ((2, 8, 101, 0), (11, 8, 65521, 1), (12, 4, 2147483647, 0), (9, 136, 7, 4), (18, 8, 65537, 2), (10, 4, 257, 0)): jobs.append(gb("zlast_s%d_z%d_p%d" % (k, z, p), k, p, zero=z, **CFG[c]))
for k, z, p in ((2, 1, 101), (11, 2, 65521)): jobs.append(gb("zfirst_s%d_z%d_p%d" % (k, z, p), k, p, zero=z))
PROPS["F01"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="25 shapes of 1-4 generators in 1-5 variables with up to two coefficients ranging over all units of GF(p), p in {2,3,7,101,251,257,65521,65537,2^31-1}; orders DRL, LEX, elimination blocks 1 and 2; exact sparse and exact sparse-dense linear algebra, forced small hash tables and table resets, pair-selection caps; the probabilistic variants only on a shape whose cancellations do not depend on the unknowns",
  outside="larger systems, other supports, p = 0, p >= 2^31, several threads")
# ---- F02: normal forms
jobs = []
for k in range(11):
    for i, p in enumerate((7, 101, 65521, 65537, 2147483647)):
        for o in (0, 1):
            if k == 4 and o == 1: continue
            g = (k + i + o) % 2
            jobs.append(job("n%d_p%d_o%d_g%d" % (k, p, o, g), "gb_nf.c", simd=("avx512", "avx2", "s")[(k + i) % 3], params=dict(sys=k, p=p, ord=o, isgb=g), p=p, inv=INV, q=0.5, Q=2, t=30))
PROPS["F02"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="11 shapes (basis of 1-3 generators, 1-3 polynomials to reduce) with up to two coefficients ranging over all units of GF(p), p in {7,101,65521,65537,2^31-1}, DRL and LEX, basis given as generators or as a Groebner basis", outside="larger inputs, elimination orders, several threads")
# ---- F03: long rows
jobs = []
for simd in ("avx512", "avx2", "s"):
    for i, p in enumerate((3, 101, 251, 257, 65521, 65537, 1073741827, 2147483647)):
        for L, k, kind, pa, pb in ((41, 3, 0, 5, 17), (37, 5, 1, 0, 36), (23, 2, 2, 22, 7)):
            jobs.append(job("nf_%s_p%d_L%d_k%d" % (simd, p, L, k), "gb_long.c", simd=simd, params=dict(p=p, mode=0, len=L, k=k, kind=kind, pa=pa, pb=pb), p=p, inv=INV, q=0.5, Q=2, t=25))
        for la in (1, 2, 42, 44):
            if p == 65521 and la in (2, 44) and simd != "s": continue
            jobs.append(job("gb_%s_p%d_la%d" % (simd, p, la), "gb_long.c", simd=simd, params=dict(p=p, mode=1, k=1, len=29, kind=i % 3, la=la), p=p, inv=INV, q=0.5, Q=2, t=25))
for simd in ("avx512", "avx2"):
    for p in (101, 251, 257, 65521):
        for L, k, kind, pa in ((41, 3, 0, 5), (37, 5, 1, 0)):
            jobs.append(job("nf1_%s_p%d_L%d_k%d" % (simd, p, L, k), "gb_long.c", simd=simd, params=dict(p=p, mode=0, len=L, k=k, kind=kind, pa=pa, rb=-1), p=p, inv=INV, q=0.5, Q=2, t=25))
        for la in (1, 2, 42, 44):
            if p < 256 and simd == "avx2": continue
            jobs.append(job("gb1_%s_p%d_la%d" % (simd, p, la), "gb_long.c", simd=simd, params=dict(p=p, mode=1, k=1, len=29, kind=1, la=la, rb=-1), p=p, inv=INV, q=0.5, Q=2, t=25))
for simd in ("avx512", "avx2", "s"):
    for p, k in ((2147483647, 7), (1073741827, 17), (536870909, 40), (16777213, 40), (65521, 40), (251, 40)):
        jobs.append(job("acc_%s_p%d_k%d" % (simd, p, k), "gb_long.c", simd=simd, params=dict(p=p, mode=0, len=9, k=k, kind=3, pa=2, pb=5), p=p, inv=INV, q=0.5, Q=2, t=25))
        for la in (1, 2, 42, 44) if p in (2147483647, 65521, 251) else ():
            jobs.append(job("accgb_%s_p%d_la%d" % (simd, p, la), "gb_long.c", simd=simd, params=dict(p=p, mode=1, len=9, k=min(k, 9), kind=3, pa=2, la=la), p=p, inv=INV, q=0.5, Q=2, t=25))
for n, simd in enumerate(("avx512", "avx2", "s")):
    for i, p in enumerate((2, 7, 251, 257, 65521, 65537, 1073741827, 2147483647)):
        for la in (1, 2, 42, 44):
            if p < 250 and la > 2: continue
            big = p > 1 << 20
            for q, sh in enumerate((dict(k=1, m=3, len=25), dict(k=2, m=4, len=14, rb=99)) if big else (dict(k=4, m=5, len=25 + n), dict(k=3, m=4, len=35 + i, gap=2 + la % 2, ord=1))):
                jobs.append(job("lin_%s_p%d_la%d_%d" % (simd, p, la, q), "gb_lin.c", simd=simd, params=dict(dict(p=p, la=la, kind=1 if big else q, **sh), **(dict(rb=99) if p == 65521 and q else {})), p=p, inv=INV, q=0.5, Q=2, t=25))
jobs = [j for j in jobs if not (j["params"].get("la", 0) > 2 and j["params"]["p"] < 250)]
HEAVY03 = set("""nf_avx512_p257_L37_k5 nf_avx512_p65521_L41_k3 nf_avx512_p65521_L37_k5 nf_avx2_p101_L37_k5 nf_avx2_p251_L41_k3 nf_avx2_p251_L37_k5 nf_avx2_p257_L37_k5 gb_avx2_p257_la1 gb_avx2_p257_la2 gb_avx2_p257_la42 gb_avx2_p257_la44 nf_avx2_p65521_L41_k3 nf_avx2_p65521_L37_k5 nf_avx2_p65521_L23_k2""".split())
for j in jobs:
    if j["name"] in HEAVY03: j["tier"] = "thorough"
PROPS["F03"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="rows of up to 42 columns reduced by up to 5 pivot rows; p in {3,101,251,257,65521,65537,1073741827,2^31-1}; all four linear-algebra options; scalar, AVX2 and AVX512 builds; two coefficients symbolic over all units, the others extreme or pseudo-random", outside="longer rows, several threads, fully symbolic rows; option 2/44 with p=65521 in the vector builds")
# ---- T01: learning and replaying the F4 trace
jobs = []
TPR = [65537, 131101, 262139, 262147, 16777213, 1073741827, 2147483647]
TCFG = [dict(), dict(ord=1), dict(elim=1), dict(ht=2, a0=1, b0=1), dict(mnsel=1, reset=1, a0=-3, b0=5), dict(la=1), dict(a0=2, b0=-1, wide=3), dict(mode=1), dict(mode=1, ord=1, mnsel=1)]
for k in range(25):
    for c in range(len(TCFG)):
        p = TPR[(k * 3 + c * 5) % len(TPR)]
        if TCFG[c].get("elim", 0) >= {1: 2, 4: 2, 8: 2, 10: 1, 12: 2, 15: 2, 17: 2, 20: 2, 21: 2}.get(k, 3): continue
        simd = ("avx512", "avx2", "s")[(k + 2 * c) % 3]
        jobs.append(job("s%d_c%d_p%d" % (k, c, p), "gb_trace.c", simd=simd, params=dict(dict(sys=k, p=p), **(dict(TCFG[c], p1=p) if (k + c) % 3 == 0 else TCFG[c])), p=p, inv=INV, q=0.5, Q=2, t=30, cover=["learned"], tier="thorough" if (k, c) in {(21, 1), (21, 2), (21, 8), (6, 1), (6, 8), (0, 1), (0, 5), (0, 8)} else "quick"))
for i, k in enumerate((0, 1, 2, 5, 9, 11, 13, 18, 22, 23)):
    p = TPR[i % len(TPR)]; jobs.append(job("pad%d_p%d" % (k, p), "gb_trace.c", simd="s", params=dict(sys=k, p=p, pad=33, ht=2, a0=1 + i % 2, b0=3), p=p, inv=INV, q=0.5, Q=2, t=30, cover=["learned"], tier="thorough" if k == 0 else "quick"))
PROPS["T01"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="25 shapes of 1-4 generators in 1-5 variables; learning modulo p1 with concrete and with symbolic coefficients, replaying modulo p with up to two coefficients ranging over all units of GF(p), both primes from 65537 to 2^31-1 (msolve itself uses primes above 2^30); DRL, LEX, elimination; the linear-algebra variant that records traces and the exact one that does not; small hash tables, resets, pair caps",
  outside="larger systems, several threads; the 8- and 16-bit variants (never traced by msolve); a prime dividing a coefficient (msolve skips those)")
# ---- R01: Chinese remaindering and rational reconstruction
UNRES = ["-Wl,--unresolved-symbols=ignore-all", "-no-pie", "-lflint", "-lmpfr"]
jobs = []
def crt(name, t=60, tier="quick", **par): jobs.append(job(name, "crt.c", simd="s", params=par, q=5, Q=40, t=t, tier=tier, libs=UNRES, j=4))
for k in (1, 2, 3, 5):
    for i, p in enumerate((1073741827, 2147483629, 2, 65521, 1879048193)):
        if k * p < 5: pass
        crt("crt_k%d_p%d" % (k, p), mode=0 if i % 2 else 2, k=k, m2=p)
    if k < 3: crt("crts_k%d" % k, mode=1, k=k, m2=1073741827)
for M, Nn, Dd in ((251, 11, 11), (1009, 22, 22), (1019, 50, 10), (1031, 5, 100), (1155, 23, 23)):
    crt("rr_sound_%d_%d" % (M, Nn), mode=3, m1=M, N=Nn, D=Dd); crt("rr_compl_%d_%d" % (M, Nn), mode=4, m1=M, N=Nn, D=Dd, tier="thorough" if M == 1031 else "quick")
    for g in (1, 2, 6, 12) if M != 1155 else (1, 2, 4): tr = "quick" if g == 6 and M < 1030 or g == 2 and M == 1155 else "thorough"; crt("rw_sound_%d_%d_g%d" % (M, Nn, g), mode=5, m1=M, N=Nn, D=Dd, g=g, tier=tr); crt("rw_compl_%d_%d_g%d" % (M, Nn, g), mode=6, m1=M, N=Nn, D=Dd, g=g, tier=tr)
for mr in (0, 1): crt("vec_mr%d" % mr, mode=7, m1=53, N=5, D=5, mr=mr); crt("vecw_mr%d" % mr, mode=8, m1=53, N=5, D=5, mr=mr, g=2 + mr, tier="thorough" if mr else "quick")
crt("vec3", mode=7, m1=53, N=5, D=5, mr=1, len=3, tier="thorough"); crt("vecw3", mode=8, m1=53, N=5, D=5, mr=1, g=3, len=3, tier="thorough"); crt("rr_sound_10403", mode=3, m1=10403, N=72, D=72, tier="thorough", t=300)
PROPS["R01"] = dict(jobs=jobs, workers=3, j=4,
  bounds="lifting: every old residue modulo a product of up to 5 primes of 31 bits and every new residue modulo primes from 2 to 2^31; reconstruction: every residue modulo 251, 1009, 1019, 1031, 1155 = 3*5*7*11 (vectors: 53), balanced and unbalanced bounds, guessed denominators 1, 2, 6, 12; every fraction within the bounds is found", outside="larger moduli for rational reconstruction (thorough: 10403); GMP itself")
# ---- R02 / R04: real root isolation and refinement
def par(s): return dict((k, int(v)) for k, v in (x.split("=") for x in s.split()))
def roots(pre, lst, tier, t):
    return [job("%s%02d_%s" % (pre, i, s.replace(" ", "_").replace("=", "")), "roots.c", simd="s", params=par(s), q=5, Q=40, t=t, tier=tier, libs=["-lflint"], j=4) for i, s in enumerate(lst)]
R02Q = ["form=1 n=2 lo=-40 hi=40 lc=1", "form=1 n=2 lo=-10 hi=10 lc=5", "form=1 n=2 lo=-3 hi=3 lc=0", "form=1 n=3 lo=-9 hi=9 lc=1 base=-5", "form=1 n=3 lo=-7 hi=7 lc=-2 base=0",
  "form=0 n=3 lo=-5 hi=5 den=4", "form=0 n=2 lo=-8 hi=8 base=1048576 den=3", "form=0 n=2 lo=-6 hi=6 sp=3 den=2", "form=0 n=4 lo=-3 hi=3 den=2",
  "form=1 n=2 lo=-3000000007 hi=-2999999990 lc=1", "form=0 n=2 lo=1 hi=12 den=1048576 lc=-7", "form=3 n=5 base=2 sp=1 lo=-40 hi=-1", "form=3 n=7 lo=1 hi=1000", "form=3 n=521 lo=1 hi=6",
  "form=4 n=513 lo=0 hi=3", "form=4 n=600 bin=1", "form=4 n=513 ns=2 lo=0 hi=3 bin=2", "form=4 n=600 ns=2 at=500 lo=0 hi=7 bin=4", "form=4 n=1100 ns=2 at=700 lo=1 hi=4 bin=2", "form=4 n=1025 lo=0 hi=3 ns=1 bin=2", "form=4 n=777 lo=-3 hi=3 ns=2 at=400 bin=3", "form=1 n=2 lo=-40 hi=-30 lo0=-200 hi0=-150 lc=1", "form=1 n=1 lo=-50 hi=50 lc=7", "form=0 n=1 lo=-30 hi=30 den=8"]
R02T = ["form=1 n=2 lo=-20 hi=20 lc=5", "form=1 n=2 lo=-8 hi=8 lc=0", "form=1 n=3 lo=-15 hi=15 lc=-2 base=0", "form=0 n=5 lo=-2 hi=2 den=3", "form=0 n=4 lo=-5 hi=5 den=4", "form=1 n=3 lo=-12 hi=12 lc=3 base=-7", "form=0 n=3 lo=-12 hi=12 den=1048576"]
PROPS["R02"] = dict(jobs=[dict(j, params=dict(j["params"], prec=-1)) for j in roots("q", R02Q, "quick", 60) + roots("t", R02T, "thorough", 120)], workers=3, j=4,
  bounds="every square-free quadratic with coefficients in -40..40 (monic) or -10..10 (leading coefficient 5) or -3..3 (all three symbolic), cubics with two symbolic coefficients in -9..9, every product of 1-4 linear factors with rational roots in the stated ranges (denominators up to 2^20, roots around 2^20), with or without an extra complex pair, binomials and trinomials of degree up to 521, Taylor shifts of degree 513 and 600",
  outside="other coefficient ranges and degrees; GMP/FLINT arithmetic; several threads")
R04Q = ["form=1 n=2 lo=-12 hi=12 lc=1 prec=12", "form=1 n=3 lo=-4 hi=4 lc=2 base=0 prec=12", "form=0 n=2 lo=-6 hi=6 den=5 lc=-3 prec=20", "form=0 n=2 lo=-4 hi=4 base=70000 den=3 prec=6", "form=0 n=3 lo=-4 hi=4 den=1 prec=0",
  "form=0 n=3 lo=-5 hi=4 den=8 prec=1", "form=0 n=2 lo=-4 hi=4 prec=16 den=3 sp=2", "form=3 n=6 lo=1 hi=40 prec=10", "form=1 n=3 lo=-4 hi=4 base=1 lc=1 prec=8", "form=0 n=3 lo=0 hi=3 base=3000 prec=5", "form=1 n=2 lo=-12 hi=12 lc=-3 prec=0", "form=0 n=1 lo=-30 hi=30 den=7 prec=33", "form=1 n=2 lo=-40 hi=-20 lo0=70 hi0=100 lc=1 prec=0", "form=1 n=2 lo=20 hi=40 lo0=70 hi0=100 lc=1 prec=2", "form=1 n=2 lo=-130 hi=-120 lo0=-12 hi0=12 lc=3 prec=1", "form=1 n=2 lo=100 hi=130 lo0=-700 hi0=-690 lc=1 prec=0", "form=0 n=2 lo=-30 hi=-20 base=60 prec=0 den=3"]
R04T = ["form=1 n=2 lo=-30 hi=30 lc=1 prec=40", "form=1 n=3 lo=-9 hi=9 lc=2 base=0 prec=25", "form=3 n=6 lo=1 hi=200 prec=10", "form=0 n=4 lo=-3 hi=3 den=5 prec=12"]
PROPS["R04"] = dict(jobs=roots("q", R04Q, "quick", 60) + roots("t", R04T, "thorough", 120), workers=3, j=4,
  bounds="quadratics with coefficients in -12..12, cubics with two symbolic coefficients in -4..4, products of up to 3 linear factors with rational roots (denominators up to 8, roots around 3000 and 70000), x^6 = c; requested precisions 0, 1, 5, 6, 8, 10, 12, 16, 20, 33 bits (thorough: 40)", outside="other coefficient ranges, degrees and precisions; several threads")
# ---- R03: interval evaluation and the coordinates of real points
def encl(name, s, tier="quick", t=60): return job(name, "enclose.c", simd="s", params=par(s), q=5, Q=40, t=t, tier=tier, libs=UNRES, j=4, defs=("+usolve/usolve.c",))
R03 = ["mode=0 deg=2", "mode=0 deg=3", "mode=0 deg=3 w=3 k=0", "mode=0 deg=4 R=2 lo=-3 hi=3", "mode=1 deg=2", "mode=1 deg=3", "mode=3 n=2 lo=-3 hi=3 R=1", "mode=3 n=1 lo=-5 hi=5 R=4 den=5 cf=-1", "mode=3 n=2 lo=-4 hi=4 R=2 cl=1 den2=7", "mode=1 deg=2 corr=2 k=3", "mode=1 deg=3 corr=1 k=2", "mode=1 deg=3 corr=4 k=3 R=2", "mode=4 n=2 lo=-3 hi=3 R=6 k=3 den2=5 f1=9 x1=7", "mode=4 n=2 lo=-3 hi=3 R=20 k=3 den2=5 lc=-1 f1=9 x1=-13", "mode=4 n=2 lo=-3 hi=3 R=20 k=5 den2=5 prec=3 f1=7 x1=20", "mode=4 n=1 lo=-9 hi=9 den=7 R=20 k=2 cf=2 cl=1", "mode=4 n=2 lo=-16 hi=-12 R=20 k=2 den2=3 x1=-11 f1=-5", "mode=4 n=2 den=5 den2=7 f1=-9 lo=-12 hi=-7 R=20 k=2 x1=-7", "mode=4 n=2 den=5 den2=7 f1=6 lo=-6 hi=3 R=9 k=2 x1=14 lc=2"]
R03T = ["mode=3 n=3 lo=-2 hi=2 R=1 cl=2 den2=5", "mode=3 n=2 lo=-3 hi=3 R=2 den=1", "mode=0 deg=4 R=3 lo=-6 hi=6", "mode=1 deg=4", "mode=4 n=2 lo=-20 hi=-10 R=40 k=2 den2=3 x1=-11 f1=-5", "mode=4 n=2 lo=-3 hi=3 R=3 k=3 den2=5"]
PROPS["R03"] = dict(jobs=[encl("q%02d" % i, s) for i, s in enumerate(R03)] + [encl("t%02d" % i, s, "thorough", 120) for i, s in enumerate(R03T)], workers=3, j=4,
  bounds="interval Horner evaluation and scalar-product evaluation of polynomials of degree up to 4 with small symbolic coefficients on every dyadic interval of the stated width and denominator; coordinates of real points for every parametrization with an eliminating polynomial of degree 1 or 2 (thorough 3) with rational roots and symbolic numerator coefficients, through isolation at the default precision and from given isolating intervals of width 1/4 to 1/32", outside="higher degrees, larger coefficients; irrational roots for the coordinates (the enclosures themselves do not distinguish)")
# ---- I01: reading input files
IOL = dict(libs=UNRES + ["-lgmp"], defs=("+usolve/usolve.c", "+neogb/gb.c", "+fglm/fglm_core.c"))
def io(name, p, tpl, mode=0, t=40, tier="quick", simd="s", cover=None, **par): return job(name, "io_read.c", simd=simd, params=dict(par, p=p, tpl=tpl, mode=mode), **({"p": p, "inv": INV} if mode == 2 else {}), q=2, Q=10, t=t, tier=tier, args=[] if mode == 2 else ["-int"], cover=["printed" if mode == 2 else "read"] if cover is None else cover, **IOL)
jobs = [io("r%d_p%d" % (k, p), p, k) for k in range(13) for p in (0, 101, 2147483647) if k != 11 or p == 0]
jobs += [io("long%d_p%d" % (pad, p), p, 37, pad=pad, cover=None if pad < 1000 else []) for pad in (300, 49997) for p in (0, 101)]
PROPS["I01"] = dict(jobs=jobs, workers=8, j=2,
  bounds="13 file layouts (1-4 variables, 1-4 generators, up to 6 terms) in which signs, all digits of coefficients (up to 11 digits), exponents and fractions, the choice of variables and the kind of white space are symbolic; characteristic 0, 101 and 2^31-1", outside="other layouts, longer coefficients, files that do not follow the documented format, binary input; over a prime field the digits of denominators")
# ---- O01: what the program prints
jobs = []
for k, ps in ((13, (101, 257)), (14, (101, 257, 65521, 2147483647)), (15, (101, 257, 65521)), (16, (101, 257, 65521, 2147483647)), (17, (101, 257, 65521)), (18, (101, 257)), (19, (101, 257, 65521, 2147483647))):
    for p in ps: jobs.append(io("g%d_p%d" % (k, p), p, k, mode=2))
for k, p, g, e, la in ((14, 65521, 1, 0, 2), (14, 2147483647, 2, 1, 2), (16, 257, 2, 1, 2), (16, 65521, 2, 2, 2), (16, 2147483647, 1, 1, 2), (17, 101, 1, 1, 2), (17, 257, 2, 2, 1), (19, 2147483647, 2, 0, 44), (15, 101, 1, 0, 2), (18, 257, 1, 0, 1), (14, 257, 2, 2, 42), (13, 101, 1, 1, 2)): jobs.append(io("o%d_p%d_g%d_e%d_l%d" % (k, p, g, e, la), p, k, mode=2, g=g, elim=e, la=la))
for k, p, nf, gb, la in ((20, 101, 1, 0, 2), (20, 257, 1, 1, 2), (21, 257, 2, 0, 2), (21, 2147483647, 2, 0, 1), (22, 101, 1, 0, 2), (22, 2147483647, 1, 1, 2), (23, 257, 3, 1, 2), (23, 65521, 3, 1, 44), (23, 2147483647, 3, 1, 1)): jobs.append(io("n%d_p%d_i%d_l%d" % (k, p, gb, la), p, k, mode=2, nf=nf, isgb=gb, la=la))
PROPS["O01"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="the whole program (main) on 7 file layouts with symbolic signs, coefficient digits and variables, characteristic 101, 257, 65521 and 2^31-1; options -g 1 and 2, -e 0 to 2, -l 1, 2, 42 and 44", outside="other systems and options, characteristic 0, several threads")
# ---- S01: saturation
jobs = [io("s%d_p%d" % (k, p), p, k, mode=2, sat=1) for k, p in ((24, 65537), (25, 65537), (26, 65537), (26, 131101), (28, 65537), (28, 2147483647), (29, 65537), (30, 65537), (31, 65537), (31, 2147483647), (32, 65537), (33, 65537))] + [io("s%d_p%d_%s" % (k, p, v), p, k, mode=2, sat=1, simd=v) for k, p, v in ((34, 65537, "s"), (34, 65537, "avx2"), (34, 2147483647, "avx2"), (35, 65537, "s"), (35, 65537, "avx2"), (36, 65537, "avx2"), (38, 65537, "avx2"), (39, 65537, "s"), (40, 65537, "s"), (41, 65537, "s"), (42, 65537, "s"), (43, 65537, "s"), (44, 65537, "s"), (45, 65537, "s"), (46, 65537, "s"), (47, 65537, "s"), (48, 65537, "s"), (49, 65537, "avx2"), (50, 65537, "s"), (51, 65537, "s"), (52, 65537, "avx2"))]
jobs += [io("e%d_s%d_p%d_%s" % (e, k, p, v), p, k, mode=2, sat=1, simd=v, elim=e) for e, k, p, v in ((1, 48, 65537, "s"), (1, 49, 65537, "s"), (1, 24, 65537, "s"), (2, 25, 65537, "s"), (1, 26, 131101, "avx2"), (1, 29, 65537, "s"), (2, 31, 65537, "s"), (1, 32, 65537, "s"), (1, 38, 65537, "s"), (1, 42, 65537, "s"), (2, 46, 65537, "s"), (1, 46, 65537, "avx2"), (1, 47, 2147483647, "s"), (1, 52, 65537, "s"))]
PROPS["S01"] = dict(jobs=jobs, workers=8, j=2, assumptions=[DEG],
  bounds="the whole program (main) with -S -g 2, and -S -g 2 -e 1 or 2, on 30 file layouts (1 to 3 variables, 2 or 3 generators up to degree 8, zero-dimensional and positive-dimensional, unit, radical and zero-divisor cases) with symbolic signs and, in half of them, coefficient digits or variables; characteristic 65537, 131101 and 2^31-1; scalar and AVX2 code", outside="other systems, characteristic 0, saturation with several polynomials, several threads; one positive-dimensional system that needs a multiplier of higher degree than are tested is a known finding")
