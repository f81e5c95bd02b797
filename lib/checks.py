"""The check of every property."""
import random
from vlib import *

CHECKS = {}


def check(*props):
    def deco(f):
        for p in props:
            CHECKS[p] = f
        return f
    return deco


def pick(r, *xs):
    return xs[r.randrange(len(xs))]


# ------------------------------------------------------------------ reliable broadcast

def rbc_scens(seed, count, base=0, big=False):
    r = random.Random(seed * 1000003 + 17)
    out = []
    for i in range(count):
        n, f = pick(r, (4, 1), (4, 1), (4, 1), (7, 2), (7, 2), (10, 3)) if not big else pick(r, (4, 1), (7, 2), (10, 3), (13, 4))
        nb = pick(r, 0, f, f, f, r.randrange(f + 1))
        byz = sorted(r.sample(range(n), nb))
        proposer = r.randrange(n)
        if byz and r.random() < 0.55:
            proposer = pick(r, *byz)
        out.append(dict(id=base + i, kind="rbc", n=n, f=f, seed=r.randrange(1 << 40), byz=byz,
                        mode=pick(r, "step", "step", "step", "burst"),
                        policy=pick(r, "random", "random", "random", "fifo", "lifo"),
                        p=dict(proposer=proposer, size=pick(r, 0, 1, 2, 3, 7, 16, 33, 40, 100, 255, 1000, 5000), dsize=pick(r, 0, 0, 1, 13),
                               tagged=pick(r, 1, 1, 1, 0), strat=pick(r, "random", "partial", "anyprop", "empty", "flood", "flood"),
                               byzfirst=pick(r, 0, 0, 1),
                               hold=pick(r, "", "", "", "echo", "victim", "ready"))))
    return out


def noise(r, n, thorough=False):
    """what faulty members send in addition: repeated, damaged, misaddressed or unsolicited messages"""
    out = []
    for _ in range(pick(r, 1, 1, 2)):
        what = pick(r, "same", "data", "data", "data", "sender", "id", "type")
        z = dict(what=what, p=pick(r, 1, 0.3, 0.1), n=pick(r, 1, 1, 3), left=pick(r, 3, 20), before=pick(r, 0, 1), data="")
        if what != "same":
            z["data"] = pick(r, "empty", "rand", "cut", "cut", "flip", "flip", "flip", "tail", "ff")
        if r.random() < 0.35:
            z["n"], z["left"] = pick(r, n * n + 1, n * n + 3, 2 * n * n + 5, 3 * n * n), pick(r, 1, 2, 4)
        out.append(z)
    return out


def noisy(r, scens, prob=1):
    for s in scens:
        if r.random() < prob:
            s["p"]["noise"] = noise(r, s["n"])
    return scens


def rbc_plans(sc, seed, count, big=False):
    """behaviours of the specification, to be replayed delivery by delivery"""
    r = random.Random(seed * 27449 + 13)
    out = []
    for n, f, k, cfg in [(4, 1, count, "RBCPlan"), (7, 2, count // 3, "RBCPlan7")]:
        rc, txt = tlc(sc, "RBCPlan", cfg=cfg, args=["-simulate", "num=%d" % (2 * k), "-depth", "250", "-seed", str(seed * 11 + n)], limit=600)
        if rc != 0:
            raise Infra("TLC could not generate plans of the broadcast:\n" + txt[-1500:])
        ps = [json.loads(x.replace('\\"', '"')) for x in sorted(set(re.findall(r'^"PLAN\|(.*)"$', txt, re.M)))]
        if len(ps) < k // 2:
            raise Infra("TLC generated only %d plans" % len(ps))
        r.shuffle(ps)
        # those in which members differ on the way come first
        ps.sort(key=lambda p: len({x for x in p["rdy"]}) > 1 or "v1" in p["out"], reverse=True)
        ps = ps[:k // 3] + r.sample(ps[k // 3:], min(len(ps) - k // 3, k - k // 3))
        for p in ps:
            who = list(range(n))
            r.shuffle(who)
            out.append(dict(id=100000 + len(out), kind="rbc", n=n, f=f, seed=r.randrange(1 << 40), byz=sorted(who[n - f:]), mode="step", policy="random",
                            p=dict(proposer=who[0] if p["ph"] else who[n - 1], size=pick(r, 1, 7, 40, 100), dsize=pick(r, 0, 1), tagged=1, strat="plan",
                                   plan=[dict(t=x["t"], s=who[x["s"]], p=who[x["p"]], h=x["h"], ok=x["ok"]) for x in p["hist"]])))
    return out


def rbc_design(sc, rep, tier):
    for cfg in ("RBCDesign", "RBCDesignH", "RBCDesign7", "RBCDesign7H"):
        rc, out = tlc(sc, "RBCDesign", cfg=cfg, workers=JOBS, limit=600)
        if rc != 0 or "No error has been found" not in out:
            raise Infra("the design of the broadcast does not hold in TLC:\n" + out[-2000:])
        rep.design(cfg, out)


@check("C08", "C09")
def rbc(sc, rep, tier, seed):
    rbc_design(sc, rep, tier)
    h = build_harness(sc, "internal/party", "party", obs=True)
    scens = noisy(random.Random(seed + 5), rbc_scens(seed, 400 if tier == "quick" else 6000, big=tier != "quick"), 0.2)
    res = run_scens(sc, h, scens)
    tr = assemble(scens, res)
    rep.judged("RBCTrace", validate(sc, "RBCTrace", tr), tr)
    scens = rbc_plans(sc, seed, 150 if tier == "quick" else 2000)
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("RBCTrace (replayed behaviours of RBCPlan)", validate(sc, "RBCTrace", tr), tr)


# ------------------------------------------------------------------ internal/bls: register machine

ORDER = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BACKENDS = {"kilic": "", "hbls": "bignum_hbls", "hol256": "bignum_hol256", "pure": "bignum_pure"}


def scalar(r):
    """A scalar, often a special one."""
    k = r.randrange(10)
    if k < 4:
        return r.randrange(ORDER)
    if k == 4:
        return pick(r, 0, 1, 2, 3, ORDER - 1, ORDER - 2, (ORDER - 1) // 2, (ORDER + 1) // 2)
    if k == 5:
        return r.randrange(1 << pick(r, 8, 16, 63, 64, 65, 120, 128, 192, 240, 247, 248, 249, 254))
    if k == 6:
        return ((1 << pick(r, 32, 63, 64, 127, 128, 191, 192, 254)) + pick(r, -1, 0, 1)) % ORDER
    if k == 7:
        return (ORDER - r.randrange(1 << pick(r, 4, 64, 128, 200))) % ORDER
    if k == 8:
        return pow(7, (ORDER - 1) >> r.randrange(0, 33), ORDER)
    return r.randrange(ORDER) & ~((1 << pick(r, 8, 64, 128, 192)) - 1)


def le32(r):
    """32 bytes around the bounds of the range check."""
    k = r.randrange(8)
    if k < 2:
        v = scalar(r)
    elif k == 2:
        v = pick(r, ORDER, ORDER + 1, ORDER - 1, (1 << 256) - 1, 1 << 255, ORDER + (1 << 64), ORDER | (1 << 255))
    elif k == 3:
        v = r.randrange(1 << 256)
    else:  # each 64-bit limb below, equal to or above the limb of the order
        v = 0
        for i in range(4):
            o = (ORDER >> (64 * i)) & ((1 << 64) - 1)
            v |= pick(r, o, o, o, o, max(0, o - 1), min(o + 1, (1 << 64) - 1), 0, (1 << 64) - 1, r.randrange(1 << 64)) << (64 * i)
    return v.to_bytes(32, "little").hex()


def genout(out, tag="GEN"):
    m = re.search(r'^"%s\|(.*)"$' % tag, out, re.M)
    if not m:
        raise Infra("no generated behaviours in TLC's output: " + out[-2000:])
    return json.loads(m.group(1).replace('\\"', '"'))


def bls_load(r, group):
    n = pick(r, 1, 2, 4, 4, 8, 16)
    m = n if r.random() < 0.6 else pick(r, 1, 2, 4, 8)
    nz = r.random() < 0.7
    vec = lambda k: ["%x" % (scalar(r) or (1 if nz else 0)) for _ in range(k)]
    q = dict(op="load", f=["%x" % scalar(r) for _ in range(4)], v=[vec(n), vec(m)])
    if r.random() < 0.3:
        q["f"][1] = q["f"][0]
    if group:
        q["g"] = ["%x" % scalar(r) for _ in range(3)]
        q["h"] = ["%x" % scalar(r) for _ in range(2)]
        if r.random() < 0.4:
            q["g"][1] = q["g"][0]
        if r.random() < 0.4:
            q["g"][2] = "%x" % ((ORDER - int(q["g"][0], 16)) % ORDER)
        if r.random() < 0.3:
            q["h"][1] = q["h"][0]
        q["gv"] = ["%x" % scalar(r) for _ in range(min(n, m, pick(r, 1, 2, 3, 5, 16)))]
    return q


def bls_prog(r, instrs, group):
    prog = []
    cur = None
    for k, i in enumerate(instrs):
        if k % 10 == 0:
            cur = bls_load(r, group)
            prog.append(cur)
        i = dict(i)
        op = i["op"]
        n = [len(x) for x in cur["v"]]
        if op == "AsFr":
            i["x"] = "%x" % pick(r, 0, 1, 2, 255, 256, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, r.randrange(1 << 64))
        elif op in ("SetFr", "ToFr"):
            i["x"] = "%d" % scalar(r)
        elif op in ("FrFrom32", "ValidFr"):
            i["x"] = le32(r)
        elif op == "ExpModFr":
            i["x"] = "%x" % pick(r, 0, 1, 2, 3, 16, r.randrange(1 << 64), scalar(r), ORDER, ORDER - 1)
        elif op == "IsPowerOfTwo":
            i["x"] = "%x" % pick(r, 0, 1, 2, 3, 6, 1 << r.randrange(64), (1 << r.randrange(1, 64)) + 1, r.randrange(1, 1 << 64))
        elif op == "LinCombFr" and n[i["a"]] != n[i["b"]]:
            i["b"] = i["a"]
        elif op == "PolyLinComb":
            i["xs"] = [r.randrange(2) for _ in range(r.randrange(5))]
            i["d"] = pick(r, n[0], n[1], n[i["xs"][0]] if i["xs"] else 3)
        elif op == "EvaluatePolyInEvaluationForm":
            i["xs"] = [pick(r, 0, 0, 1, 2)]
            if r.random() < 0.4:  # a point of the domain
                L = n[i["a"]]
                lg = L.bit_length() - 1
                w = pow(pow(7, (ORDER - 1) >> lg, ORDER), r.randrange(L), ORDER)
                prog.append(dict(op="SetFr", d=i["b"], a=0, b=0, x="%d" % w))
        elif op == "LinCombG1":
            i["d"] = r.randrange(min(len(cur["gv"]), n[i["a"]]) + 1)
        elif op == "PairingsVerify":
            i["xs"] = [r.randrange(3), r.randrange(2), r.randrange(3), r.randrange(2)]
            # half of the time make the equation hold: g[c] := (g[a]*h[b])/h[d]
        elif op in ("FromCompressedG1", "FromCompressedG2"):
            i["xs"] = [r.randrange(3), r.randrange(11), r.randrange(1 << 20)]
        elif op in ("UnmarshalTextG1", "UnmarshalTextG2"):
            i["xs"] = [r.randrange(3), r.randrange(15), r.randrange(1 << 20)]
        elif op == "UnmarshalNil":
            i["x"] = "97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"
        if op == "PairingsVerify" and r.random() < 0.6:
            ga, hb, hd = scalar(r), scalar(r), scalar(r) or 1
            if r.random() < 0.2:
                hb = 0
            gc = ga * hb * pow(hd, -1, ORDER) % ORDER
            if r.random() < 0.3:
                gc = (gc + pick(r, 1, ORDER - 1, scalar(r))) % ORDER
            if r.random() < 0.15:
                hb, hd, gc = 1, RARE[0][0], RARE[0][2][1]
                ga = gc * hd % ORDER
            q = bls_load(r, True)
            q["g"] = ["%x" % x for x in (ga, gc, scalar(r))]
            q["h"] = ["%x" % x for x in (hb, hd)]
            prog.append(q)
            cur = q
            i["xs"] = [0, 0, 1, 1]
        prog.append(i)
    return prog


def bls_scens(sc, tier, seed, ops=None, rounds=None, backends=BACKENDS):
    rc, out = tlc(sc, "BlsGen")
    gen = genout(out)
    r = random.Random(seed * 7919 + 5)
    res = {}
    base = 0
    for b in backends:
        hasg = b in ("kilic", "hbls")
        ins = list(gen["scalar"]) + (gen["group"] if hasg else [])
        if ops:
            ins = [i for i in ins if i["op"] in ops]
        scens = []
        for k in range(rounds or (8 if tier == "quick" else 60)):
            x = list(ins)
            # the operations with immediates deserve more than one value
            x += [i for i in ins if i["op"] in ("AsFr", "SetFr", "FrFrom32", "ValidFr", "ToFr", "ExpModFr", "IsPowerOfTwo", "PolyLinComb", "LinCombG1", "PairingsVerify",
                                               "FromCompressedG1", "FromCompressedG2", "UnmarshalTextG1", "UnmarshalTextG2", "FrTo32", "FrStr")] * (2 if ops is None else 5)
            r.shuffle(x)
            for j in range(0, len(x), 120):
                scens.append(dict(id=base, kind="regs", seed=base, p=dict(prog=bls_prog(r, x[j:j + 120], hasg))))
                base += 1
        res[b] = scens
    rc and None
    return res


def bls_run(sc, rep, tier, seed, ops=None, rounds=None, backends=BACKENDS):
    by = bls_scens(sc, tier, seed, ops, rounds, backends)
    tr = []
    for b, scens in by.items():
        h = build_harness(sc, "internal/bls", "bls", BACKENDS[b])
        tr += assemble(scens, run_scens(sc, h, scens))
    for t in tr:
        t.setdefault("backend", "?")
    rep.judged("BlsTrace", validate(sc, "BlsTrace", tr, field="big"), tr)


ENCODE_OPS = {"FrStr", "String", "FrTo32", "FrFrom32", "ValidFr", "SetFr", "ToFr", "ToCompressedG1", "ToCompressedG2", "MarshalTextG1", "MarshalTextG2",
              "FromCompressedG1", "FromCompressedG2", "UnmarshalTextG1", "UnmarshalTextG2", "UnmarshalNil", "StrG1", "StrG2", "CopyFr", "CopyG1", "CopyG2", "NegG1", "NegG2", "ClearG1", "ClearG2"}


@check("C21")
def c21(sc, rep, tier, seed):
    bls_run(sc, rep, tier, seed)


@check("C22")
def c22(sc, rep, tier, seed):
    bls_run(sc, rep, tier, seed, ENCODE_OPS, 24 if tier == "quick" else 200)
    utils_run(sc, rep, tier, seed)


# ------------------------------------------------------------------ internal/polycommit

def root(k):
    return pow(7, (ORDER - 1) >> k, ORDER)


def pyfft(v, w):
    n = len(v)
    if n == 1:
        return v
    a, b = pyfft(v[0::2], w * w % ORDER), pyfft(v[1::2], w * w % ORDER)
    r, x = [0] * n, 1
    for i in range(n // 2):
        t = b[i] * x % ORDER
        r[i], r[i + n // 2] = (a[i] + t) % ORDER, (a[i] - t) % ORDER
        x = x * w % ORDER
    return r


def pyeval(p, x):
    r = 0
    for c in reversed(p):
        r = (r * x + c) % ORDER
    return r


def hexs(v):
    return ["%x" % x for x in v]


def rpoly(r, n):
    """Coefficients: dense, sparse, constant, zero, with zero leading coefficients."""
    k = r.randrange(8)
    v = [scalar(r) for _ in range(n)]
    if k == 0:
        return [0] * n
    if k == 1:
        return v[:1] + [0] * (n - 1) if n else v
    if k == 2 and n:
        j = r.randrange(n)
        return [0] * j + [v[j]] + [0] * (n - j - 1)
    if k == 3 and n:
        j = r.randrange(n)
        return v[:j] + [0] * (n - j)
    return v


def fft_calls(r, group, big):
    out = []
    for w in (0, 1, 2, 3, 4, 5, 6) + ((7, 8, 9, 10, 11) if big else (8, 10)):
        out.append(dict(op="settings", w=w))
        sizes = {0, 1, 2, 3, 4, 5, 7, 8, 1 << w, (1 << w) + 1, 1 << max(0, w - 1), r.randrange(1 << w) + 1}
        for n in sorted(sizes):
            if n > 1 << w and n > (1 << w) + 1 and n > 5:
                continue
            for inv in (False, True):
                out.append(dict(op="fft", w=w, inv=inv, x=hexs(rpoly(r, n))))
                out.append(dict(op="fftip", w=w, inv=inv, x=hexs(rpoly(r, n))))
                if group and (n <= 8 or (n <= (64 if big else 32) and r.random() < 0.5)) and w <= 6:
                    out.append(dict(op="fftg1", w=w, inv=inv, x=hexs(rpoly(r, n))))
            out.append(dict(op="das", w=w, x=hexs(rpoly(r, n))))
            out.append(dict(op="rev", w=w, x=hexs([scalar(r) for _ in range(n)])))
            out.append(dict(op="revptr", w=w, x=hexs([scalar(r) for _ in range(n)])))
            if group and n <= 16:
                out.append(dict(op="revg1", w=w, x=hexs([scalar(r) for _ in range(n)])))
    out.append(dict(op="bits", w=1, x=[[b << 8, 0] for b in range(256)] + [[0, b] for b in range(256)] + [[b, 0] for b in range(256)] + [[0, b << 8] for b in range(256)]
                    + [[r.randrange(1 << 16), r.randrange(1 << 16)] for _ in range(100)]))
    for k in range(11 if big else 9):
        out.append(dict(op="revlim", w=1, n=1 << k))
    return out


def missing_pattern(r, n):
    k = r.randrange(9)
    m = pick(r, 0, 1, 2, 3, 4, 5, n // 2 - 1, n // 2, n // 2, r.randrange(n // 2 + 1), n // 2 + 1, n - 1)
    m = max(0, min(m, n))
    if k == 0:
        return sorted(r.sample(range(n), m))
    if k == 1:
        a = r.randrange(n)
        return sorted((a + i) % n for i in range(m))
    if k == 2:
        return list(range(0, n, 2))
    if k == 3:
        return list(range(1, n, 2))
    if k == 4:
        return list(range(n // 2))
    if k == 5:
        return list(range(n // 2, n))
    if k == 6:
        return sorted(r.sample(range(0, n, 2), min(m, (n + 1) // 2)))
    return sorted(r.sample(range(n), m))


def rec_calls(r, w, n, miss, alter=0):
    """Recovery from an extended vector of n values of which those in miss are missing."""
    half = rpoly(r, n // 2) if n > 1 else [0]
    if r.random() < 0.3 and n >= 4:  # data with a zero value at some position
        z = pow(root(n.bit_length() - 1), r.randrange(n), ORDER)
        q = half[:n // 2 - 1]
        half = [((q[i - 1] if i else 0) - z * (q[i] if i < len(q) else 0)) % ORDER for i in range(n // 2)]
    orig = pyfft(half + [0] * (n - len(half)), root(n.bit_length() - 1))
    s = list(orig)
    for _ in range(alter):
        s[r.randrange(n)] = scalar(r)
    x = ["" if i in miss else "%x" % s[i] for i in range(n)]
    return [dict(op=op, w=w, x=x, orig=hexs(orig)) for op in ("rec", "erec")]


def subsets(n):
    return [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]


def rec_all(r, big):
    """Every pattern for small sizes."""
    out = []
    for w, n in ((1, 2), (2, 2), (2, 4), (3, 4), (3, 8), (5, 8)):
        for miss in subsets(n):
            if len(miss) < n:
                out.append(dict(op="zero", w=w, n=n, ix=miss))
            out += rec_calls(r, w, n, miss)
            if 0 < len(miss):
                out.append(dict(op="zpoly", w=w, n=n, ix=miss))
    return out


def rec_rand(r, big):
    out = []
    for n in (16, 32, 64, 128, 256) + ((512, 1024, 2048) if big else (pick(r, 512, 512, 1024, 2048),)):
        for _ in range(6 if n <= 64 else 4 if n <= 256 else 2):
            miss = missing_pattern(r, n)
            w = n.bit_length() - 1 + pick(r, 0, 0, 1, 2)
            if len(miss) <= n // 2 or (len(miss) < n and n <= 64):
                out.append(dict(op="zero", w=w, n=n, ix=miss if r.random() < 0.8 else r.sample(miss, len(miss))))
            if miss:
                out.append(dict(op="zpoly", w=w, n=n, ix=miss))
            out += rec_calls(r, w, n, set(miss), pick(r, 0, 0, 0, 1, 2))
    for m in r.sample((62, 63, 64, 65, 126, 127, 128, 189, 190, 252, 253, 254), 12 if big else 4):  # around whole leaves
        n = 1 << (2 * m - 1).bit_length()
        miss = sorted(r.sample(range(n), m))
        out.append(dict(op="zero", w=n.bit_length() - 1 + pick(r, 0, 1), n=n, ix=miss))
        out += rec_calls(r, n.bit_length() - 1, n, set(miss))
    for n in (0, 1, 3, 5, 6, 12, 100):  # impossible sizes: an error, no panic
        for w in (3, 7):
            v = [scalar(r) for _ in range(n)]
            x = ["" if r.random() < 0.4 else "%x" % y for y in v]
            for op in ("rec", "erec"):
                out.append(dict(op=op, w=w, x=x, orig=hexs(v)))
    for n in (32, 256):  # larger than the table
        for op in ("rec", "erec"):
            out.append(dict(op=op, w=4, x=["" if r.random() < 0.4 else "%x" % scalar(r) for _ in range(n)], orig=[]))
    for n in (64, 128, 256):  # nearly everything missing
        out += rec_calls(r, n.bit_length() - 1, n, set(r.sample(range(n), n - pick(r, 0, 1, 2, 5))))
    out.append(dict(op="shift", w=3, x=hexs(rpoly(r, pick(r, 0, 1, 2, 8, 33)))))
    return out


TAUS = [46015081477078601964787943834255776126696019968430095991502055467779756761969 % ORDER, 1927409816240961209460912649124, 5, ORDER - 3]


# openings (secret, point, polynomial) that the pairing of kilic/bls12-381 gets wrong
RARE = [(TAUS[1], 0, [17604061253282306385620701028119773191307079349272086046593315150416923015514, 18094868387450251601981096701524726186859987847861621741814646065155043766982]),
        (TAUS[1], 5, [29165139674218487470465160134024523371989261760776107099104335232774268399148, 8898997486670872376158794799653320671606564278740577387938394098263957613054,
                      46694131833158494572489483204894864069356289141191995392106975951932932440181, 11842901882690186168333562702629284492618909962236499051361441186443862750104])]


def kzg_calls(r, big):
    tau = TAUS[0] if r.random() < 0.5 else r.randrange(1 << 250, ORDER)
    n = pick(r, 2, 3, 5, 9, 17, 33)
    w = 5
    base = dict(w=w, n=n, tau="%x" % tau, taud="%d" % tau)
    out = []
    if r.random() < 0.2:
        out.append(dict(base, op="setup"))
    for t, x, p in RARE:
        if r.random() < 0.15:
            out.append(dict(w=w, n=n if n > len(p) else 5, tau="%x" % t, taud="%d" % t, op="provecheck", x=hexs(p), at="%x" % x))
    def pt():
        return pick(r, 0, 1, 2, n, scalar(r), scalar(r), pow(root(4), r.randrange(16), ORDER), tau if r.random() < 0.3 else scalar(r))
    for _ in range(6):
        p = rpoly(r, r.randrange(n + 1))
        out.append(dict(base, op="commit", x=hexs(p)))
        p = rpoly(r, r.randrange(n + 1))
        x = pt()
        out.append(dict(base, op="prove", x=hexs(p), at="%x" % x))
        p = rpoly(r, r.randrange(n + 1))
        x = pt()
        out.append(dict(base, op="provecheck", x=hexs(p), at="%x" % x))
    for _ in range(8):
        p = rpoly(r, r.randrange(n + 1))
        x = pt()
        y = pyeval(p, x)
        c = pyeval(p, tau)
        wv = (c - y) * pow(tau - x, -1, ORDER) % ORDER if x != tau else scalar(r)
        k = r.randrange(10)
        if k == 1:
            y = pick(r, scalar(r), (y + 1) % ORDER, (ORDER - y) % ORDER, 0)
        elif k == 2:
            c = pick(r, scalar(r), (ORDER - c) % ORDER, 0, y)
        elif k == 3:
            wv = pick(r, scalar(r), (ORDER - wv) % ORDER, 0)
        elif k == 4:
            x = pt()
        elif k == 5:
            c, wv = y, 0
        elif k == 6:
            c, y, wv = scalar(r), scalar(r), 0
        out.append(dict(base, op="check", c="%x" % c, p="%x" % wv, at="%x" % x, y="%x" % y))
    for _ in range(5):
        p = rpoly(r, r.randrange(n + 1))
        m = pick(r, 1, 2, 4, 8)
        at = pick(r, 0, 1, 2, 3, 5431, (1 << 64) - 1, r.randrange(1 << pick(r, 16, 20, 32, 33, 64)))
        out.append(dict(base, op="provemulti", x=hexs(p), at="%x" % at, m=m))
        ms = [m for m in (1, 2, 4, 8, 16) if m < n]
        if ms:
            m = pick(r, *ms)
            x = pick(r, 1, 2, 3, 5431, scalar(r) or 1, pow(root(5), r.randrange(32), ORDER))
            d = root(m.bit_length() - 1)
            ys = [pyeval(p, x * pow(d, i, ORDER) % ORDER) for i in range(m)]
            xm = pow(x, m, ORDER)
            rem = list(p) + [0] * max(0, m - len(p))
            for i in range(len(rem) - 1, m - 1, -1):
                rem[i - m] = (rem[i - m] + rem[i] * xm) % ORDER
            rem = rem[:m]
            c = pyeval(p, tau)
            den = (pow(tau, m, ORDER) - xm) % ORDER
            if den == 0:
                continue
            wv = (c - pyeval(rem, tau)) * pow(den, -1, ORDER) % ORDER
            k = r.randrange(8)
            if k == 1:
                j = r.randrange(m)
                ys[j] = scalar(r)
            elif k == 2:
                c = pick(r, scalar(r), 0)
            elif k == 3:
                wv = pick(r, scalar(r), 0)
            elif k == 4:
                x = scalar(r) or 1
            elif k == 5 and m > 1:
                ys = ys[1:] + ys[:1]
            out.append(dict(base, op="checkmulti", c="%x" % c, p="%x" % wv, at="%x" % x, ys=hexs(ys)))
    for _ in range(4):
        a, b = rpoly(r, r.randrange(12)), rpoly(r, r.randrange(6)) + [scalar(r) or 1]
        out.append(dict(base, op="div", x=hexs(a), y=hexs(b)))
    ns = [m for m in (1, 2, 4, 8, 16) if m <= n]
    m = pick(r, *ns)
    out.append(dict(base, op="commiteval", x=hexs(rpoly(r, m))))
    return out


def fk_calls(r, big):
    out = []
    tau = TAUS[0] if r.random() < 0.5 else r.randrange(1 << 250, ORDER)
    for _ in range(3):
        n = pick(r, 1, 2, 4, 8, 16) if not big else pick(r, 1, 2, 4, 8, 16, 32)
        w = (2 * n).bit_length() - 1 + pick(r, 0, 0, 1)
        base = dict(w=w, n=(1 << w) + 1, tau="%x" % tau, taud="%d" % tau, n2=2 * n)
        p = rpoly(r, n)
        out.append(dict(base, op="fk1", x=hexs(p)))
        out.append(dict(base, op="fk1da", x=hexs(p + [0] * n)))
        out.append(dict(base, op="fk1das", x=hexs(p)))
        l = 1 << r.randrange(n.bit_length())
        p = rpoly(r, n)
        for q in ("fkm", "fkmda", "fkmdas"):
            out.append(dict(base, op=q, l=l, x=hexs(p + ([0] * n if q == "fkmda" else []))))
    return out


def poly_run(sc, rep, seed, gens, backends):
    """gens: list of (function(r, group) -> calls, repetitions)."""
    tr, base = [], 0
    for b in backends:
        r = random.Random(seed * 104729 + len(b) * 31 + 3)
        scens = []
        for g, cnt in gens:
            for _ in range(cnt):
                calls = g(r, b in ("kilic", "hbls"))
                for j in range(0, len(calls), 60):
                    scens.append(dict(id=base, kind="poly", seed=base, p=dict(calls=calls[j:j + 60])))
                    base += 1
        h = build_harness(sc, "internal/polycommit", "polycommit", BACKENDS[b], obs=True)
        tr += assemble(scens, run_scens(sc, h, scens))
    for t in tr:
        t.setdefault("backend", "?")
    rep.judged("PolyTrace", validate(sc, "PolyTrace", tr, field="big"), tr)


@check("C16")
def c16(sc, rep, tier, seed):
    q = tier == "quick"
    poly_run(sc, rep, seed, [(lambda r, g: kzg_calls(r, not q), 60 if q else 300)], ("kilic", "hbls"))


@check("C18")
def c18(sc, rep, tier, seed):
    q = tier == "quick"
    poly_run(sc, rep, seed, [(lambda r, g: fft_calls(r, g, not q), 1 if q else 8)], BACKENDS)


@check("C19")
def c19(sc, rep, tier, seed):
    q = tier == "quick"
    poly_run(sc, rep, seed, [(lambda r, g: rec_all(r, not q), 1 if q else 3), (lambda r, g: rec_rand(r, not q), 4 if q else 30)], BACKENDS)


@check("C20")
def c20(sc, rep, tier, seed):
    q = tier == "quick"
    poly_run(sc, rep, seed, [(lambda r, g: fk_calls(r, not q), 20 if q else 120)], ("kilic", "hbls"))


# ------------------------------------------------------------------ interpolation

EVAL_OPS = {"EvalPolyAt", "EvalPolyAtUnoptimized", "EvaluatePolyInEvaluationForm"}


def distinct(r, n):
    k = r.randrange(5)
    if k == 0:
        return list(range(1, n + 1))
    if k == 1:
        x = list(range(1, n + 1))
        r.shuffle(x)
        return x
    if k == 2:
        return r.sample(range(0, 3 * n + 2), n)
    if k == 3:
        return [ORDER - i for i in range(1, n + 1)]
    s = []
    while len(s) < n:
        v = scalar(r)
        if v not in s:
            s.append(v)
    return s


def ring_calls(r, big):
    out = []
    for _ in range(40):
        d = pick(r, 0, 1, 2, 3, 4, 6, r.randrange(20 if not big else 40))
        n = d + 1 + pick(r, 0, 0, 0, 1, 3)
        x = distinct(r, n)
        y = rpoly(r, n) if r.random() < 0.5 else [pyeval(rpoly(r, r.randrange(n + 1)), v) for v in x]
        out.append(dict(op="interp", deg=d, x=hexs(x), y=hexs(y)))
    out += [dict(op="rand", deg=d) for d in (0, 1, 2, 5, 12)]
    return out


def lag_calls(r, big):
    out = []
    for _ in range(20):
        n = pick(r, 1, 2, 3, 5, 7, r.randrange(1, 14))
        x = distinct(r, n)
        at = pick(r, 0, 1, n + 1, scalar(r), pick(r, *x))
        out.append(dict(op="lambda", x=hexs(x), at="%x" % at))
        f = pick(r, 1, 1, 2, 3)
        d = pick(r, f, 2 * f, 2 * f, 2 * f, r.randrange(1, 3 * f + 1))
        y = rpoly(r, d + 1)
        out.append(dict(op="interpg", f=f, deg=d, at=r.randrange(3 * f + 4), y=hexs(y)))
        d = pick(r, f, 2 * f, 2 * f, r.randrange(0, 3 * f + 1))
        x = distinct(r, d + 1)
        y = rpoly(r, d + 1)
        out.append(dict(op="interpgk", f=f, deg=d, at=r.randrange(3 * f + 4), x=hexs(x), y=hexs(y)))
    for f in (1, 2, 3, 4, 5):
        out.append(dict(op="table", f=f))
    for _ in range(6):
        n = pick(r, 1, 2, 4, 8, 16, 32)
        k = r.randrange(n + 1)
        out.append(dict(op="samples", ix=r.sample(range(n), k), x=hexs(rpoly(r, k)), n=n))
        n = r.randrange(1, 20)
        out.append(dict(op="pad", x=hexs(rpoly(r, r.randrange(n + 1))), n=n))
        out.append(dict(op="scale", n=pick(r, r.randrange(1, 128), *[v for k in range(1, 8) for v in (2 ** k - 2, 2 ** k - 1, 2 ** k) if 0 < v < 128])))
    return out


def interp_run(sc, rep, tier, seed, which=("ring", "lag")):
    q = tier == "quick"
    tr, base = [], 0
    for b in ("kilic", "hbls"):
        for w, pkg, hd, g in (("ring", "internal/polyring", "polyring", ring_calls), ("lag", "internal/party", "partylib", lag_calls)):
            if w not in which:
                continue
            r = random.Random(seed * 15485863 + len(b) + 7 * len(w))
            scens = []
            for _ in range(25 if q else 150):
                scens.append(dict(id=base, kind="interp", seed=base, p=dict(calls=g(r, not q))))
                base += 1
            h = build_harness(sc, pkg, hd, BACKENDS[b], obs=True, name=hd + b, pkgname=pkg.split("/")[-1])
            tr += assemble(scens, run_scens(sc, h, scens))
    for t in tr:
        t.setdefault("backend", "?")
    rep.judged("InterpTrace", validate(sc, "InterpTrace", tr, field="big"), tr)


@check("C17")
def c17(sc, rep, tier, seed):
    interp_run(sc, rep, tier, seed)
    bls_run(sc, rep, tier, seed, EVAL_OPS, 20 if tier == "quick" else 300)


# ------------------------------------------------------------------ threshold keys

@check("C23")
def c23(sc, rep, tier, seed):
    r = random.Random(seed * 32452843 + 1)
    scens = []
    for i in range(120 if tier == "quick" else 600):
        calls = []
        f = pick(r, 1, 1, 2, 3, 4, 5)
        n, t = 3 * f + 1, 2 * f + 1
        if r.random() < 0.4:
            t = r.randrange(1, n + 1)
        stored = None
        for _ in range(r.randrange(4, 12)):
            op = pick(r, "gen", "store", "load", "loadnew", "load", "loadnew")
            if op in ("load", "loadnew") and stored is None:
                op = "store"
            if op == "store":
                if r.random() < 0.3:
                    f = pick(r, 1, 2, 3)
                    n, t = 3 * f + 1, 2 * f + 1
                stored = (n, t)
            if op in ("load", "loadnew"):
                n2, t2 = stored
                if r.random() < 0.3:
                    n2 = n2 + r.randrange(0, 4)
                calls.append(dict(op=op, n=n2, t=t2))
            elif op == "gen":
                n2 = n + pick(r, 0, 0, 1, 5)
                calls.append(dict(op=op, n=n2, t=pick(r, t, t, r.randrange(1, n2 + 1))))
            else:
                calls.append(dict(op=op, n=n, t=t))
        scens.append(dict(id=i, kind="keys", seed=i, p=dict(calls=calls)))
    h = build_harness(sc, "internal/party", "partylib", "", obs=True, pkgname="party")
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("KeyTrace", validate(sc, "KeyTrace", tr, field="big"), tr)


def utils_run(sc, rep, tier, seed):
    r = random.Random(seed * 7 + 2)
    scens = []
    w = lambda: [pick(r, 0, 1, 255, 256, 0x7fff, 0x8000, 0xffff, r.randrange(1 << 16)), pick(r, 0, 1, 255, 256, 0x7fff, 0x8000, 0xffff, r.randrange(1 << 16))]
    for i in range(8 if tier == "quick" else 80):
        calls = []
        for _ in range(60):
            calls.append(dict(op=pick(r, "u32enc", "intenc"), x=w()))
            calls.append(dict(op=pick(r, "u32dec", "intdec"), x=[pick(r, 0, 1, 127, 128, 255, r.randrange(256)) for _ in range(4)]))
            b = [pick(r, 0, 0, 1, 255) for _ in range(r.randrange(9))]
            calls.append(dict(op="delzero", x=b))
            calls.append(dict(op="dellen", x=b, n=r.randrange(len(b) + 1)))
        scens.append(dict(id=i, kind="utils", seed=i, p=dict(calls=calls)))
    h = build_harness(sc, "pkg/utils", "utils")
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("UtilsTrace", validate(sc, "UtilsTrace", tr), tr)
