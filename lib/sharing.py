"""Scenario generators for dealing, handing over and refreshing."""
import random
from checks import check, pick, scalar, noisy, ORDER
from vlib import *

TAU = 46015081477078601964787943834255776126696019968430095991502055467779756761969 % ORDER
inv = lambda x: pow(x, ORDER - 2, ORDER)
H = lambda x: "%x" % (x % ORDER)


def ev(c, x):
    v = 0
    for k in reversed(c):
        v = (v * x + k) % ORDER
    return v


def lagr(xs, ys, at):
    t = 0
    for i, xi in enumerate(xs):
        n, d = 1, 1
        for j, xj in enumerate(xs):
            if i != j:
                n = n * (at - xj) % ORDER
                d = d * (xi - xj) % ORDER
        t += ys[i] * n * inv(d)
    return t % ORDER


def wit(c, x):
    return (ev(c, TAU) - ev(c, x)) * inv(TAU - x) % ORDER


def bivar(r, f, secret=None, kind="random"):
    """columns B(x,1..2f+1)"""
    m = 2 * f + 1
    rnd = lambda: r.randrange(ORDER)
    F = [rnd() if secret is None else secret] + [rnd() for _ in range(2 * f)]
    if kind == "zero":
        return [[0] * (f + 1) for _ in range(m)]
    if kind == "const":
        return [[F[0]] + [0] * f for _ in range(m)]
    cols = [[ev(F, j)] + [rnd() for _ in range(f)] for j in range(1, m + 1)]
    if kind == "low":
        for c in cols:
            c[f] = 0
    if kind == "same":
        cols = [list(cols[0]) for _ in cols]
    if kind == "small":
        cols = [[r.randrange(3) for _ in range(f + 1)] for _ in cols]
    return cols


def colat(cols, y):
    m = len(cols)
    return [lagr(range(1, m + 1), [c[k] for c in cols], y) for k in range(len(cols[0]))]


def rowat(cols, x):
    """coefficients in y of B(x,y)"""
    m = len(cols)
    return interp_poly(list(range(1, m + 1)), [ev(c, x) for c in cols])


def interp_poly(xs, ys):
    out = [0] * len(xs)
    for i, xi in enumerate(xs):
        p, d = [1], 1
        for j, xj in enumerate(xs):
            if i == j:
                continue
            p = [((p[k - 1] if k else 0) - xj * (p[k] if k < len(p) else 0)) % ORDER for k in range(len(p) + 1)]
            d = d * (xi - xj) % ORDER
        s = ys[i] * inv(d) % ORDER
        for k in range(len(p)):
            out[k] = (out[k] + s * p[k]) % ORDER
    return out


BADPT = ["", "00", "c0" + "00" * 46, "c0" + "00" * 48, "c0" + "00" * 46 + "01", "e0" + "00" * 47, "40" + "00" * 47, "80" + "00" * 47,
         "ff" * 48, "97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb" + "00",
         "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb",
         "17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1",
         "00" * 96, "40" + "00" * 95]
BADSC = ["", "00", "01" + "00" * 30, "00" * 33, ORDER.to_bytes(32, "little").hex(), (ORDER + 1).to_bytes(32, "little").hex(), "ff" * 32, "00" * 64]


def forge(r, n, f):
    """a dealing of a faulty dealer, in exponents; often almost right"""
    m = 2 * f + 1
    cols = bivar(r, f, kind=pick(r, "random", "random", "random", "random", "zero", "const", "low", "same", "small"))
    com = lambda c: ev(c, TAU)
    pi = []
    for c in cols:
        z = [0] + c[1:]
        pi.append(dict(cb=com(c), cz=com(z), wz=wit(z, 0), gf=c[0]))
    gs = lagr(range(1, m + 1), [c[0] for c in cols], 0)
    pub = [dict(gs=gs, pi=[dict(x) for x in pi]) for _ in range(n)]
    b = [[ev(c, i) for c in cols] for i in range(1, n + 1)]
    w = [[wit(c, i) for c in cols] for i in range(1, n + 1)]
    tags = []
    for _ in range(pick(r, 0, 0, 1, 1, 1, 1, 2)):
        vict = pick(r, range(n), [r.randrange(n)], r.sample(range(n), min(n, f + 1)))
        j = pick(r, 0, m - 1, r.randrange(m), r.randrange(m))
        k = r.randrange(m)
        d = pick(r, 1, ORDER - 1, r.randrange(1, ORDER))
        a = r.randrange(20)
        lab = r.random() < 0.5
        tags.append(a)
        for i in vict:
            P = pub[i]
            x = i + 1
            if a == 0:
                b[i][j] += d
            elif a == 1:
                w[i][j] += d
            elif a == 2:  # wrong value with a witness made with the setup's secret
                b[i][j] += d
                w[i][j] -= d * inv(TAU - x)
            elif a == 3:
                P["pi"][j]["cb"] += d
            elif a == 4:  # commitment and blinding shifted together
                P["pi"][j]["cb"] += d
                P["pi"][j]["cz"] += d
            elif a == 5:
                P["pi"][j]["cb"] += d
                P["pi"][j]["cz"] += d
                P["pi"][j]["wz"] += d * inv(TAU)
            elif a == 6:  # the same, with matching witnesses
                P["pi"][j]["cb"] += d
                P["pi"][j]["cz"] += d
                P["pi"][j]["wz"] += d * inv(TAU)
                w[i][j] += d * inv(TAU - x)
            elif a == 7:
                P["pi"][j]["wz"] += d
            elif a == 8:
                P["gs"] += d
            elif a == 9:
                P["pi"][j]["gf"] += d
            elif a == 10:  # constant term moved between F_j and Z_j
                P["pi"][j]["gf"] += d
                P["pi"][j]["cz"] -= d
            elif a == 11:  # F shifted, values and witnesses not
                P["pi"][j]["gf"] += d
                P["pi"][j]["cb"] += d
                w[i][j] += d * inv(TAU - x)
            elif a == 12:  # all consistent but g^s
                P["pi"][j]["gf"] += d
                P["pi"][j]["cb"] += d
                b[i][j] += d
            elif a == 13:  # all consistent, for another secret
                P["pi"][j]["gf"] += d
                P["pi"][j]["cb"] += d
                b[i][j] += d
                P["gs"] = lagr(range(1, m + 1), [c["gf"] for c in P["pi"]], 0)
            elif a == 14:  # two columns exchanged, everywhere or only in part
                P["pi"][j], P["pi"][k] = P["pi"][k], P["pi"][j]
                if lab and j != k:
                    P["pi"][j]["j"], P["pi"][k]["j"] = k + 1, j + 1
                b[i][j], b[i][k] = b[i][k], b[i][j]
                w[i][j], w[i][k] = w[i][k], w[i][j]
                if r.random() < 0.5:
                    P["gs"] = lagr(range(1, m + 1), [c["gf"] for c in P["pi"]], 0)
            elif a == 15:  # values at another position, with their witnesses
                q = pick(r, i, i + 2)
                b[i] = [ev(c, q) for c in cols]
                w[i] = [wit(c, q) for c in cols]
            elif a == 16:
                q = pick(r, i, i + 2)
                b[i][j], w[i][j] = ev(cols[j], q), wit(cols[j], q)
            elif a == 17:  # Z_j with a constant term, proved at zero with value zero by force
                P["pi"][j]["cz"] += d
                P["pi"][j]["wz"] += d * inv(TAU)
                P["pi"][j]["gf"] -= d
                P["gs"] = lagr(range(1, m + 1), [c["gf"] for c in P["pi"]], 0)
            elif a == 18:
                P["pi"][j] = dict(cb=0, cz=0, wz=0, gf=0)
            elif a == 19:
                b[i][j], w[i][j] = 0, 0
    exps = set()
    msgs = []
    E = lambda x: (exps.add(H(x)), dict(e=H(x)))[1]
    for i in range(n):
        msgs.append(dict(gs=E(pub[i]["gs"]), pi=[{k: E(v) if k != "j" else v for k, v in c.items()} for c in pub[i]["pi"]],
                         b=[dict(s=H(x)) for x in b[i]], w=[E(x) for x in w[i]]))
    return msgs, exps


def vss_muts(r, n, f, exps):
    m = 2 * f + 1
    fld = lambda: pick(r, "b", "w", "cb", "cz", "wz", "gf", "gs")
    pos = lambda: pick(r, 1, m, r.randrange(1, m + 1))
    ptf = lambda: pick(r, "w", "cb", "cz", "wz", "gf", "gs")
    out = {}
    for i in range(n):
        if r.random() < 0.45:
            continue
        ops = []
        for _ in range(pick(r, 1, 1, 1, 2)):
            k = r.randrange(14)
            if k == 0:
                x = scalar(r)
                ops.append(dict(op="set", f="b", j=pos(), v=dict(s=H(x))))
            elif k == 1:
                x = H(scalar(r))
                exps.add(x)
                ops.append(dict(op="set", f=ptf(), j=pos(), v=dict(e=x)))
            elif k == 2:
                ops.append(dict(op="set", f=ptf(), j=pos(), v=dict(raw=pick(r, *BADPT))))
            elif k == 3:
                ops.append(dict(op="set", f="b", j=pos(), v=dict(raw=pick(r, *BADSC))))
            elif k == 4:
                ops.append(dict(op=pick(r, "copy", "swap"), f=ptf(), j=pos(), g=ptf(), k=pos()))
            elif k == 5:
                g = pick(r, "b", "w", "cb", "cz", "wz", "gf")
                ops.append(dict(op="swap", f=g, j=pos(), g=g, k=pos()))
            elif k == 6:
                ops.append(dict(op="flip", f=fld(), j=pos(), k=r.randrange(96), bit=r.randrange(8)))
            elif k == 7:
                ops.append(dict(op=pick(r, "private", "values", "witnesses", "public"), to=r.randrange(n)))
            elif k == 8:
                ops.append(dict(op="rot", f=pick(r, "b", "w", "pi")))
            elif k == 9:
                ops.append(dict(op="j", j=pos(), k=r.randrange(2 * m)))
            elif k == 10:
                ops.append(dict(op="set", f=pick(r, "b", "w", "cb"), j=0, v=dict(raw="0102")))
        k = r.randrange(9)
        if k == 0:
            ops.append(dict(op="len", f=pick(r, "b", "w", "pi"), n=pick(r, 0, 1, m, m, m + 2, m + 3)))
        elif k == 1:
            ops.append(dict(op="shift", f=pick(r, "b", "w", "pi")))
        elif k == 2:
            ops.append(pick(r, dict(op="nopi"), dict(op="data", v=""), dict(op="data", v=r.randbytes(r.randrange(40)).hex()),
                            dict(op="cut", n=r.randrange(1000)), dict(op="tail", v=pick(r, "00", "ff", "0a00", "1200", "1a00", "0a02ffff"))))
        if ops:
            out[str(i)] = ops
    return out


def vss_scens(seed, count, big=False):
    r = random.Random(seed * 1299709 + 5)
    out = []
    for i in range(count):
        n, f = pick(r, (4, 1), (4, 1), (7, 2), (10, 3)) if not big else pick(r, (4, 1), (7, 2), (10, 3), (13, 4))
        exps, deals = set(), []
        for d in range(pick(r, 1, 2, 3, 3) if n < 10 else pick(r, 1, 2)):
            D = dict(vid="vss%d" % d, early=r.random() < 0.3, secret=H(scalar(r)))
            if r.random() < 0.4:
                D["src"] = "client"
                if r.random() < 0.75:
                    D["muts"] = vss_muts(r, n, f, exps)
            else:
                D["src"] = "forged"
                D["msgs"], e = forge(r, n, f)
                exps |= e
                if r.random() < 0.3:
                    D["muts"] = vss_muts(r, n, f, exps)
            if r.random() < 0.4:
                D["foreign"] = []
                for _ in range(pick(r, 1, 1, 2, n)):
                    z = r.randrange(n)
                    q = dict(to=r.randrange(n), sender=pick(r, z, z, z, 0x7ffffffe, n, 0xffffffff), raw=pick(r, "", "00", r.randbytes(30).hex()), **{"from": z})
                    if r.random() < 0.7:
                        q["copy"] = r.randrange(n)
                    D["foreign"].append(q)
            deals.append(D)
        out.append(dict(id=i, kind="vss", n=n, f=f, seed=r.randrange(1 << 40), mode=pick(r, "step", "burst"), policy="random", byz=[],
                        p=dict(deals=deals, exps=sorted(exps))))
    return out


def vss_run(sc, rep, tier, seed, count=None):
    h = build_harness(sc, "internal/party", "party", obs=True)
    scens = vss_scens(seed, count or (120 if tier == "quick" else 1500), tier != "quick")
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("VSSTrace", validate(sc, "VSSTrace", tr, field="big"), tr)
    return tr


@check("C05")
def c05(sc, rep, tier, seed):
    vss_run(sc, rep, tier, seed)


# ------------------------------------------------------------------ handing over

def oldstate(r, cols, n, f, i, idx=None):
    m = 2 * f + 1
    if idx is None:
        idx = list(range(1, m + 1))
        k = r.randrange(4)
        if k == 1:
            idx = r.sample(range(1, n + 1), m)
        elif k == 2:
            idx = sorted(r.sample(range(1, n + 1), m))
        elif k == 3:
            r.shuffle(idx)
    return dict(full=[H(x) for x in rowat(cols, i + 1)], idx=[H(x) for x in idx],
                wit=[H(wit(colat(cols, y), i + 1)) for y in idx], cb=[H(ev(c, TAU)) for c in cols])


def reduce_scens(seed, count, big=False):
    r = random.Random(seed * 715225739 + 11)
    out = []
    for i in range(count):
        n, f = pick(r, (4, 1), (4, 1), (7, 2), (10, 3)) if not big else pick(r, (4, 1), (7, 2), (10, 3), (13, 4))
        m = 2 * f + 1
        cols = bivar(r, f, kind=pick(r, "random", "random", "random", "random", "zero", "const", "low", "same", "small"))
        other = bivar(r, f)
        nb = pick(r, f, f, f, 0, r.randrange(f + 1))
        byz = sorted(r.sample(range(n), nb))
        strat = pick(r, "other", "other", "onecol", "mixed", "mixed", "silent", "zero", "good")
        reps = pick(r, 1, 1, f + 1, f + 2)
        if strat == "onecol":
            other = [list(c) for c in cols]
            j = pick(r, 0, m - 1, r.randrange(m))
            other[j] = [(x + 1) % ORDER for x in other[j]]
        msgs = []
        for z in byz:
            if strat == "silent":
                continue
            for q in range(n):
                for typ in ("Prepare", "ShareReduce"):
                    for rep in range(reps):
                        s = strat
                        if s == "mixed":
                            s = pick(r, "other", "garbage", "badfield", "zero", "short", "good", "wrongv", "stranger")
                        src = other if s in ("other", "onecol") else cols
                        sender = z if s != "stranger" else pick(r, n, n + 1, 255, 0x7fffffff, 0xffffffff)
                        cc = colat(src, q + 1)
                        mm = dict(t=typ, to=q, sender=sender, **{"from": z})
                        if typ == "Prepare":
                            cb = [dict(e=H(ev(c, TAU))) for c in src]
                            if s == "zero":
                                cb = [dict(e="0") for _ in cb]
                            elif s == "badfield":
                                cb[r.randrange(m)] = dict(raw=pick(r, *BADPT))
                            elif s == "short":
                                cb = cb[:r.randrange(m)]
                            elif s == "wrongv":
                                r.shuffle(cb)
                            mm["cb"] = cb
                        else:
                            c, v, w = ev(cc, TAU), ev(cc, z + 1), wit(cc, z + 1)
                            if s == "wrongv":
                                k = r.randrange(4)
                                if k == 0:
                                    v += 1
                                elif k == 1:
                                    w += 1
                                elif k == 2:
                                    p = pick(r, z, z + 2)
                                    v, w = ev(cc, p), wit(cc, p)
                                else:
                                    d = colat(src, pick(r, q, q + 2))
                                    v, w = ev(d, z + 1), wit(d, z + 1)
                            mm.update(c=dict(e=H(c)), v=dict(s=H(v)), w=dict(e=H(w)))
                            if s == "zero":
                                mm.update(c=dict(e="0"), v=dict(s="0"), w=dict(e="0"))
                            elif s == "badfield":
                                if r.random() < 0.3:
                                    mm["v"] = dict(raw=pick(r, *BADSC))
                                else:
                                    mm[pick(r, "c", "w")] = dict(raw=pick(r, *BADPT))
                        if s == "garbage":
                            mm["raw"] = pick(r, "", r.randbytes(r.randrange(1, 60)).hex(), "0a")
                        msgs.append(mm)
        out.append(dict(id=i, kind="reduce", n=n, f=f, seed=r.randrange(1 << 40), mode=pick(r, "step", "burst"), policy=pick(r, "random", "random", "fifo", "lifo"), byz=byz,
                        p=dict(coefs=[[H(x) for x in c] for c in cols], old=[oldstate(r, cols, n, f, k) for k in range(n)], byzmsgs=msgs,
                               byzfirst=pick(r, 0, 1, 1), late=r.sample([k for k in range(n) if k not in byz], pick(r, 0, f)), early=pick(r, 0, 1), id=pick(r, "", "x"))))
    return out


def reduce_run(sc, rep, tier, seed, count=None):
    h = build_harness(sc, "internal/party", "party", obs=True)
    scens = noisy(random.Random(seed + 5), reduce_scens(seed, count or (100 if tier == "quick" else 1500), tier != "quick"), 0.2)
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("ReduceTrace", validate(sc, "ReduceTrace", tr, field="big"), tr)


@check("C06")
def c06(sc, rep, tier, seed):
    reduce_run(sc, rep, tier, seed)


# ------------------------------------------------------------------ handoffs

def zero_sharing(r, f):
    return bivar(r, f, 0, pick(r, "random", "random", "random", "zero", "low"))


def forged_contribution(r, n, f, kind):
    """a contribution in exponents, and its columns when it is a sharing of zero that verifies"""
    m = 2 * f + 1
    cols = zero_sharing(r, f) if kind == "good" else bivar(r, f) if kind == "nonzero" else zero_sharing(r, f)
    pi = []
    for c in cols:
        pi.append(dict(cb=ev(c, TAU), cz=ev([0] + c[1:], TAU), wz=wit([0] + c[1:], 0), gf=c[0]))
    q = [[ev(c, i) for c in cols] for i in range(1, n + 1)]
    w = [[wit(c, i) for c in cols] for i in range(1, n + 1)]
    j, d = pick(r, 0, m - 1, r.randrange(m)), r.randrange(1, ORDER)
    if kind == "hidden":  # not a sharing of zero, but the committed constants are
        c = [(cols[j][0] + d) % ORDER] + cols[j][1:]
        pi[j]["cb"] = ev(c, TAU)
        for i in range(n):
            q[i][j], w[i][j] = ev(c, i + 1), wit(c, i + 1)
    elif kind == "cz":  # Z_j does not vanish at zero
        c = [(cols[j][0] + d) % ORDER] + cols[j][1:]
        pi[j]["cb"] = ev(c, TAU)
        pi[j]["cz"] = (pi[j]["cz"] + d) % ORDER
        for i in range(n):
            q[i][j], w[i][j] = ev(c, i + 1), wit(c, i + 1)
    elif kind == "swap":  # rows in another order, perhaps labelled with where they belong
        o = list(range(m))
        while o == list(range(m)):
            if r.random() < 0.5:
                o[j], o[d % m] = o[d % m], o[j]
            else:
                r.shuffle(o)
            d += 1
        lab = r.random() < 0.7
        pi = [dict(pi[k], **({"j": k + 1} if lab else {})) for k in o]
        q = [[x[k] for k in o] for x in q]
        w = [[x[k] for k in o] for x in w]
    elif kind == "badcom":
        k = pick(r, "cb", "cz", "wz", "gf")
        pi[j][k] = (pi[j][k] + d) % ORDER
    elif kind == "badval":  # wrong values for some recipients
        for i in r.sample(range(n), pick(r, 1, f, f + 1, n - 1, n)):
            k = pick(r, 0, m - 1, r.randrange(m))
            if r.random() < 0.5:
                q[i][k] = (q[i][k] + d) % ORDER
            else:
                w[i][k] = (w[i][k] + d) % ORDER
    E = lambda x: dict(e=H(x))
    return dict(pi=[{k: E(v) if k != "j" else v for k, v in c.items()} for c in pi],
                to=[dict(q=[dict(s=H(x)) for x in q[i]], w=[E(x) for x in w[i]]) for i in range(n)])


HTYPES = ["Prepare", "ShareReduce", "Commit", "Reshare", "Recover", "NewCommit", "ShareDist", "Success", "RBC", "MVBA"]


FIELDS = [("Reshare", "w"), ("Recover", "w"), ("Commit", "cb"), ("ShareDist", "w"), ("Reshare", "q"), ("Commit", "cz"), ("Recover", "v"), ("NewCommit", "cb"), ("Commit", "wz"), ("ShareDist", "b"),
          ("Prepare", "cb"), ("Commit", "gf"), ("ShareReduce", "w"), ("ShareReduce", "v"), ("ShareReduce", "c")]


def badval(r, f):
    if f in ("q", "v", "b"):
        return pick(r, dict(s=H(scalar(r))), dict(s=H(scalar(r))), dict(raw=pick(r, *BADSC)))
    return pick(r, dict(e=H(scalar(r))), dict(e=H(scalar(r))), dict(raw=pick(r, *BADPT)))


def badrules(r, n, f, h):
    """rules of a member that misbehaves at random"""
    m = 2 * f + 1
    out = []
    for _ in range(pick(r, 1, 1, 2, 3)):
        t = r.choice(HTYPES + ["Commit", "Reshare", "Recover", "ShareDist", "NewCommit"])
        to = pick(r, None, None, r.sample(range(n), r.randrange(1, n)))
        q = dict(t=t, act="drop", p=pick(r, 1, 1, 0.5))
        if to:
            q["to"] = to
        k = r.randrange(12)
        if k < 6 and t in ("Commit", "Reshare", "Recover", "NewCommit", "ShareDist", "Prepare", "ShareReduce"):
            fl = dict(Commit=["cb", "cz", "wz", "gf", "len", "rot", "nilpi", "inner"], Reshare=["q", "w", "len", "wlen", "rot"], Recover=["v", "w", "idx", "sig", "sigcut", "sigidx"],
                      NewCommit=["cb"], ShareDist=["b", "w"], Prepare=["cb", "cb", "len"], ShareReduce=["c", "v", "w"])[t]
            g = r.choice(fl)
            q.update(act="set", f=g, j=pick(r, 0, m - 1, r.randrange(m)), n=pick(r, 0, 1, r.randrange(n + 2), n, 255), v=badval(r, g) if g != "sig" else dict(raw=pick(r, "", "00", "0001", r.randbytes(50).hex())))
        else:
            a = pick(r, "drop", "dup", "raw", "cut", "flip", "other", "old", "stranger", "copyof", "rawwhole")
            q.update(act=a, n=pick(r, 1, 3, 500, 900, n, n + 1, 0x7fffffff), v=dict(raw=pick(r, "", "00", "0a00", r.randbytes(r.randrange(1, 60)).hex(), "12ffffffff0f")))
            if a == "dup":
                q["n"] = pick(r, 1, 2, f + 1)
            if a == "stranger":
                q["n"] = pick(r, n, n + 1, 255, 0x7fffffff)
            if a == "cut":
                q["n"] = pick(r, 0, 500, 900, 990)
        if r.random() < 0.4:
            out.append(dict(t=t, act="early"))
        if h is not None:
            q["h"] = h
        out.append(q)
    return out


def handoff_scens(seed, count, big=False, focus=""):
    r = random.Random(seed * 982451653 + 17)
    out = []
    for i in range(count):
        n, f = pick(r, *([(4, 1)] * 9 + [(7, 2)])) if not big else pick(r, *([(4, 1)] * 6 + [(7, 2)] * 2 + [(10, 3)]))
        chain = pick(r, [(0, 1)], [(0, 1)], [(0, 1), (1, 0)], [(0, 1), (1, 2)], [(0, 1), (1, 0), (0, 1)])
        if n >= 7:
            chain = chain[:2]
        if n >= 10:
            chain = chain[:1]
        if big and n == 4 and r.random() < 0.2:
            chain = [(0, 1), (1, 2), (2, 0), (0, 1)]
        coms = 1 + max(max(c) for c in chain)
        steps, p = [], dict(coms=coms, coefs=[], forged=[])
        if r.random() < 0.5:
            steps.append(dict(k="deal", secret=H(scalar(r))))
        else:
            steps.append(dict(k="given"))
            cols = bivar(r, f, kind=pick(r, "random", "random", "random", "zero", "const", "low", "same", "small"))
            p["coefs"] = [[H(x) for x in c] for c in cols]
            p["old"] = [oldstate(r, cols, n, f, k) for k in range(n)]
        for a, b in chain:
            st = dict(k="handoff", stray=[])
            st["from"], st["to"] = a, b
            if r.random() < 0.3:
                for _ in range(r.randrange(1, 5)):
                    st["stray"].append({"id": pick(r, "pro#", "pro#", "prep#", "red#", "pro#_1,1", "pro#_2,2", "", "zz"), "t": pick(r, "Reshare", "Recover", "ShareDist", "Success", "Commit", "Prepare", "ShareReduce", "RBCPropose", "Halt", "Nonsense", ""),
                                        "from": n - 1, "sender": pick(r, n, n + 1, 255, 0x7fffffff, 0xffffffff), "to": r.randrange(n), "raw": pick(r, "", "00", r.randbytes(20).hex())})
            steps.append(st)
        p["steps"] = steps
        faulty = []
        for c in range(coms):
            nb = pick(r, 0, 0, f, f, f, r.randrange(f + 1))
            inh = [h for h, st in enumerate(steps) if st["k"] == "handoff" and st["to"] == c]
            for pid in r.sample(range(n), nb):
                z = dict(com=c, pid=pid, rules=[])
                k = r.randrange(10)
                if k == 0:
                    z["rules"] = [dict(t="*", act="drop")]
                elif k == 1:
                    z["rules"] = [dict(t="crash", act="", n=r.randrange(40 * n))]
                elif k in (2, 9) and inh:  # a contribution made up by the member
                    kind = pick(r, "good", "nonzero", "hidden", "cz", "badcom", "badval", "badval", "swap", "swap")
                    fc = forged_contribution(r, n, f, kind)
                    z["rules"] = [dict(t="Commit", act="forge", cols=fc), dict(t="Reshare", act="forge", cols=fc), dict(t="Commit", act="early"), dict(t="Reshare", act="early")]
                elif k == 3 and inh:  # only takes part in the agreement
                    z["mvba"] = [dict(h=h, f=pick(r, "old", "old", "good", "few", "dup", "relabel", "sig", "empty", "extra", "longj", "rev", "raw") if h > 1 else pick(r, "good", "few", "dup", "relabel", "sig", "empty", "extra", "longj", "rev", "raw"), n=pick(r, 0, 1, r.randrange(1, n + 1), n, n + 1, 0xffffffff))
                                 for h in inh if h > inh[0] or len(inh) == 1 or r.random() < 0.5]
                    if r.random() < 0.7:
                        z["rules"] = [dict(t="MVBA", act="early")]
                elif k == 4 and len(inh) > 1:
                    z["mvba"] = [dict(h=h, f="old", n=0) for h in inh[1:]]
                    z["rules"] = [dict(t="MVBA", act="early")]
                else:
                    z["rules"] = badrules(r, n, f, pick(r, None, None, r.choice(inh)) if inh else None)
                faulty.append(z)
        p["faulty"] = faulty
        if r.random() < 0.5:
            p["prio"] = {t: r.randrange(1, 9) for t in r.sample(["Prepare", "ShareReduce", "Commit", "RBCEcho", "RBCReady", "Reshare", "Recover", "NewCommit", "ShareDist", "Success", "Value", "Halt", "Finish", "Done"], r.randrange(1, 6))}
        if r.random() < 0.4:
            p["late"] = [pick(r, 0, 100) + r.randrange(n) for _ in range(pick(r, 1, f))]
        sl = []
        if r.random() < 0.6:  # some messages reach some members only when nothing else can happen
            who = [r.randrange(n) for _ in range(pick(r, 1, 1, 2))]
            k = r.randrange(4)
            if k < 2:  # about the contribution of a member itself; the agreement is about that contribution and others
                q = pick(r, n - 1, n - 1, who[0])
                if r.random() < 0.5:
                    p["faulty"] = [z for z in faulty if z["com"] != steps[-1]["to"]]
                others = r.sample([x for x in range(n) if x != q], f)
                sl = [dict(t=pick(r, "Recover", "Recover", "Reshare"), idx=[q + 1], to=[q], lvl=2), dict(t=pick(r, "Commit", "RBCEcho", "RBCReady"), idx=[x + 1 for x in others], lvl=1)]
                if k == 1:
                    sl[0]["idx"] = pick(r, [x + 1 for x in others], [], [r.randrange(1, n + 1)])
            else:
                for _ in range(pick(r, 1, 2, 3)):
                    z = dict(t=pick(r, "Recover", "Recover", "Reshare", "Commit", "RBCEcho", "RBCReady", "RBCPropose", "NewCommit", "ShareDist", "Success", "Prepare", "ShareReduce", "Halt", "Value"), lvl=pick(r, 1, 2, 3))
                    for g, lo in (("idx", 1), ("from", 0), ("to", 0)):
                        if r.random() < 0.5:
                            z[g] = [lo + x for x in r.sample(range(n), pick(r, 1, 1, f, n - f))]
                    sl.append(z)
        p["slow"] = sl
        if i % 13 in (7, 10) and n <= 7:  # faulty contributions with hardly any vouchers, known to be vouched for by some members only
            hs = [h for h, st in enumerate(steps) if st["k"] == "handoff"]
            h = r.choice(hs)
            c, bad = steps[h]["to"], r.sample(range(n), f)
            good = [x for x in range(n) if x not in bad]
            z, x = r.sample(good, f), r.sample(good, pick(r, 1, 1, f))
            rest = [y for y in range(n) if y not in x]
            p["faulty"] = [y for y in p["faulty"] if y["com"] != c] + [dict(com=c, pid=q, rules=[
                dict(t="Reshare", to=z, **pick(r, dict(act="drop"), dict(act="set", f="q", j=0, n=0, v=dict(s=H(scalar(r)))))),
                dict(t="Recover", to=rest, **pick(r, dict(act="drop"), dict(act="set", f="v", n=0, v=dict(s=H(scalar(r)))), dict(act="set", f="sigcut", n=pick(r, 0, 2, 49)))),
                dict(t="Recover", act="early"), dict(t="MVBA", act="early")]) for q in bad]
            fast = bad + r.sample([y for y in range(n) if y not in bad], 1)
            sl = [dict(t="Recover", idx=[y + 1 for y in range(n) if y not in fast], lvl=1)]
            p["slow"], p["prio"], p["late"] = sl, {}, []
        if i % 13 in (2, 9):  # every field of every message in turn malformed or wrong, at any place of a list
            t, fl = FIELDS[(i // 13 * 2 + (i % 13 == 9) + seed) % len(FIELDS)]
            hs = [h for h, st in enumerate(steps) if st["k"] == "handoff"]
            h = r.choice(hs)
            c = steps[h]["from" if t in ("Prepare", "ShareReduce") else "to"]
            to = pick(r, None, r.sample(range(n), f), r.sample(range(n), n - f))
            p["faulty"] = [y for y in p["faulty"] if y["com"] != c] + [dict(com=c, pid=q, rules=[dict(t=t, act="set", f=fl, j=j, n=0, v=badval(r, fl), **({"to": to} if to else {})), dict(t=t, act="early")])
                                                                       for q in r.sample(range(n), f) for j in [pick(r, 0, 2 * f, r.randrange(2 * f + 1))]]
        if i % 13 == 5:  # a certificate of an earlier handoff
            n, f = 4, 1
            p = dict(coms=2, faulty=[dict(com=1, pid=r.randrange(4), rules=[dict(t="MVBA", act="early", h=3)], mvba=[dict(h=3, f="old")])], coefs=[], forged=[],
                     prio=pick(r, {}, {"Value": 2, "Echo": 2, "Finish": 3}), steps=[dict(k="deal", secret=H(scalar(r)))] + [{"k": "handoff", "from": a, "to": b} for a, b in [(0, 1), (1, 0), (0, 1)]])
        out.append(dict(id=i, kind="handoff", n=n, f=f, seed=r.randrange(1 << 40), mode=pick(r, "burst", "burst", "step"), policy=pick(r, "random", "random", "random", "fifo", "lifo"), byz=[], p=p))
    return out


def handoff_run(sc, rep, tier, seed, count=None):
    h = build_harness(sc, "internal/party", "party", obs=True)
    scens = noisy(random.Random(seed + 5), handoff_scens(seed, count or (144 if tier == "quick" else 400), tier != "quick"), 0.15)
    scens.sort(key=lambda s: -s["n"])
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("HandoffTrace", validate(sc, "HandoffTrace", tr, field="big"), tr)
    return h, tr


@check("C01")
def c01(sc, rep, tier, seed):
    handoff_run(sc, rep, tier, seed)


@check("C02")
def c02(sc, rep, tier, seed):
    handoff_run(sc, rep, tier, seed + 1000)


@check("C03")
def c03(sc, rep, tier, seed):
    handoff_run(sc, rep, tier, seed + 2000)


@check("C07")
def c07(sc, rep, tier, seed):
    handoff_run(sc, rep, tier, seed + 3000)


@check("C04")
def c04(sc, rep, tier, seed):
    for m in ("Secrecy",) + (("Secrecy7",) if tier != "quick" else ()):
        rc, out = tlc(sc, "Secrecy", m, workers=4)
        if rc != 0:
            raise Infra("the secrecy model: " + out[-2000:])
        rep.design(m, out)
    h, tr = handoff_run(sc, rep, tier, seed + 4000, 48 if tier == "quick" else None)
    tv = vss_run(sc, rep, tier, seed + 4000, 24 if tier == "quick" else 300)
    reduce_run(sc, rep, tier, seed + 4000, 24 if tier == "quick" else 300)
    # randomness across runs and processes
    r = random.Random(seed)
    sc2 = [dict(id=i, kind="randpoly", n=4, f=1, seed=0, mode="step", policy="random", byz=[], p=dict(degrees=[r.choice([0, 1, 2, 3, 6, 12]) for _ in range(40)])) for i in range(16)]
    ev = []
    for i, (e, st, txt) in run_scens(sc, h, sc2).items():
        ev += [x for x in e if x["ev"] == "poly"]
    for t in tr + tv:
        f = t["_scen"]["f"]
        deal, con, cur = {}, {}, 0
        for e in t["ev"]:
            if e["ev"] == "deal" and len(e["b"]) == 2 * f + 2:
                deal.setdefault((e.get("d", 0)), {})[e["to"]] = e["b"][1:]
            if e["ev"] == "send" and e["t"] == "Reshare" and e["good"] and len(e["q"]) == 2 * f + 1:
                con.setdefault((e["h"], e["p"]), {})[e["to"]] = e["q"]
        for k, x in (("deal", deal), ("contrib", con)):
            for y in x.values():
                if all(i in y and all(len(z) == 64 for z in y[i]) for i in range(f + 1)):
                    ev.append(dict(ev=k, f=f, m=[y[i] for i in range(f + 1)]))
    t = dict(id=0, ev=ev, _scen=dict(kind="all dealings and contributions of this check"), _text="")
    rep.judged("RandTrace", validate(sc, "RandTrace", [t], field="big"), [t])
