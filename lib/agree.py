"""Agreement: scenarios for the provable broadcast and the multi-valued agreement."""
import json
import random
import re
from vlib import *
from checks import check, pick, noisy, CHECKS

MT = ["Value", "Echo", "Finish", "Done", "PreVote", "Vote", "Halt"]


def values(r, n):
    k = r.randrange(5)
    if k == 0:
        return [b"same".hex()] * n
    if k == 1:
        return [("%02x" % i) for i in range(n)]
    if k == 2:  # common prefix
        pre = r.randbytes(r.choice([31, 32, 33, 63, 64, 65, 100]))
        return [(pre + bytes([i])).hex() for i in range(n)]
    if k == 3:
        return [r.randbytes(r.choice([0, 1, 2, 40, 300])).hex() + "%02x" % i for i in range(n)]
    return [r.choice([b"A", b"B"]).hex() for i in range(n)]


def mrule(r, n, f):
    t = r.choice(MT + ["*"])
    q = dict(t=t, act=pick(r, "drop", "drop", "dup", "flip", "cut", "raw", "stranger", "other", "copyof", "wrongid", "early", "late"), p=pick(r, 1, 1, 0.5, 0.3))
    if q["act"] in ("wrongid", "flip", "raw") and t == "*":
        q["p"] = 0.3
    if r.random() < 0.4:
        q["to"] = r.sample(range(n), r.randrange(1, n))
    if t in ("Value", "Echo") and r.random() < 0.5:
        q["s"] = r.choice([1, 2])
    if r.random() < 0.3:
        q["r"] = r.randrange(2)
    q["n"] = dict(dup=pick(r, 1, 2, f + 1, 2 * f + 1), cut=pick(r, 0, 500, 900), raw=pick(r, 0, 1, 50, 48, 100), stranger=pick(r, n, n + 1, 255, 0xffffffff)).get(q["act"], 0)
    return q


def holds(r, n, bad):
    """schedules: what is delivered late, relative to the leaders of the first rounds"""
    out = []
    for _ in range(r.randrange(1, 5)):
        k = r.randrange(9)
        h = dict(rmax=pick(r, 0, 0, 1, 2), cls=pick(r, 6, 7, 8, 3))
        if k < 3:  # the leader's broadcast or its result is slow
            h.update(pick(r, dict(t="Value", s=1), dict(t="Value", s=2), dict(t="Value", s=2), dict(t="Finish"), dict(t="Echo", s=2), dict(t="Echo", s=1)), lead=1)
            if r.random() < 0.6:
                h["to"] = r.sample(range(n), r.randrange(1, n))
            if h["t"] in ("Value", "Finish") and r.random() < 0.6:
                h["cls"] = 8
        elif k < 5:
            h.update(t=pick(r, "Halt", "Halt", "Vote", "PreVote", "Done", "Finish"))
            if r.random() < 0.6:
                h["to"] = r.sample(range(n), r.randrange(1, n))
        elif k < 7:  # slow members
            h.update(t="*", **{pick(r, "to", "from"): r.sample(range(n), pick(r, 1, 1, max(1, len(bad))))})
        elif k == 7 and bad:  # the faulty ones are fast
            h.update(t="*", cls=2)
            h["from"] = list(bad)
        else:
            h.update(t=r.choice(MT), cls=pick(r, 2, 3, 4, 6, 7, 8))
        out.append(h)
    return out


def leadslow(r, n, f):
    """a round that ends without a decision, or with different votes"""
    out = [dict(t="Finish", lead=1, rmax=pick(r, 0, 0, 1), cls=8)]
    if r.random() < 0.5:
        out.append(dict(t="Value", s=2, lead=1, rmax=out[0]["rmax"], cls=8, to=r.sample(range(n), pick(r, f + 1, 2 * f, 2 * f + 1, n))))
    else:
        out.append(dict(t="Value", s=1, lead=1, rmax=out[0]["rmax"], cls=8))
    out.append(dict(t="Halt", rmax=0, cls=8))
    if r.random() < 0.5:
        out.append(dict(t="PreVote", rmax=0, cls=7, to=r.sample(range(n), r.randrange(1, n))))
    if r.random() < 0.5:
        out.append({"t": "PreVote", "rmax": 0, "cls": 7, "from": r.sample(range(n), r.randrange(1, f + 2))})
    if r.random() < 0.5:
        out.append({"t": "Vote", "rmax": 0, "cls": 7, "from": r.sample(range(n), r.randrange(1, f + 2))})
    return out


def mvba_scens(seed, count, big=False):
    r = random.Random(seed * 7919 + 5)
    out = []
    for i in range(count):
        n, f = pick(r, *([(4, 1)] * 8 + [(7, 2)])) if not big else pick(r, *([(4, 1)] * 6 + [(7, 2)] * 2 + [(10, 3)]))
        nb = pick(r, 0, f, f, f, f)
        bad = sorted(r.sample(range(n), nb))
        p = dict(values=values(r, n), idhex=pick(r, "61", "", "00", "70726f30", r.randbytes(5).hex()), adv=pick(r, "real", "script", "script") if bad else "real")
        if r.random() < 0.3:
            p["badmark"] = 0xee
        if r.random() < 0.7:
            p["lead"] = [pick(r, "bad", "bad", "good", "any") if bad else "any" for _ in range(3)]
        p["hold"] = pick(r, [], holds(r, n, bad), holds(r, n, bad), leadslow(r, n, f))
        if p["adv"] == "real":
            p["rules"] = [mrule(r, n, f) for _ in range(pick(r, 1, 1, 2, 3))]
            if r.random() < 0.1:
                p["rules"] = [dict(t="*", act="drop", p=1)]
        else:
            p["acts"] = pick(r, 0, 20, 60, 120)
        out.append(dict(id=i, kind="mvba", n=n, f=f, seed=r.randrange(1 << 40), byz=bad, mode=pick(r, "step", "step", "burst"), policy=pick(r, "random", "random", "random", "fifo", "lifo"), p=p))
    return out


def spb_scens(seed, count, big=False):
    r = random.Random(seed * 104729 + 7)
    out = []
    for i in range(count):
        n, f = pick(r, (4, 1), (4, 1), (7, 2)) if not big else pick(r, (4, 1), (7, 2), (10, 3))
        snd = r.randrange(n)
        bad = sorted(r.sample([x for x in range(n)], f))
        rules = [dict(t="Echo", act=pick(r, "drop", "dup", "junk", "junk", "otheridx", "foreign", "foreign", "flip", "raw", "stranger", "old"), n=pick(r, 0, 1, 2, r.randrange(n), n, 255), p=pick(r, 1, 1, 0.5)) for _ in range(pick(r, 1, 1, 2, 3))]
        for q in rules:
            if q["act"] == "dup":
                q["n"] = pick(r, 1, 2 * f, 2 * f + 1)
        if snd in bad:
            rules = [dict(t="Value", act=pick(r, "drop", "flip", "dup", "old", "stranger"), n=pick(r, 1, n, 3), p=pick(r, 0.3, 0.5))] + rules
        out.append(dict(id=i, kind="spb", n=n, f=f, seed=r.randrange(1 << 40), byz=bad, mode=pick(r, "step", "step", "burst"), policy=pick(r, "random", "random", "fifo", "lifo"),
                        p=dict(sender=snd, round=pick(r, 0, 1, 7), value=values(r, n)[0], rules=rules, inject=pick(r, 0, 0, 1))))
    return out


def plans(sc, seed, num, big=False):
    """behaviours of the specification's first round under a faulty leader"""
    rc, out = tlc(sc, "MVBAPlan", cfg="MVBAPlan7" if big else "MVBAPlan", args=["-simulate", "num=%d" % num, "-depth", "40", "-seed", str(seed * 7 + 3)], limit=300)
    if rc != 0:
        raise Infra("TLC could not generate plans:\n" + out[-1500:])
    got = {}
    for line in re.findall(r'^"PLAN\|(.*)"$', out, re.M):
        got[line] = json.loads(line.replace('\\"', '"'))
    if len(got) < 20:
        raise Infra("TLC generated only %d plans" % len(got))
    return [got[k] for k in sorted(got)]


def replay_scens(sc, seed, count, big=False):
    r = random.Random(seed * 31337 + 11)
    out = []
    hexv = dict(a="61", b="62")
    for n, f, k in [(4, 1, count)] + ([(7, 2, count // 3)] if big else [(7, 2, count // 10)]):
        ps = plans(sc, seed, 1500, n == 7)
        r.shuffle(ps)
        # the instructive ones first: a lock together with votes of both kinds or a round without decision
        def score(p):
            kinds = {(x["k"], x["x"]) for x in p["hist"]}
            return 3 * bool(p["lock"]) + 2 * (("vt", "no") in kinds) + ("vt" in {x["k"] for x in p["hist"]}) + 2 * (("ack", "2") in kinds) + 2 * bool(p["unlock"]) + r.random() * 4
        ps.sort(key=score, reverse=True)
        for i in range(k):
            p = ps[i % len(ps)]
            H = list(range(n - f))
            perm = H[:]
            r.shuffle(perm)
            # faulty members are the last ones of the plan; who they are does not matter
            plan = []
            pv, vt = [], {}
            for x in p["hist"]:
                q, v = perm[x["p"]], hexv.get(x["v"], "")
                if x["k"] == "ack":
                    plan.append(dict(a="ack" + x["x"], p=q, v=v))
                elif x["k"] == "pv":
                    plan.append(dict(a="prevote", p=q))
                    pv.append(q)
                else:
                    plan.append(dict(a="vote" + x["x"], p=q, v=v) if x["x"] == "yes" else dict(a="voteno", p=q))
                    vt[q] = x["x"]
            if r.random() < 0.5:
                # attempts at what the specification forbids: votes of the other kind
                plan = [x for x in plan if not x["a"].startswith("vote")]
                pv = [q for q in perm if r.random() < 0.85]
                plan = [x for x in plan if x["a"] != "prevote"] + [dict(a="prevote", p=q) for q in pv]
                vt = {q: pick(r, "no", "no", "yes" if p["lock"] else "no") for q in pv}
                # those who deny come first, so that there is a certificate for it
                plan += [dict(a="voteno", p=q) if vt[q] == "no" else dict(a="voteyes", p=q, v=hexv[p["lock"][0]]) for q in sorted(pv, key=lambda q: (vt[q], r.random()))]
            tail = []
            for q in pv:
                c = pick(r, "unlock", "unlock", "adopt", "decide", "finish", "none", "none")
                v = hexv[p["lock"][0]] if p["lock"] else "61"
                if c in ("unlock", "adopt"):
                    tail.append(dict(a=c, p=q, v=v))
                elif c in ("decide", "finish") and p["final"]:
                    tail.append(dict(a=c, p=q, v=hexv[p["final"][0]]))
            r.shuffle(tail)
            plan += tail
            if r.random() < 0.6:
                # one member that is kept back while the others go on
                plan.append(dict(a="free", p=r.choice([q for q in H if q in vt] or H)))
            pp = dict(values=values(r, n), plan=plan, lead1=r.choice(H + [-1]), halt=pick(r, 1, 1, 0))
            if r.random() < 0.3:
                pp["slow"] = r.sample(H, 1)
            out.append(dict(id=1000 + len(out), kind="mvbareplay", n=n, f=f, seed=r.randrange(1 << 40), byz=list(range(n - f, n)), mode="step", policy=pick(r, "random", "random", "fifo"), p=pp))
    return out


def replay_run(sc, rep, tier, seed, h, props=None):
    scens = replay_scens(sc, seed, 60 if tier == "quick" else 600, tier != "quick")
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("MVBATrace (replayed behaviours of MVBAPlan)", validate(sc, "MVBATrace", tr), tr, props)


def design_run(sc, rep, tier):
    rc, out = tlc(sc, "MVBADesign", cfg="MVBADesign" if tier == "quick" else "MVBADesign3", workers=JOBS, limit=600)
    if rc != 0 or "No error has been found" not in out:
        raise Infra("the design of the agreement does not hold in TLC:\n" + out[-2000:])
    rep.design("MVBADesign", out)
    if tier != "quick":
        for c in ("MVBADesign7",):
            rc, out = tlc(sc, "MVBADesign", cfg=c, workers=JOBS, args=["-simulate", "num=20000", "-depth", "100"], limit=600)
            if rc != 0:
                raise Infra("the design of the agreement does not hold in TLC (%s):\n%s" % (c, out[-2000:]))
            rep.design(c, out)


# values whose signature share by the given signer (keys of seed 12345, instance "a") the pairing of kilic/bls12-381 rejects by mistake
RARE = [("2fbcc0f70e", 3, 2), ("1a67779a9b", 2, 3), ("afac2d149d", 0, 2), ("d0b2e1e48a", 1, 2), ("c7224d12cb", 3, 0), ("ce74a8159d", 3, 1)]


def rare_scens(seed):
    """every one of the 2f+1 honest members is needed, and one of their shares is such a share"""
    r = random.Random(seed * 3571 + 3)
    out = []
    for v, snd, sgn in RARE:
        bad = pick(r, *[x for x in range(4) if x not in (snd, sgn)])
        vals = values(r, 4)
        vals[snd] = v
        out.append(dict(id=7000 + len(out), kind="mvba", n=4, f=1, seed=r.randrange(1 << 40), byz=[bad], mode="step", policy=pick(r, "random", "fifo", "lifo"),
                        p=dict(values=vals, idhex="61", keyseed=12345, adv="real", rules=[dict(t="*", act="drop", p=1)], hold=[])))
    return out


def agree_run(sc, rep, tier, seed, count=None, props=None):
    h = build_harness(sc, "internal/party", "party", obs=True)
    scens = noisy(random.Random(seed + 5), mvba_scens(seed, count or (160 if tier == "quick" else 1500), tier != "quick"), 0.15) + rare_scens(seed)
    scens.sort(key=lambda s: -s["n"])
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("MVBATrace", validate(sc, "MVBATrace", tr), tr, props)
    return h, tr


def spb_run(sc, rep, tier, seed, h=None):
    h = h or build_harness(sc, "internal/party", "party", obs=True)
    scens = noisy(random.Random(seed + 5), spb_scens(seed, 120 if tier == "quick" else 1500, tier != "quick"), 0.15)
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("SPBTrace", validate(sc, "MVBATrace", tr), tr)


@check("C10", "C11")
def c10(sc, rep, tier, seed):
    h, _ = agree_run(sc, rep, tier, seed)
    replay_run(sc, rep, tier, seed, h)
    if rep.prop == "C10":
        design_run(sc, rep, tier)


@check("C12")
def c12(sc, rep, tier, seed):
    h, _ = agree_run(sc, rep, tier, seed + 500)
    spb_run(sc, rep, tier, seed, h)


def leader_scens(seed, tier):
    """the same keys and instance under different schedules, different keys, different instances"""
    r = random.Random(seed * 50021 + 1)
    out = []
    key = [r.randrange(1, 1 << 30) for _ in range(3)]
    k = 1 if tier == "quick" else 8

    def add(n, f, ks, idhex, **kw):
        out.append(dict(id=3000 + len(out), kind="mvba", n=n, f=f, seed=r.randrange(1 << 40), byz=kw.pop("byz", []), mode="step", policy=pick(r, "random", "fifo", "lifo"),
                        p=dict(values=values(r, n), idhex=idhex, keyseed=ks, adv="real", rules=[], hold=kw.pop("hold", []))))
    for _ in range(30 * k):  # one instance, many keys
        add(4, 1, r.randrange(1, 1 << 30), "61")
    for i in range(40 * k):  # one key, many instances
        add(4, 1, key[0], "%04x" % r.randrange(1 << 16), hold=pick(r, [], leadslow(r, 4, 1)))
    for i in range(6 * k):  # one key, one instance, many schedules
        idh = "6%x" % i
        for _ in range(3):
            byz = sorted(r.sample(range(4), pick(r, 0, 1)))
            add(4, 1, key[1], idh, byz=byz, hold=pick(r, holds(r, 4, byz), leadslow(r, 4, 1)))
    if tier != "quick":
        for i in range(120):
            add(7, 2, key[2], "%04x" % r.randrange(1 << 16))
        for i in range(120):
            add(7, 2, r.randrange(1, 1 << 30), "61")
    return out


@check("C13")
def c13(sc, rep, tier, seed):
    h, tr = agree_run(sc, rep, tier, seed + 900)
    scens = leader_scens(seed, tier)
    scens.sort(key=lambda s: -s["n"])
    tr2 = assemble(scens, run_scens(sc, h, scens))
    rep.judged("MVBATrace (elections)", validate(sc, "MVBATrace", tr2), tr2)
    ev = []
    for t in tr + tr2:
        if "key" not in t:
            continue
        seen = set()
        for e in t["ev"]:
            if e["ev"] == "send" and e["t"] in ("PreVote", "Vote", "Halt") and e["p"] not in t["bad"]:
                for l in e["js"]:
                    if (e["r"], l) not in seen:
                        seen.add((e["r"], l))
                        ev.append(dict(ev="elect", key=t["key"], iid=t["iid"], r=e["r"], l=l, n=t["n"], free=t["free"]))
    lt = [dict(id=9000, ev=ev + [dict(ev="end")])]
    rep.judged("LeaderTrace", validate(sc, "LeaderTrace", lt), lt)
