"""Transport, dispatch, addressing and payloads."""
import random
from vlib import *
from checks import check, pick, CHECKS

EDGE = [0, 1, 3, 4, 5, 126, 127, 128, 129, 254, 255, 256, 257, 1023, 1024, 1460, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131072, 200000]


def sizes(r, big=False):
    k = r.randrange(7)
    if k == 0:
        return r.sample(EDGE, r.randrange(1, len(EDGE)))
    if k == 1:
        return [r.randrange(0, 300) for _ in range(r.choice([1, 10, 100]))]
    if k == 2:
        return [r.choice(EDGE[:14]) for _ in range(60)]
    if k == 3:
        return [0] * r.randrange(1, 6) + [r.randrange(1, 100)] + [0]
    if k == 4:
        return [r.choice([1 << 20, (1 << 20) + 1, 3000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1])] + [r.randrange(1000) for _ in range(3)]
    if k == 5:
        return [50] * r.choice([10, 1023, 1024, 1025, 1500])
    return [r.randrange(1, 70000) for _ in range(r.randrange(1, 20))]


def transport_scens(seed, count, thorough=False):
    r = random.Random(seed * 2671 + 19)
    out = []
    for i in range(count):
        nd = pick(r, 1, 1, 2, 3)
        links = []
        for _ in range(pick(r, 1, 2, 3, 4, 6)):
            l = dict(dst=r.randrange(nd), kind=pick(r, "direct", "relay", "relay", "relay"), sizes=sizes(r), gap=pick(r, 0, 0, 0, 50, 500))
            if r.random() < 0.2:
                l["twice"] = 1
            if r.random() < 0.1:
                l["plain"] = 1
            if l["kind"] == "relay":
                l["mode"] = pick(r, "rand", "slow", "slow", "merge")
                l["chunk"] = pick(r, 1, 2, 3, 5, 7, 100, 1000, 4096)
                tot = sum(l["sizes"]) + 4 * len(l["sizes"])
                if l["mode"] != "merge" and tot > 60000 * l["chunk"]:
                    l["chunk"] = 1 + tot // 50000
                if r.random() < 0.3 and "twice" not in l:
                    l["cut"] = pick(r, 0, 1, 2, 3, 4, 5, r.randrange(tot + 1), r.randrange(tot + 1), tot)
                    l["cut"] = min(l["cut"], tot * 8 // 10)
                    l["rst"] = pick(r, 0, 0, 1)
            links.append(l)
        for _ in range(pick(r, 0, 0, 1, 2, 3)):
            if r.random() < 0.3:
                links.append(dict(dst=r.randrange(nd), kind="dead", cut=pick(r, 0, 1, 100, 100000), rst=pick(r, 0, 1), sizes=[r.choice([10, 1000, 20000])] * r.choice([5, 1100, 3000])))
                continue
            items = []
            for _ in range(r.randrange(1, 7)):
                items.append(dict(a=pick(r, "msg", "msg", "msg", "pause"), n=r.choice(EDGE[:20])))
            if r.random() < 0.8:
                items.append(pick(r, dict(a="junk", n=r.choice([1, 2, 3, 10, 1000])), dict(a="announce", len=r.choice([1, 2, 100, 65536, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]), n=0),
                                  dict(a="announce", len=1000, n=999), dict(a="bytes", n=r.choice([1, 2, 3, 4, 5, 100, 5000])), dict(a="rst")))
                items += [dict(a="msg", n=r.choice(EDGE[:12])) for _ in range(r.randrange(3))]
            for it in items:
                if it["a"] == "pause":
                    it["n"] = r.randrange(1, 30)
            links.append(dict(dst=r.randrange(nd), kind="raw", items=items, chunk=pick(r, 0, 0, 1, 3), stay=pick(r, 0, 0, 1), after=pick(r, 0, 0, 5, 50)))
        if r.random() < 0.15:
            for _ in range(pick(r, 1, 1, 2)):
                links.append(dict(dst=r.randrange(nd), kind="flood", sizes=[], conns=pick(r, 1, 5, 30), ms=pick(r, 1, 20, 100)))
        r.shuffle(links)
        p = dict(dests=nd, links=links)
        if r.random() < 0.25:
            p["slow"] = pick(r, 100, 400)
            if r.random() < 0.5:
                links.append(dict(dst=0, kind="direct", sizes=[r.choice([20, 3000])] * 4000))
        out.append(dict(id=i, kind="transport", seed=r.randrange(1 << 40), p=p))
    return out


def design(sc, rep, tier, name):
    rc, out = tlc(sc, name + "MC", cfg=name + ("MC" if tier == "quick" else "MC2"), workers=JOBS, limit=800)
    if rc != 0 or "No error has been found" not in out:
        raise Infra("the design (%s) does not hold in TLC:\n%s" % (name, out[-2000:]))
    rep.design(name + "Design", out)


@check("C14")
def c14(sc, rep, tier, seed):
    h = build_harness(sc, "pkg/core", "core")
    design(sc, rep, tier, "Transport")
    scens = transport_scens(seed, 120 if tier == "quick" else 1200)
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("TransportTrace", validate(sc, "TransportTrace", tr), tr)


TYPES = ["RBCPropose", "RBCEcho", "RBCReady", "Echo", "Value", "Vote", "PreVote", "Done", "Halt", "Finish", "Prepare", "ShareReduce", "Recover", "Reshare", "ShareDist", "Success", "VSSSend", "Commit", "NewCommit", "", "R", "RBC", "echo"]
IDS = ["", "00", "0000", "01", "0001", "0100", "61", "6100", "76737373686172650000000100", "767373736861726500000001", "7673737368617265000000010000", "ff", "ffff", "fffe00", "30", "31", "3031", "c3a9", "80"]


def keys(r, n):
    """Distinct instances, many of them alike: equal types or ids, prefixes, type and id shifted into each other."""
    ks = []
    def add(t, i):
        if [t, i] not in ks:
            ks.append([t, i])
    while len(ks) < n:
        k = r.randrange(6)
        t, i = r.choice(TYPES), r.choice(IDS)
        if k == 0 and ks:
            t = r.choice(ks)[0]
        elif k == 1 and ks:
            i = r.choice(ks)[1]
        elif k == 2 and ks:   # moves a byte between type and id
            a, b = r.choice(ks)
            if a and r.random() < 0.5:
                t, i = a[:-1], "%02x" % ord(a[-1]) + b
            elif b and int(b[:2], 16) < 127 and int(b[:2], 16) > 31:
                t, i = a + chr(int(b[:2], 16)), b[2:]
        elif k == 3 and ks:
            a, b = r.choice(ks)
            t, i = a, b + r.choice(["00", "01", "ff"])
        elif k == 4:
            i = "".join("%02x" % r.randrange(256) for _ in range(r.choice([1, 4, 8, 12, 40])))
        add(t, i)
    return ks


def net_scens(seed, count, thorough=False):
    r = random.Random(seed * 4447 + 71)
    out = []
    for i in range(count):
        n = pick(r, 1, 2, 3, 4, 4, 4, 7, 10)
        u = r.random()
        if u < 0.5:
            ks = keys(r, pick(r, 2, 4, 8, 20))
            ops, reading = [], set()
            for _ in range(r.randrange(5, 60)):
                v = r.random()
                k = r.randrange(len(ks))
                if v < 0.55:
                    ops.append(["a", k, pick(r, 1, 1, 1, 2, 5, n, n * n, n * n + 1)])
                elif v < 0.6:
                    ops.append(["a", k, pick(r, n * n * 2 + 3, 40, 200)])
                elif v < 0.8 and k not in reading:
                    reading.add(k)
                    ops.append(["r", k, r.randrange(2), pick(r, 0, 0, 0, 50, 500)])
                elif v < 0.87:
                    ops.append(["f", k, pick(r, 1, 5, 30)])
                elif v < 0.93:
                    ops.append(["w", pick(r, 1, 3)])
            p = dict(n=n, keys=ks, ops=ops, cap=pick(r, 0, 1, 1024), bare=pick(r, 0, 0, 0, 1))
            kind = "dispatch"
        elif u < 0.62:   # many instances start while their message arrives
            kind, p = "dispatch", dict(n=n, keys=keys(r, 2), ops=[["f", r.randrange(2), 400 if not thorough else 1500]], cap=pick(r, 0, 0, 1024))
        elif u < 0.66:   # one instance gets very much
            kk = keys(r, 3)
            if r.random() < 0.5:
                n = 1
            a = [["a", 0, r.choice([300, 1100, 2500])], ["a", 1, 3]]
            b = [["r", 0, r.randrange(2), 0], ["r", 1, 0, 0]]
            kind, p = "dispatch", dict(n=n, keys=kk, ops=pick(r, a + b, b + a, b + a * 3, [b[0]] + a + b[1:]), cap=pick(r, 0, 1, 1024))
        elif u < 0.76:
            ops = []
            for _ in range(40):
                ops.append([r.choice(["Send", "SendToNextCommittee", "Broadcast", "BroadcastExclude", "BroadcastToNextCommittee"]),
                            pick(r, r.randrange(n), r.randrange(n), r.randrange(n), 0, n - 1, n, n + 1, 255, 256, 65536, -1, -2)])
            kind, p = "addr", dict(n=n, keys=keys(r, 3), ops=ops, me=r.randrange(n))
        elif u < 0.84:
            ks = [k for k in keys(r, 8) if all(ord(c) < 128 for c in k[0])]
            kind, p = "mesh", dict(n=pick(r, 4, 4, 7) , keys=ks, gs=pick(r, 1, 2, 3), count=pick(r, 5, 15), real=pick(r, 0, 0, 1))
        elif u < 0.92:
            kind, p = "ips", dict(n=4, keys=keys(r, 3), count=40)
        else:
            kind, p = "enc", dict(count=150)
        out.append(dict(id=i, kind=kind, seed=r.randrange(1 << 40), p=p))
    return out


@check("C15")
def c15(sc, rep, tier, seed):
    h = build_harness(sc, "internal/party", "partynet", pkgname="party")
    design(sc, rep, tier, "Dispatch")
    scens = net_scens(seed, 500 if tier == "quick" else 2000, tier != "quick")
    tr = assemble(scens, run_scens(sc, h, scens))
    rep.judged("NetTrace", validate(sc, "NetTrace", tr), tr)
