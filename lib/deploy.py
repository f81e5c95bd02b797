"""The program as it is deployed: processes, key files, address lists."""
import random
from vlib import *
from checks import check, pick


def roles():
    """The names of the roles."""
    return dict(keys="1", old="oldCommittee", new="newCommittee", one="onlyOneCommittee", client="client")


def deploy_scens(seed, count, binp, big=False):
    r = random.Random(seed * 7127 + 5)
    out = []
    for i in range(count):
        f = 2 if i % 7 == 3 else (3 if big and i % 7 == 5 else 1)
        n = 3 * f + 1
        mode = "one" if i % 8 in (2, 5) else "two"
        p = dict(bin=binp, n=n, f=f, mode=mode, roles=roles(), faulty=[], secret="%x" % 111111111111111,
                 delay=pick(r, 0, 0, 1, 3, 10), secs=pick(r, 0, 0, 0, 1, 2), gap=pick(r, 0, 0, 30, 200), extra=pick(r, 0, 0, 3), slow=[])
        ends = ["0.%d" % j for j in range(n)] + ([] if mode == "one" else ["1.%d" % j for j in range(n)])
        for _ in range(pick(r, 0, 0, 1, 2, 4)):
            a, b = r.choice(ends), r.choice(ends)
            p["slow"].append(pick(r, a + "-" + b, a + "-", "-" + b))
        if i % 2 == 1:
            for c in range(1 if mode == "one" else 2):
                if mode == "two" and r.random() < 0.3:
                    continue
                for pid in r.sample(range(n), r.randrange(1, f + 1)):
                    x = dict(com=c, pid=pid)
                    k = r.randrange(6)
                    top = 2 * n + 1 if c == 0 and mode == "two" else pick(r, 3 * n, 12 * n, 40 * n)
                    if k < 2:
                        x["kill"] = r.randrange(1, top)
                    elif k < 4:
                        x["mute"] = pick(r, 0, r.randrange(top))
                    elif k == 4:
                        x["flip"] = pick(r, 0.02, 0.2, 1)
                        p["cut"] = 1
                    else:
                        x["mute"], x["flip"] = r.randrange(top), 0.1
                        p["cut"] = 1
                    p["faulty"].append(x)
        out.append(dict(id=i, kind="deploy", n=n, f=f, seed=r.randrange(1 << 40), p=p))
    return out


def build_program(sc):
    binp = sc.path("dycaps")
    r = subprocess.run(["go", "build", "-o", binp, "./cmd/DyCAPs"], cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0:
        raise Infra("the program does not build: " + r.stderr[-2000:])
    return binp


@check("C25")
def c25(sc, rep, tier, seed):
    binp = build_program(sc)
    h = build_harness(sc, "internal/party", "deploy", pkgname="party")
    scens = deploy_scens(seed, 60 if tier == "quick" else 400, binp, tier != "quick")
    tr = assemble(scens, run_scens(sc, h, scens, jobs=min(JOBS, 4)))
    rep.judged("DeployTrace", validate(sc, "DeployTrace", tr, field="big"), tr)
