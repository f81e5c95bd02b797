"""No message of a faulty peer crashes or blocks an honest member: all protocols under hostile traffic."""
import random
from vlib import *
from checks import check, noisy, rbc_scens
from sharing import vss_scens, reduce_scens, handoff_scens
from agree import mvba_scens, spb_scens
from netw import transport_scens, net_scens, design


def hostile(scens):
    """those with somebody faulty in them"""
    return [s for s in scens if s.get("byz") or s["p"].get("faulty")]


@check("C24")
def c24(sc, rep, tier, seed):
    q = tier == "quick"
    r = random.Random(seed * 60493 + 3)
    h = build_harness(sc, "internal/party", "party", obs=True)

    def go(spec, name, scens, harness, field=None):
        if rep.viol:
            return  # what was found is enough
        scens.sort(key=lambda s: -s.get("n", 0))
        tr = assemble(scens, run_scens(sc, harness, scens))
        rep.judged(name, validate(sc, spec, tr, field=field), tr)

    go("RBCTrace", "RBCTrace", noisy(r, hostile(rbc_scens(seed + 6000, 250 if q else 3000))), h)
    go("MVBATrace", "MVBATrace", noisy(r, hostile(mvba_scens(seed + 6000, 110 if q else 900, not q))), h)
    go("MVBATrace", "SPBTrace", noisy(r, hostile(spb_scens(seed + 6000, 60 if q else 700, not q))), h)
    go("VSSTrace", "VSSTrace", vss_scens(seed + 6000, 50 if q else 600, not q), h, "big")
    go("ReduceTrace", "ReduceTrace", noisy(r, hostile(reduce_scens(seed + 6000, 60 if q else 600, not q))), h, "big")
    go("HandoffTrace", "HandoffTrace", noisy(r, hostile(handoff_scens(seed + 6000, 70 if q else 400, not q))), h, "big")
    design(sc, rep, tier, "Dispatch")
    hn = build_harness(sc, "internal/party", "partynet", pkgname="party")
    go("NetTrace", "NetTrace", [s for s in net_scens(seed + 6000, 300 if q else 1200, not q) if s["kind"] == "dispatch"], hn)
    hc = build_harness(sc, "pkg/core", "core")
    go("TransportTrace", "TransportTrace", [s for s in transport_scens(seed + 6000, 60 if q else 600) if any(l["kind"] in ("raw", "dead") or "cut" in l for l in s["p"]["links"])], hc)
