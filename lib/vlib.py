"""Shared machinery: builds harnesses from /repo's working tree, runs scenarios on the real code,
turns them into traces, has TLC judge the traces, and reports."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
T0 = time.time()


class Infra(Exception):
    """The check itself could not work: exit 2, never a verdict."""


def goenv(extra=None):
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    e["PATH"] = "/usr/local/bin:/usr/bin:/bin:/usr/local/sbin:/usr/sbin:/sbin:" + e.get("PATH", "")
    if extra:
        e.update(extra)
    return e


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="verif-")

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def yielding(sc, rep, pkgs):
    """lays sources over those of the packages in which other goroutines may go first before every statement"""
    tool = sc.path("yieldtool")
    if not os.path.exists(tool):
        r = subprocess.run(["go", "build", "-o", tool, os.path.join(VERIF, "harness", "yield", "main.go")], cwd=sc.dir, env=goenv({"GO111MODULE": "off", "GOFLAGS": ""}), capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("the tool does not build: " + r.stderr[-1000:])
    base = 0
    for pkg in pkgs:
        d = os.path.join(REPO, pkg)
        name = None
        for f in sorted(os.listdir(d)):
            if not f.endswith(".go") or f.endswith("_test.go") or f.endswith(".pb.go"):
                continue
            r = subprocess.run([tool, os.path.join(d, f), str(base)], capture_output=True)
            if r.returncode != 0:
                raise Infra("%s: %s" % (f, r.stderr.decode()[-500:]))
            base += 10000
            of = sc.path("y-%s-%s" % (pkg.replace("/", "-"), f))
            with open(of, "wb") as g:
                g.write(r.stdout)
            rep[os.path.join(d, f)] = of
            name = name or re.search(rb"^package (\w+)", r.stdout, re.M).group(1).decode()
        of = sc.path("y-%s-vy.go" % pkg.replace("/", "-"))
        with open(os.path.join(VERIF, "harness", "yield", "vy.go.tmpl")) as g, open(of, "w") as o:
            o.write(g.read().replace("package PKG", "package " + name))
        rep[os.path.join(d, "zz_verif_vy.go")] = of


def build_harness(sc, pkg, harness, tags="", race=False, name=None, pkgname=None, obs=False, yields=()):
    """Compiles the tests of /repo/<pkg> with the files of /verif/harness/<harness> laid over it.
    obs: also the trusted observers of the scalar and group types, translated into this package.
    yields: packages whose goroutines let each other go first at random places."""
    if yields:
        name = (name or harness) + "-y"
    hd = os.path.join(VERIF, "harness", harness)
    rep = {}
    for f in sorted(os.listdir(hd)):
        if f.endswith("_test.go"):
            rep[os.path.join(REPO, pkg, f)] = os.path.join(hd, f)
    if not os.path.exists(os.path.join(hd, "zz_verif_core_test.go")):
        with open(os.path.join(VERIF, "harness", "common", "zz_verif_drv_test.go.tmpl")) as g:
            drv = g.read().replace("package PKG", "package " + (pkgname or os.path.basename(pkg)))
        df = sc.path("drv-%s.go" % (name or harness))
        with open(df, "w") as g:
            g.write(drv)
        rep[os.path.join(REPO, pkg, "zz_verif_drv_test.go")] = df
    if obs:
        for f in sorted(os.listdir(os.path.join(VERIF, "harness", "bls"))):
            if f.startswith("zz_verif_obs_"):
                with open(os.path.join(VERIF, "harness", "bls", f)) as g:
                    t = g.read().replace("package bls", "package " + (pkgname or os.path.basename(pkg)), 1)
                t = re.sub(r"(\(\w+ )\*(Fr|G1Point|G2Point)\b", r"\1*bls.\2", t)
                t = t.replace("import (", 'import (\n\t"github.com/DyCAPSTeam/DyCAPS/internal/bls"', 1)
                of = sc.path("obs-%s-%s" % (name or harness, f))
                with open(of, "w") as g:
                    g.write(t)
                rep[os.path.join(REPO, pkg, f)] = of
    if yields:
        yielding(sc, rep, yields)
    # the repository's own tests of that package are not part of the harness
    for f in os.listdir(os.path.join(REPO, pkg)):
        if f.endswith("_test.go"):
            rep[os.path.join(REPO, pkg, f)] = ""
    ov = sc.path("overlay-%s.json" % (name or harness))
    with open(ov, "w") as g:
        json.dump({"Replace": rep}, g)
    out = sc.path("h-%s%s" % (name or harness, tags))
    cmd = ["go", "test", "-vet=off", "-overlay", ov, "-c", "-o", out]
    if tags:
        cmd += ["-tags", tags]
    if race:
        cmd += ["-race"]
    cmd.append("./" + pkg)
    r = subprocess.run(cmd, cwd=REPO, env=goenv(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise Infra("harness build failed: " + (r.stdout + r.stderr)[-3000:])
    return out


def _run_once(binp, scens, wd, limit):
    """One process over a list of scenarios; returns (events per scenario id, status, current, text)."""
    os.makedirs(wd, exist_ok=True)
    sf, of = os.path.join(wd, "scen.json"), os.path.join(wd, "out.ndjson")
    with open(sf, "w") as g:
        json.dump(scens, g)
    if os.path.exists(of):
        os.unlink(of)
    err = os.path.join(wd, "err.txt")
    status = "ok"
    with open(err, "wb") as ef:
        p = subprocess.Popen([binp, "-test.run", "TestVerifDriver", "-test.timeout", "0"], cwd=wd,
                             env=goenv({"VERIF_SCEN": sf, "VERIF_OUT": of, "GOMAXPROCS": os.environ.get("VERIF_GOMAXPROCS", "2")}),
                             stdout=ef, stderr=subprocess.STDOUT)
        try:
            p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            status = "timeout"
    rc = p.returncode
    evs, cur, done, order = {}, None, False, []
    hang = False
    if os.path.exists(of):
        with open(of) as g:
            for line in g:
                try:
                    e = json.loads(line)
                except ValueError:
                    continue  # cut off by the end of the process
                k = e.get("ev")
                if k == "begin":
                    cur = e["id"]
                    evs[cur] = []
                elif k == "end":
                    order.append(cur)
                    cur = None
                elif k == "alldone":
                    done = True
                elif k == "hang":
                    hang = True
                elif cur is not None:
                    evs[cur].append(e)
    with open(err, "rb") as g:
        g.seek(0, 2)
        n = g.tell()
        g.seek(max(0, n - 60000))
        text = g.read().decode("utf8", "replace")
    if done and rc == 0:
        status = "ok"
    elif hang or rc == 97:
        status = "hang"
    elif status != "timeout":
        status = "crash"
    if status != "ok" and ("verif-harness" in text or rc == -9):
        raise Infra("harness failed (rc %s): %s" % (rc, text[-3000:]))
    return evs, order, status, cur, text


def run_scens(sc, binp, scens, limit=600, jobs=None, confirm=2):
    """Runs all scenarios; returns {id: (events, status, text)}, status ok | crash | hang."""
    jobs = jobs or JOBS
    chunks = [scens[i::jobs] for i in range(jobs)]
    res = {}
    failed = []  # over all workers: a few failing scenarios are enough

    def work(ci):
        todo = list(chunks[ci])
        out = {}
        k = 0
        while todo:
            wd = sc.path("run-%s-%d-%d" % (os.path.basename(binp), ci, k))
            k += 1
            evs, order, status, cur, text = _run_once(binp, todo, wd, limit)
            shutil.rmtree(wd, ignore_errors=True)
            for i in order:
                out[i] = (evs[i], "ok", "")
            if status == "ok":
                break
            if cur is None:
                if not order and not evs:
                    raise Infra("the harness did not start: " + text[-2000:])
                # died between scenarios: goroutines of the last one; blame it
                cur = order[-1]
            scen = [s for s in todo if s["id"] == cur][0]
            if status in ("hang", "timeout"):
                # must happen again, alone on a quiet process
                ok = False
                for c in range(confirm):
                    e2, o2, st2, c2, t2 = _run_once(binp, [scen], sc.path("conf-%d-%d" % (ci, k)), 120)
                    if st2 == "ok":
                        out[cur] = (e2[cur], "ok", "")
                        ok = True
                        break
                if not ok:
                    out[cur] = (e2.get(cur, []), "hang", t2)
            else:
                if not re.search(r"panic:|fatal error:|\[signal|exit status|Error|error|FAIL", text) and text.strip() == "":
                    pass
                out[cur] = (evs.get(cur, []), "crash", text)
            ids = [s["id"] for s in todo]
            todo = todo[ids.index(cur) + 1:] if cur in ids else []
            done = set(out)
            todo = [s for s in todo if s["id"] not in done]
            failed.extend(1 for v in [out[cur]] if v[1] != "ok")
            if len(failed) > 6:
                for s in todo:
                    out.setdefault(s["id"], ([], "skipped", ""))
                break
        return out

    with cf.ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(work, range(jobs)):
            res.update(o)
    return res


def assemble(scens, res):
    """Raw events -> one trace object per scenario."""
    traces = []
    for s in scens:
        if s["id"] not in res:
            continue
        evs, status, text = res[s["id"]]
        if status == "skipped":
            continue
        t = {"id": s["id"]}
        ev = []
        for e in evs:
            if e["ev"] == "hdr":
                h = dict(e)
                h.pop("ev")
                t.update(h)
            else:
                ev.append(e)
        if status != "ok":
            ev.append({"ev": status})
        t["ev"] = ev
        t["_scen"] = s
        t["_text"] = text
        t["_hdr"] = any(e["ev"] == "hdr" for e in evs)
        traces.append(t)
    return traces


def compile_field(sc):
    d = sc.path("classes")
    if not os.path.isdir(d):
        os.makedirs(d)
        src = os.path.join(VERIF, "spec", "field")
        fs = [os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")]
        r = subprocess.run(["javac", "-cp", CP, "-d", d] + fs, capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("javac: " + r.stderr)
    return d


def tlc(sc, spec, cfg=None, field=None, env=None, workers=1, args=(), limit=850, mem="3g", libs=()):
    """Runs TLC on /verif/spec/<spec>.tla; returns (rc, output)."""
    sd = os.path.join(VERIF, "spec")
    cp = CP
    lib = list(libs)
    if field == "big":
        cp = compile_field(sc) + ":" + cp
        lib.append(os.path.join(sd, "field"))
    elif field:
        lib.append(os.path.join(sd, field))
    md = tempfile.mkdtemp(prefix="tlc-", dir=sc.dir)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + mem, "-Xss64m"]
    if lib:
        cmd.append("-DTLA-Library=" + ":".join(lib))
    cmd += ["-cp", cp, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
            "-config", os.path.join(sd, (cfg or spec) + ".cfg"), "-noGenerateSpecTE"]
    cmd += list(args) + [os.path.join(sd, spec + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=sd, env=goenv(env), capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired as ex:
        shutil.rmtree(md, ignore_errors=True)
        return 124, (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(out):
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    m = re.findall(r"The number of states generated: ([\d,]+)", out)
    if m:
        return int(m[-1].replace(",", "")), int(m[-1].replace(",", ""))
    return 0, 0


class Judged:
    def __init__(self):
        self.viol = []      # (prop, trace, pos, reason)
        self.cov = {}       # id -> coverage record text
        self.generated = 0
        self.distinct = 0
        self.traces = 0


def validate(sc, spec, traces, cfg=None, field=None, jobs=None, limit=850):
    """Has TLC judge the traces by the trace specification; every trace must be consumed to its end."""
    j = Judged()
    if not traces:
        return j
    jobs = min(jobs or JOBS, max(1, len(traces)))
    order = sorted(traces, key=lambda t: -len(t["ev"]))
    parts = [order[i::jobs] for i in range(jobs)]
    byid = {t["id"]: t for t in traces}
    if field == "big":
        compile_field(sc)

    def work(k):
        f = sc.path("tr-%s-%d.ndjson" % (spec, k))
        with open(f, "w") as g:
            for t in parts[k]:
                g.write(json.dumps({a: b for a, b in t.items() if not a.startswith("_")}) + "\n")
        r = tlc(sc, spec, cfg, field, {"TRACES": f}, limit=limit)
        os.unlink(f)
        return r

    with cf.ThreadPoolExecutor(jobs) as ex:
        outs = list(ex.map(work, range(jobs)))
    for k, (rc, out) in enumerate(outs):
        if rc != 0:
            raise Infra("TLC on %s ended with %s:\n%s" % (spec, rc, out[-4000:]))
        g, d = stats(out)
        j.generated += g
        j.distinct += d
        for m in re.finditer(r'^"VIOL\|([^|]*)\|([^|]*)\|([^|]*)\|(.*)"$', out, re.M):
            tid = m.group(2)
            t = byid[int(tid)] if tid.lstrip("-").isdigit() else byid[tid]
            j.viol.append((m.group(1), t, int(m.group(3)), m.group(4)))
        for m in re.finditer(r'^"DONE\|([^|]*)\|(.*)"$', out, re.M):
            j.cov[m.group(1)] = m.group(2)
    missing = [t["id"] for t in traces if t["ev"] and str(t["id"]) not in j.cov]
    if missing:
        raise Infra("TLC did not consume traces %s of %s" % (missing[:5], spec))
    j.traces = len(traces)
    return j


def covsum(j):
    """Adds up the counters of the coverage records."""
    tot = {}
    for c in j.cov.values():
        for m in re.finditer(r"(\w+) \|-> (\d+)", c):
            tot[m.group(1)] = tot.get(m.group(1), 0) + int(m.group(2))
    return tot


# ----------------------------------------------------------------- known findings, reporting

def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for e in json.load(open(p))["known"]:
            if e["property"] == prop:
                out.append(e)
    return out


class Report:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.viol = []
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []

    def design(self, name, out):
        g, d = stats(out)
        self.states += d
        self.transitions += max(0, g)
        self.extra.setdefault("design_models", {})[name] = {"generated": g, "distinct": d}

    def judged(self, name, j, traces, props=None):
        self.states += j.distinct
        self.transitions += j.generated
        self.traces += j.traces
        self.extra.setdefault("trace_specs", {})[name] = {
            "traces": j.traces, "events": sum(len(t["ev"]) for t in traces), "exercised": covsum(j)}
        for p, t, pos, why in j.viol:
            if p == self.prop or (props and p in props):
                self.add(why, t, pos, name)
        if traces:
            t = traces[len(traces) // 2]
            s = {k: v for k, v in t.items() if not k.startswith("_") and k != "ev"}
            txt = json.dumps(s)
            self.samples.append({"spec": name, "scenario": t.get("_scen"), "header": txt[:600],
                                 "events": len(t["ev"]), "first_events": [json.dumps(e)[:300] for e in t["ev"][:4]]})

    def add(self, why, trace=None, pos=None, spec=""):
        self.viol.append(dict(why=why, trace=trace, pos=pos, spec=spec))

    def finish(self):
        rd = os.path.join(VERIF, "evidence", "replay")
        known = known_findings(self.prop)
        seen, real, printed = {}, 0, 0
        for v in self.viol:
            key = v["why"]
            kf = [e for e in known if re.search(e["match"], key)]
            if kf:
                for e in kf:
                    if e["id"] not in seen:
                        seen[e["id"]] = 1
                        print("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
                continue
            real += 1
            seen[key] = seen.get(key, 0) + 1
            if seen[key] > 1 or printed >= 8:
                continue
            printed += 1
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%d.json" % (self.prop, printed))
            t = v["trace"] or {}
            with open(path, "w") as g:
                json.dump({"property": self.prop, "why": v["why"], "spec": v["spec"], "position": v["pos"],
                           "seed": self.seed, "scenario": t.get("_scen"), "crash_text": (t.get("_text") or "")[-6000:],
                           "trace": {a: b for a, b in t.items() if not a.startswith("_")}}, g, indent=0)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  " + v["why"] + (" (event %s of trace %s, %s)" % (v["pos"], t.get("id"), v["spec"]) if t else ""))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": dict(states=self.states, transitions=self.transitions,
                               traces_validated_against_impl=self.traces, samples=self.samples[:12] or ["none"], **self.extra),
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 2), "violations": real}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as g:
            json.dump(ev, g, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s %s seed=%s: %d states, %d transitions, %d traces of the implementation judged, %d violations, %.1f s"
              % (self.prop, self.tier, self.seed, self.states, self.transitions, self.traces, real, time.time() - T0))
        return 1 if real else 0
