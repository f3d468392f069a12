#!/usr/bin/env python3
"""check.py <property> <quick|thorough> [--replay FILE]

Decides one property of tcpx: generates scenarios from the specification (spec/Env.tla, TLC simulator, plus the
exhaustive enumerations of spec/*Exh), replays them into the real code (rebuilt from /repo, instrumented, virtual time),
and lets TLC check every recorded trace against the specification (spec/TcpxTrace.tla).  Design models are
model-checked exhaustively first.  Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery failed.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "run"))
from plan import PLAN, MC, ASSUME, CODEC, EXIT   # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 4)


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    with open(out, "w") if out else tempfile.TemporaryFile("w+") as f:
        try:
            p = subprocess.run(cmd, env=e, cwd=cwd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = -999
        if out:
            return rc, ""
        f.seek(0)
        return rc, f.read()


def tlc(module, cfg, work, env=None, args=(), workers=NCPU, heap="8g", timeout=3000, out=None):
    os.makedirs(work, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(1, workers // 2), "-Xmx" + heap, "-Xss64m"]
    if workers > 1 or heap != "8g":
        cmd.append("-XX:TieredStopAtLevel=1") if "tiered" not in args else None
    args = [a for a in args if a != "tiered"]
    cmd += ["-Djava.io.tmpdir=" + work, "-cp", JARS, "tlc2.TLC", "-metadir", os.path.join(work, "m"), "-workers", str(workers),
            "-noGenerateSpecTE", *args, "-config", cfg, module]
    return sh(cmd, env=env, cwd=SPEC, timeout=timeout, out=out)


# ---------------------------------------------------------------- building

def goenv():
    e = {"GOFLAGS": "-mod=mod", "GOPROXY": "off", "GOTOOLCHAIN": "local", "GOWORK": "off", "GO111MODULE": "on", "GOSUMDB": "off", "CGO_ENABLED": "1"}
    if "HOME" not in os.environ:
        e["HOME"] = "/root"
    for d in ("/opt/veriftools/go1.27.3/bin",):
        if os.path.isdir(d):
            e["PATH"] = d + ":" + os.environ.get("PATH", "/usr/bin:/bin")
    return e


def build(work):
    h = os.path.join(work, "h")
    shutil.copytree(os.path.join(ROOT, "harness"), h)
    if REPO != "/repo":
        p = os.path.join(h, "go.mod")
        s = open(p).read().replace("=> /repo", "=> " + REPO)
        open(p, "w").write(s)
    ov = os.path.join(work, "ov")
    os.makedirs(ov)
    rc, o = sh(["go", "run", "-trimpath", "./cmd/instr", REPO, ov], env=goenv(), cwd=h)
    if rc:
        raise Broken("instr: " + o[-3000:])
    m = re.search(r"(\d+) files, (\d+) yield", o)
    rc, o = sh(["go", "test", "-c", "-trimpath", "-vet=off", "-overlay", os.path.join(ov, "overlay.json"), "-o", os.path.join(work, "drv.test"), "./drv"], env=goenv(), cwd=h)
    if rc:
        raise Broken("build: " + o[-3000:])
    return {"files": int(m.group(1)), "scheduling_points": int(m.group(2))}


def build_race(work, fb):
    """the same driver with the race detector"""
    fb.result()
    rc, o = sh(["go", "test", "-c", "-race", "-trimpath", "-vet=off", "-overlay", os.path.join(work, "ov", "overlay.json"), "-o", os.path.join(work, "drvr.test"), "./drv"], env=goenv(), cwd=os.path.join(work, "h"))
    if rc:
        raise Broken("race build: " + o[-3000:])


# ---------------------------------------------------------------- scenarios

def kind_of(fam):
    """generator, driver test and trace specification of a family"""
    if fam in CODEC:
        return "CodecEnv", "TestCodec", "CodecTrace"
    if fam in EXIT:
        return "ExitEnv", "TestExit", "ExitTrace"
    if fam.startswith("x"):
        return "EnvX", "TestServer", "TcpxTrace"
    return "Env", "TestServer", "TcpxTrace"


def generate(work, fam, count, seed, base, tier="quick"):
    """scenarios of a family: drawn by TLC's simulator, or a complete enumeration"""
    gen = kind_of(fam)[0]
    out = os.path.join(work, "gen-%s-%d.nd" % (fam, base))
    rc, o = tlc(gen + ".tla", gen + ".cfg", os.path.join(work, "tg-%s-%d" % (fam, base)), workers=1, heap="2g",
                env={"FAM": fam, "COUNT": str(count), "BASE": str(base), "OUT": out, "TIER": tier},
                args=["-simulate", "num=1", "-depth", "100000000", "-seed", str(seed)])
    if not os.path.exists(out):
        raise Broken("generator %s: %s" % (fam, o[-3000:]))
    return open(out).read().splitlines()


# ---------------------------------------------------------------- driver

def marker(path):
    last = None
    if os.path.exists(path):
        with open(path) as f:
            for l in f:
                if l.startswith("#"):
                    last = l[1:]
    return json.loads(last) if last else None


def drive(work, name, lines, test="TestServer", solo=False, race=False):
    """runs the driver over the scenario lines; returns trace lines. A scenario that kills the process yields a trace
    with a crash (or hang) event, once running it alone has confirmed that."""
    drv = os.path.join(work, "drvr.test" if race else "drv.test")
    traces = []
    rest = list(lines)
    part = 0
    while rest:
        fi, fo, fl = (os.path.join(work, "%s.%d.%s" % (name, part, x)) for x in ("in", "out", "log"))
        part += 1
        open(fi, "w").write("\n".join(rest) + "\n")
        env = {"DRV_IN": fi, "DRV_OUT": fo, "GOMAXPROCS": "1", "DRV_HANG": "120" if solo else "60", "GOTRACEBACK": "all"}
        if race:    # no asynchronous preemption: the scheduling hook must not synchronise
            env.update({"GODEBUG": "asyncpreemptoff=1", "GORACE": "exitcode=0 atexit_sleep_ms=0"})
        rc, _ = sh([drv, "-test.run", test + "$", "-test.timeout", "0"], env=env, cwd=work, out=fl, timeout=1500)
        done = [l for l in open(fo).read().splitlines() if l.startswith("{")] if os.path.exists(fo) else []
        if race and any('"e":"race"' in l for l in done):
            txt = re.findall(r"WARNING: DATA RACE\n(.*?)\n=====", open(fl, errors="replace").read(), re.S)
            for i, l in enumerate(done):
                if '"e":"race"' in l and txt:
                    j = json.loads(l)
                    for e in j["ev"]:
                        if e["e"] == "race":
                            e["msg"] = "\n".join(txt[:e["n"]])[:3000]
                            txt = txt[e["n"]:] or txt[-1:]
                    done[i] = json.dumps(j)
        traces += done
        os.remove(fi)
        if (rc == 0 or race and rc == 1) and len(done) == len(rest):
            os.remove(fl)
            if os.path.exists(fo):
                os.remove(fo)
            return traces
        txt = open(fl, errors="replace").read()
        if "harness:" in txt or "bad scenario" in txt:
            raise Broken("driver: " + txt[-3000:])
        k = len(done)
        if k >= len(rest):
            raise Broken("driver exit %d after the last scenario: %s" % (rc, txt[-2000:]))
        mk = marker(fo)
        scn = json.loads(rest[k])
        if mk is None or mk["id"] != scn["id"]:
            raise Broken("driver exit %d before scenario %s: %s" % (rc, scn["id"], txt[-2000:]))
        kind = "hang" if rc in (7, -999) else "crash"
        if solo:
            msg = "\n".join(l for l in txt.splitlines() if not re.match(r"^20\d\d/|accept ", l))[:1500]
            return [json.dumps({"scn": mk, "ev": [{"e": kind, "t": 0, "msg": msg}]})]
        confirmed = None
        for _ in range(2):
            r = drive(work, name + ".solo%d" % part, [rest[k]], test, solo=True, race=race)
            e = json.loads(r[0])["ev"]
            if e and e[-1]["e"] in ("crash", "hang"):
                confirmed = r[0]
                break
        if confirmed is None:   # only in the company of the scenarios before it: keep the observation
            if kind == "hang":
                traces.append(r[0])
            else:
                msg = txt[:1500]
                traces.append(json.dumps({"scn": mk, "ev": [{"e": kind, "t": 0, "msg": msg}]}))
        else:
            traces.append(confirmed)
        rest = rest[k + 1:]
    return traces


# ---------------------------------------------------------------- validation

def validate(work, name, module, files):
    """TLC checks every trace of the file against the specification."""
    n = sum(1 for _ in open(files))
    lg = os.path.join(work, "val-%s.log" % name)
    rc, _ = tlc(module + ".tla", module + ".cfg", os.path.join(work, "tv-" + name), env={"TRACES": files}, out=lg)
    txt = open(lg, errors="replace").read()
    viol = []
    for m in re.finditer(r'^"@VIOL (.*)"$', txt, re.M):
        viol.append(json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\")))
    chk = len(set(re.findall(r'^"@CHECKED (.*)"$', txt, re.M)))
    if rc != 0 or chk != n:
        i = txt.find("Error")
        raise Broken("trace validation %s: rc=%s checked %d of %d: %s" % (name, rc, chk, n, txt[i:i + 3000] if i >= 0 else txt[-2000:]))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    st = [int(x.replace(",", "")) for x in m.groups()] if m else [0, 0]
    os.remove(lg)
    return viol, chk, st


def model_check(work, name, tier):
    """the step-level model of the server on a set of small scenarios: all interleavings"""
    stride, what = MC[name][:2]
    mod = MC[name][2] if len(MC[name]) > 2 else "ServerMC"
    lg = os.path.join(work, "mc-%s.log" % name)
    rc, _ = tlc(mod + ".tla", mod + ".cfg", os.path.join(work, "mc-" + name), out=lg, workers=2 if tier == "quick" else 4, args=["tiered"], heap="3g" if tier == "quick" else "8g",
                env={"MCSET": name, "BUG": "", "TIER": tier, "MCSTRIDE": str(stride if tier == "quick" else 1)})
    txt = open(lg, errors="replace").read()
    if rc != 0 or "No error has been found" not in txt:
        i = txt.find("Error")
        raise Broken("design model %s: %s" % (name, txt[i:i + 3000] if i >= 0 else txt[-2000:]))
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct", txt)
    d = re.search(r"depth of the complete state graph search is (\d+)", txt)
    n = re.search(r"initial states: (\d+)", txt)
    return {"model": mod + " " + name, "what": what, "scenarios": int(n.group(1)) if n else 0, "states": int(m.group(2).replace(",", "")), "transitions": int(m.group(1).replace(",", "")), "depth": int(d.group(1)) if d else 0}


# ---------------------------------------------------------------- main

def summarise(tr):
    s = tr["scn"]
    return {"family": s.get("fam"), "id": s.get("id"), "events": len(tr["ev"]),
            "steps": [st["op"] + (str(st["c"]) if st.get("c") else "") for st in s.get("steps", [])][:20] if isinstance(s.get("steps"), list) else s.get("steps"),
            "first_events": [{k: v for k, v in e.items() if k != "msg"} for e in tr["ev"][:6]]}


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    plan = PLAN[prop]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    work = tempfile.mkdtemp(prefix="vchk-")
    viols, cov, kinds = [], {}, {}
    counts = {"scenarios": 0, "validated": 0, "states": 0, "transitions": 0}
    seen = set()
    samples = []
    nontrivial = 0
    mcs = []
    saved = {}
    try:
        with ThreadPoolExecutor(max_workers=NCPU) as ex:
            fb = ex.submit(build, work)
            fams = [f for f, _, _ in plan.get("rnd", [])] + plan.get("exh", [])
            rb = None
            if replay and any(json.loads(l).get("race") for l in open(replay)) or not replay and any(kind_of(f)[1] == "TestServer" for f in fams):
                rb = ex.submit(build_race, work, fb)
            mcf = [] if replay else [ex.submit(model_check, work, n, tier) for n in plan.get("mc", []) if tier != "quick" or MC[n][0]]
            batches = []     # (name, driver test, trace module, future or lines)
            if replay:
                for l in open(replay):
                    r = json.loads(l)
                    batches.append((r["fam"], r.get("test", "TestServer"), r.get("module", "TcpxTrace"), [json.dumps(r)]))
                    batches[-1][3].append(True) if r.get("race") else None
            else:
                for i, (fam, q, th) in enumerate(plan.get("rnd", [])):
                    n = int((q if tier == "quick" else th) * scale)
                    chunk = 2500
                    for b in range(0, n, chunk):
                        batches.append((fam, *kind_of(fam)[1:], ex.submit(generate, work, fam, min(chunk, n - b), seed + 7919 * (b // chunk), b)))
                for name in plan.get("exh", []):
                    batches.append((name, *kind_of(name)[1:], ex.submit(generate, work, name, 1, seed, 0, tier)))
            binfo = fb.result()
            parts, raced, complete = [], [], []
            for fam, test, module, src in batches:
                lines = src if isinstance(src, list) else src.result()
                onlyrace = lines and lines[-1] is True
                if onlyrace:
                    lines = lines[:-1]
                if not lines:
                    raise Broken("no scenarios for " + fam)
                if fam in plan.get("exh", []):
                    complete.append(fam)
                if onlyrace:
                    raced.append((fam, test, module, lines, True))
                    continue
                for b in range(0, len(lines), 4000):
                    parts.append((fam, test, module, lines[b:b + 4000], False))
                if rb and test == "TestServer" and not replay and not fam.startswith("x"):
                    y = [l for l in lines if '"y":0' not in l]
                    raced.append((fam, test, module, y[:(100 if tier == "quick" else 1000)], True))
            for fam, test, module, lines, race in parts + raced:
                if not lines:
                    continue
                if race:
                    rb.result()
                sh_ = [lines[i::NCPU] for i in range(NCPU) if lines[i::NCPU]]
                outs = list(ex.map(lambda a: drive(work, "%s-%d-%d" % (fam, id(lines) % 9973 + 10000 * race, a[0]), a[1], test, race=race), enumerate(sh_)))
                trs = [t for o in outs for t in o]
                del outs
                byid = {}
                f = os.path.join(work, "tr.nd")
                with open(f, "w") as fh:
                    for t in trs:
                        fh.write(t + "\n")
                v, chk, st = validate(work, fam, module, f)
                counts["validated"] += chk
                counts["transitions"] += st[0]
                counts["states"] += st[1]
                counts["scenarios"] += len(lines)
                c = cov.setdefault(fam + (" (race detector)" if race else ""), {"scenarios": 0, "events": 0})
                c["scenarios"] += chk
                for t in trs:
                    tr = json.loads(t)
                    byid[tr["scn"]["id"]] = tr
                    c["events"] += len(tr["ev"])
                    for e in tr["ev"]:
                        k = e["e"] + (":" + e["a"] if e["e"] in ("a", "b") else "")
                        kinds[k] = kinds.get(k, 0) + 1
                    h = hash(json.dumps([{k: x for k, x in e.items() if k != "t"} for e in tr["ev"]], sort_keys=True))
                    if h not in seen:
                        seen.add(h)
                        if any(e["e"] in ("in", "rx", "sclose", "reg", "pack", "acc", "read", "help", "exit") for e in tr["ev"]):
                            nontrivial += 1
                if trs and len(samples) < 3:
                    samples.append(summarise(json.loads(trs[len(trs) // 2])))
                for x in v:
                    x["mine"] = prop in x["tags"] or "ALL" in x["tags"]
                    key = (x["fam"], x["id"], race)
                    if x["mine"] and len(saved) < 20 and key not in saved:
                        saved[key] = dict(byid[x["id"]]["scn"], test=test, module=module)
                        if race:
                            saved[key]["race"] = True
                        saved[key]["why"] = x["why"]
                        saved[key]["trace"] = byid[x["id"]]["ev"][: x["ix"] + 1][-400:]
                    viols.append(x)
                os.remove(f)
                if tier == "quick" and sum(x["mine"] for x in viols) > 50:
                    break
            mcs = [m.result() for m in mcf]
    except Broken as e:
        log("CHECK-BROKEN property=%s: %s" % (prop, e))
        shutil.rmtree(work, ignore_errors=True)
        return 2
    shutil.rmtree(work, ignore_errors=True)
    mine = [x for x in viols if x["mine"]]
    for m in mcs:
        counts["states"] += m["states"]
        counts["transitions"] += m["transitions"]
    wall = time.time() - t0
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {"states": counts["states"], "transitions": counts["transitions"],
                       "traces_validated_against_impl": counts["validated"], "evaluations": counts["scenarios"],
                       "distinct_nontrivial": nontrivial,
                       "rule": "scenarios are behaviours of spec/Env.tla and spec/CodecEnv.tla (TLC simulator, VERIF_SEED), and the complete enumerations listed; "
                               "distinct: different recorded event sequence; non-trivial: the real code dispatched, answered, closed, registered or encoded something",
                       "families": cov, "complete_enumerations": complete, "design_models": mcs, "events_by_kind": dict(sorted(kinds.items())),
                       "instrumentation": binfo, "samples": samples},
          "assumptions": ASSUME, "wall_s": round(wall, 1), "violations": len(mine)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    if not replay:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    log("%s %s: %d scenarios replayed and validated (%s), %d design models, %.0f s" % (
        prop, tier, counts["validated"], ", ".join("%s %d" % (k, c["scenarios"]) for k, c in cov.items()), len(mcs), wall))
    agg = {}
    for x in viols:
        k = (x["mine"], x["ev"], x["why"], ",".join(sorted(x["tags"])))
        agg[k] = agg.get(k, 0) + 1
    for (own, evn, why, tags), n in sorted(agg.items(), key=lambda a: (-a[0][0], -a[1]))[:30]:
        log(("  broken: " if own else "  note (other properties): ") + "%dx at %s: %s [%s]" % (n, evn, why, tags))
    if mine:
        rp = replay
        if not replay:
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            rp = os.path.join(ROOT, "replays", "%s-%s.ndjson" % (prop, tier))
            with open(rp, "w") as f:
                for s in saved.values():
                    f.write(json.dumps(s) + "\n")
        log("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
