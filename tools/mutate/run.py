#!/usr/bin/env python3
"""run.py OUT FILE:K ...   for each mutant: which families notice it (development aid).
Scenario sets are generated once into /tmp/mc (stage1: small, stage2: larger)."""
import json, os, sys, random, shutil, subprocess, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..", "run"))
import check
check.NCPU = 2
SRV = "route stream reg chain mal max pipe scope life hb hb0 auth pool reply sendto stop dl udp raw iso bigrep".split()
XS = "xreg xchain xstream xmax xmal xroute xpool xsend xstop xhb xauth xdl xlife xpipe".split()
COD = "cpack cbytes cread chelp cmix".split()
XC = "xpack xlen xcut xhelp".split()
B = "/tmp/mc"


def gen():
    w = tempfile.mkdtemp()
    rnd = random.Random(5)
    s = {1: {"TestServer": [], "TestCodec": []}, 2: {"TestServer": [], "TestCodec": []}}
    n = 0
    for fams, t, c1, c2 in ((SRV, "TestServer", 40, 350), (COD, "TestCodec", 40, 200), (XS, "TestServer", 50, 500), (XC, "TestCodec", 40, 150), (["crowd", "many"], "TestServer", 2, 20)):
        for f in fams:
            l = check.generate(w, f, 1 if f[0] == "x" else c2, 77, 0)
            if f[0] == "x":
                rnd.shuffle(l)
                l = l[:c2]
            out = []
            for x in l:
                j = json.loads(x)
                n += 1
                j["id"] = n
                out.append(json.dumps(j))
            s[1][t] += out[:c1]
            s[2][t] += out[c1:]
    for st in s:
        for t in s[st]:
            rnd.shuffle(s[st][t])
            open("%s/%d-%s.nd" % (B, st, t), "w").write("\n".join(s[st][t]) + "\n")
            print(st, t, len(s[st][t]))


def one(file, k):
    w = tempfile.mkdtemp(prefix="mut-")
    try:
        repo = w + "/repo"
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "examples"))
        src = subprocess.run(["/tmp/mutate", "apply", "/repo/" + file, str(k)], capture_output=True, text=True).stdout
        open(repo + "/" + file, "w").write(src)
        check.REPO = repo
        try:
            check.build(w)
        except check.Broken:
            return "nocompile", ""
        for st in (1, 2):
            for t, mod in (("TestServer", "TcpxTrace"), ("TestCodec", "CodecTrace")):
                lines = open("%s/%d-%s.nd" % (B, st, t)).read().splitlines()
                for b in range(0, len(lines), 1500):
                    part = lines[b:b + 1500]
                    fi, fo, fl = (w + "/x." + e for e in ("in", "out", "log"))
                    open(fi, "w").write("\n".join(part) + "\n")
                    if os.path.exists(fo):
                        os.remove(fo)
                    rc, _ = check.sh([w + "/drv.test", "-test.run", t + "$", "-test.timeout", "0"], env={"DRV_IN": fi, "DRV_OUT": fo, "GOMAXPROCS": "1", "DRV_HANG": "60"}, cwd=w, out=fl, timeout=600)
                    done = [l for l in open(fo).read().splitlines() if l.startswith("{")] if os.path.exists(fo) else []
                    if rc != 0:
                        return "killed%d" % st, "crash rc=%s" % rc
                    open(w + "/tr", "w").write("\n".join(done) + "\n")
                    v, _, _ = check.validate(w, "v", mod, w + "/tr")
                    if v:
                        tags = sorted({x for y in v for x in y["tags"]})
                        return "killed%d" % st, "%d %s" % (len(v), v[0]["why"]) + " " + ",".join(tags)
        return "SURVIVED", ""
    except Exception as e:
        return "error", str(e)[:300]
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "gen":
        gen()
        sys.exit()
    out = sys.argv[1]
    for m in sys.argv[2:]:
        f, k = m.split(":")
        t = time.time()
        r = one(f, int(k))
        with open(out, "a") as fh:
            fh.write("%s\t%s\t%s\t%s\t%.0f\n" % (f, k, r[0], r[1], time.time() - t))
