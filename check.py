#!/usr/bin/env python3
"""Runs the monitors of one property against /repo's working tree.

usage: check.py <property> [--replay group:case]
Exit 0: held on what was observed; 1: violated; 2: inconclusive."""
import glob, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, ".build")
PREFIX = "github.com/vulpemventures/neutrino-elements/"
HPREFIX = PREFIX + "verifharness"

# property -> list of (package, race detector, race reports count)
PKG = {
    "C01": [("codec", False)], "C02": [("codec", False)],
    "C03": [("nodex", False)], "C04": [("nodex", False)], "C05": [("nodex", False)], "C06": [("nodex", False)],
    "C07": [("nodex", False)], "C08": [("nodex", False)], "C09": [("nodex", False)], "C10": [("nodex", False)],
    "C11": [("nodex", False)], "C12": [("nodex", False)], "C13": [("nodex", True)],
    "C14": [("repox", True)], "C15": [("repox", True)], "C16": [("repox", False)],
    "C17": [("scanx", False)], "C18": [("scanx", False)], "C19": [("scanx", True)], "C20": [("scanx", False)],
    "C21": [("scanx", False)], "C22": [("scanx", False)], "C23": [("scanx", True)], "C24": [("scanx", True)],
    "C25": [("blockx", False)], "C26": [("clix", False)], "C27": [("nodex", False), ("scanx", False)], "C28": [("scanx", False)], "C29": [("nodex", False), ("scanx", False)],
}
LIMIT = {"quick": 780, "thorough": 6 * 3600}


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GONOSUMDB="*", GOFLAGS_EXTRA="")
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    return e


def build(pkg, race, out, prop):
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, pkg + (".race" if race else "") + ".test")
    cwd, target, extra = HARNESS, "./" + pkg, []
    if REPO != "/repo":
        mod = os.path.join(out, "go.mod")
        s = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
        open(mod, "w").write(s)
        shutil.copy(os.path.join(HARNESS, "go.sum"), os.path.join(out, "go.sum"))
        extra += ["-modfile", mod]
    if pkg == "clix":  # runs the client as a process
        e = env()
        e["CGO_ENABLED"] = "0"  # finds the home directory in its environment
        p = subprocess.run(["go", "build", "-o", os.path.join(out, "client")] + extra + [PREFIX + "cmd/neutrino"], cwd=cwd, env=e, capture_output=True, text=True)
        if p.returncode != 0:
            print("inconclusive: the client does not build\n" + p.stdout + p.stderr)
            sys.exit(2)
    if prop in ("C24", "C28", "C29"):  # runs the daemon as a process
        p = subprocess.run(["go", "build", "-race", "-o", os.path.join(out, "daemon")] + extra + [PREFIX + "cmd/neutrinod"], cwd=cwd, env=env(), capture_output=True, text=True)
        if p.returncode != 0:
            print("inconclusive: the daemon does not build\n" + p.stdout + p.stderr)
            sys.exit(2)
    cmd = ["go", "test", "-c", "-tags", "verif", "-o", exe] + (["-race"] if race else []) + extra + [target]
    p = subprocess.run(cmd, cwd=cwd, env=env(), capture_output=True, text=True)
    if p.returncode != 0:
        print("inconclusive: the harness does not build against the tree\n" + p.stdout + p.stderr)
        sys.exit(2)
    return exe


def func(line):
    m = re.match(r"^\s*(\S+)\(.*\)?$", line)
    if not m or not line.strip().endswith(")"):
        return None
    s = line.strip()
    return s[:s.rindex("(")]


def first_frame(stack):
    """innermost frame that is neither runtime nor a library: (where, function)"""
    for l in stack.split("\n"):
        s = l.strip()
        if s.startswith(HPREFIX):
            return "harness", s
        if s.startswith(PREFIX):
            f = s[len(PREFIX):]
            return "repo", f[:f.rindex("(")] if "(" in f else f
    return None, None


def crash(err):
    """what of the repository crashed the process, if it did"""
    m = re.search(r"^(panic: |fatal error: |SIG[A-Z]+: )(.*)$", err, re.M)
    if not m:
        return None
    msg = m.group(0)[:300]
    rest = err[m.end():]
    # the first goroutine printed is the one that crashed
    for g in re.split(r"\n\n", rest):
        if re.match(r"\s*(\[signal.*\n\s*)?goroutine ", g) or "goroutine " in g.split("\n")[0]:
            body = g
            i = body.rfind("\npanic(")
            if i >= 0:
                body = body[i + 7:]
            where, f = first_frame(body)
            return (where, f, msg, g[:3000])
    return (None, None, msg, rest[:3000])


def races(base):
    """race reports that involve the repository: {key: text}"""
    found, other = {}, 0
    for f in glob.glob(base + ".*"):
        txt = open(f, errors="replace").read()
        for rep in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", txt, re.S):
            secs = re.split(r"\n\n", rep)
            acc = [s for s in secs if re.match(r"\s*(Previous )?(atomic )?(read|write|Read|Write|Previous)", s.strip())]
            ff = [first_frame("\n".join(a.split("\n")[1:])) for a in acc[:2]]
            if any(w == "repo" for w, _ in ff):
                key = " / ".join(sorted(str(x) for _, x in ff))
                key = re.sub(r"\.func\d+(\.\d+)*", ".func", key)
                found.setdefault("race " + key, rep)
            else:
                other += 1
    return found, other


def known():
    fs = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=\"(.*?)\" (.*)", l.strip())
            if m:
                fs[(m.group(1), m.group(2))] = m.group(3)
    return fs


def main():
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        replay = sys.argv[sys.argv.index("--replay") + 1]
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    out = os.path.join(BUILD, prop if REPO == "/repo" else prop + "-" + str(os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    evdir = os.path.join(VERIF, "evidence") if REPO == "/repo" else os.path.join(out, "evidence")
    repdir = os.path.join(evdir, "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in glob.glob(os.path.join(repdir, prop + "-*")):
        os.remove(f)
    viol, errors, kn = [], [], []
    total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "counters": {}, "groups": {}, "rule": []}
    nraces = 0
    for pkg, race in PKG[prop]:
        exe = build(pkg, race, out, prop)
        for attempt in (1, 2):
            res = os.path.join(out, "%s.%d.json" % (pkg, attempt))
            rl = os.path.join(out, "race.%s.%d" % (pkg, attempt))
            e = env()
            e.update(HX_OUT=res, VERIF_SEED=str(seed), VERIF_TIER=tier, GORACE="halt_on_error=0 exitcode=0 history_size=3 log_path=" + rl,
                     GOTRACEBACK="all", HX_REPO=REPO, HX_CLIENT=os.path.join(out, "client"), HX_DAEMON=os.path.join(out, "daemon"))
            if replay:
                e["HX_CASE"] = replay
            scratch = os.path.join(out, "scratch")
            os.makedirs(scratch, exist_ok=True)
            e["TMPDIR"] = scratch
            lim = LIMIT[tier] - (time.time() - t0) if tier == "quick" else LIMIT[tier]
            args = [exe, "-test.run", "^Test%s$" % prop, "-test.timeout", "%ds" % max(60, int(lim))]
            if replay:
                args.append("-test.v")
            try:
                p = subprocess.run(args, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(70, lim + 10))
                so = p.stdout.decode(errors="replace")
            except subprocess.TimeoutExpired as x:
                so = "TIMEOUT\n" + (x.stdout or b"").decode(errors="replace")
            open(os.path.join(out, "log.%s.%d" % (pkg, attempt)), "w").write(so)
            if replay:
                print(so[-20000:])
            shutil.rmtree(scratch, ignore_errors=True)
            r = {}
            if os.path.exists(res):
                r = json.load(open(res))
            errs = list(r.get("errors") or [])
            vs = list(r.get("violations") or [])
            if not r.get("finished") and not vs:
                c = crash(so)
                if c and c[0] == "repo":
                    vs.append({"key": "crash in " + c[1], "what": c[2] + "\n" + c[3], "group": "", "case": -1, "seed": seed, "tier": tier})
                elif c:
                    errs.append("the harness crashed: %s\n%s" % (c[2], c[3]))
                elif not errs:
                    errs.append("the run did not finish\n" + so[-3000:])
            if race:
                fr, other = races(rl)
                nraces += len(fr)
                for k, v in fr.items():
                    vs.append({"key": k, "what": v, "group": "", "case": -1, "seed": seed, "tier": tier})
                if other and not fr:
                    errs.append("data race of the harness: see %s.*" % rl)
            if errs and not vs and attempt == 1 and not replay:
                print("inconclusive, once more: " + errs[0][:2000])
                continue
            break
        viol += vs
        errors += errs
        kn += r.get("known") or []
        total["evaluations"] += r.get("evaluations", 0)
        total["distinct_nontrivial"] += r.get("distinct_nontrivial", 0)
        total["samples"] += r.get("samples") or []
        for k, v in (r.get("counters") or {}).items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        total["groups"].update(r.get("groups") or {})
        total["rule"].append(r.get("rule", ""))
        total.update(r.get("extra") or {})
    fs = known()
    for k in kn:
        if (prop, k) in fs:
            print("KNOWN-FINDING: property=%s %s" % (prop, fs[(prop, k)]))
        else:
            viol.append({"key": k, "what": k, "group": "", "case": -1, "seed": seed, "tier": tier})
    new, seen = [], set()
    for v in viol:
        if (prop, v["key"]) in fs:
            if v["key"] not in seen and v["key"] not in kn:
                print("KNOWN-FINDING: property=%s %s" % (prop, fs[(prop, v["key"])]))
        else:
            new.append(v)
        seen.add(v["key"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": total.pop("evaluations"), "distinct_nontrivial": total.pop("distinct_nontrivial"),
                       "rule": " ".join(total.pop("rule")), "samples": total.pop("samples"),
                       "observed": total.pop("counters"), "cases_by_group": total.pop("groups"),
                       "race_detector": any(r for _, r in PKG[prop])},
          "assumptions": ["held on the executions counted here; nothing is said about executions that were not produced"],
          "wall_s": round(time.time() - t0, 1), "violations": len(new)}
    ev["coverage"].update(total)
    if any(r for _, r in PKG[prop]):
        ev["coverage"]["race_reports"] = nraces
    json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
    if not replay and REPO == "/repo":
        for f in glob.glob(os.path.join(out, "*.test")) + glob.glob(os.path.join(out, "client")) + glob.glob(os.path.join(out, "daemon")):
            os.remove(f)
    if new:
        for i, v in enumerate(new[:10]):
            path = os.path.join(repdir, "%s-%d.json" % (prop, i))
            v["replay_cmd"] = "VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s --replay %s:%s" % (seed, tier, prop, v.get("group"), v.get("case"))
            json.dump(v, open(path, "w"), indent=1)
            print("%s: %s" % (v["key"], v["what"][:1500]))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, VERIF)))
        sys.exit(1)
    if errors:
        for x in errors[:10]:
            print("inconclusive: " + x[:3000])
        sys.exit(2)
    c = ev["coverage"]
    print("%s held on %d evaluations, %d distinct; observed %s; %.0f s" % (prop, c["evaluations"], c["distinct_nontrivial"], json.dumps(c["observed"]), ev["wall_s"]))
    if REPO != "/repo":
        shutil.rmtree(out, ignore_errors=True)


main()
