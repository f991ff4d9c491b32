#!/usr/bin/env python3
"""Runs the check of one property: builds the harness from /repo's current
tree, runs its shards, merges what they report into evidence/<id>.json.

  check.py C01                      the check (tier from VERIF_TIER, seed from VERIF_SEED)
  check.py C01 --replay FILE        replays one failing case
  check.py --setup                  builds everything once (warms the build cache)

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: no verdict (does not build, environment problem)."""
import array, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
GO = "/opt/veriftools/go1.27.3/bin"

# group -> harness package, extra binaries
CODEC = ["C%02d" % i for i in range(1, 10)] + ["C28", "C29", "C33"]
SERVER = ["C%02d" % i for i in range(10, 20)] + ["C31"]
APP = ["C%02d" % i for i in range(20, 28)] + ["C30", "C32"]
GROUPS = {"codec": CODEC, "server": SERVER, "app": APP}
SHARDS = {}
# the time zone each shard and the programs it starts run in
ZONES = ["UTC", "Asia/Kamchatka", "America/New_York", "Europe/Moscow", "Asia/Kolkata", "Pacific/Apia", "America/St_Johns", "Etc/GMT+12"]


def group(pid):
    for g, l in GROUPS.items():
        if pid in l:
            return g
    sys.exit("unknown property " + pid)


def env():
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/bin:/bin")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="", GOSUMDB="off", GOWORK="off", GONOSUMDB="*", CGO_ENABLED="1")
    e.setdefault("HOME", "/root")
    return e


class Build:
    """Builds from the current tree into a scratch directory."""

    def __init__(self, scratch):
        self.scratch = scratch
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        with open(os.path.join(scratch, "go.mod"), "w") as f:
            f.write(mod)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), os.path.join(scratch, "go.sum"))

    def run(self, args, cwd):
        p = subprocess.run(args, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            print("build failed: %s\n%s" % (" ".join(args), p.stdout[-4000:]))
            sys.exit(2)

    def harness(self, pkg, name, race=False):
        out = os.path.join(self.scratch, name)
        self.run(["go", "build", "-mod=mod", "-modfile=" + os.path.join(self.scratch, "go.mod")]
                 + (["-race"] if race else []) + ["-o", out, pkg], os.path.join(VERIF, "harness"))
        return out

    def repo(self, pkg, name, race=False):
        out = os.path.join(self.scratch, name)
        self.run(["go", "build", "-mod=readonly"] + (["-race"] if race else []) + ["-o", out, pkg], REPO)
        return out

    def script(self):
        """The replay tool, and a pause of 1 ms instead of 1 s for it."""
        try:
            shutil.copy(os.path.join(REPO, "tools", "send_egts.py"), self.scratch)
        except OSError as e:
            print("no tools/send_egts.py: %s" % e)
            sys.exit(2)
        os.mkdir(os.path.join(self.scratch, "py"))
        with open(os.path.join(self.scratch, "py", "sitecustomize.py"), "w") as f:
            f.write("import time\n_sleep = time.sleep\ntime.sleep = lambda s: _sleep(min(s, 0.001))\n")

    def for_group(self, g, pid=None):
        main = self.harness("./props/" + g, g, race=(pid == "C28"))
        if g == "server":
            self.harness("./cmd/srvhost", "srvhost", race=(pid == "C15"))
        if g == "app":
            if pid in (None, "C23", "C26", "C27"):
                self.repo("./cli/receiver", "receiver")
            if pid in (None, "C24"):
                self.repo("./cli/packet-gen", "packet-gen")
            if pid == "C30":
                self.script()
        return main


def findings(pid):
    out = {}
    with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    if sys.argv[1:] == ["--setup"]:
        d = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            b = Build(d)
            for g in GROUPS:
                if os.path.isdir(os.path.join(VERIF, "harness", "props", g)):
                    b.for_group(g)
        finally:
            shutil.rmtree(d)
        return 0
    pid = sys.argv[1]
    g = group(pid)
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        if "--replay" in sys.argv:
            return replay(pid, g, scratch, sys.argv[sys.argv.index("--replay") + 1])
        return check(pid, g, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def base_args(binary, pid, scratch):
    return [binary, "-prop", pid, "-known", ",".join(findings(pid)), "-bin", scratch]


def run_proc(args, timeout, out, zone="UTC"):
    """Runs in a process group of its own; returns the exit code or None."""
    with open(out, "wb") as f:
        p = subprocess.Popen(args, stdout=f, stderr=subprocess.STDOUT, start_new_session=True, cwd=os.path.dirname(out), env=dict(os.environ, TZ=zone, TMPDIR=os.path.dirname(out), GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0"))
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf8", "replace")
    except OSError:
        return ""


def replay(pid, g, scratch, path):
    binary = Build(scratch).for_group(g, pid)
    out = os.path.join(scratch, "replay.out")
    rc = run_proc(base_args(binary, pid, scratch) + ["-replay", os.path.abspath(path)], 600, out)
    sys.stdout.write(tail(out, 20000))
    if rc in (0, 2):
        return rc
    print("VIOLATION property=%s replay=%s" % (pid, os.path.abspath(path)))
    return 1


def check(pid, g, scratch):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    shards = SHARDS.get(pid, 8)
    limit = 780 if tier == "quick" else 6 * 3600
    binary = Build(scratch).for_group(g, pid)
    built = time.time() - t0
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    rcs = [None] * shards

    def args(i, extra=()):
        return base_args(binary, pid, scratch) + ["-tier", tier, "-seed", str(seed & 0xFFFFFFFFFFFF), "-shard", str(i), "-shards", str(shards),
                                                  "-replays", replays, "-out", os.path.join(scratch, "rep%d.json" % i)] + list(extra)

    def one(i):
        rcs[i] = run_proc(args(i), limit - built, os.path.join(scratch, "out%d.txt" % i), ZONES[i % len(ZONES)])

    ts = [threading.Thread(target=one, args=(i,)) for i in range(shards)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()

    reps = []
    for i in range(shards):
        try:
            with open(os.path.join(scratch, "rep%d.json" % i)) as f:
                reps.append(json.load(f))
        except (OSError, ValueError):
            reps.append(None)

    violation, problem = None, None
    for i, rc in enumerate(rcs):
        r = reps[i] or {}
        if rc == 0:
            continue
        if rc == 1 and r.get("failure"):
            violation = violation or (r["failure"]["sub"] + ": " + r["failure"]["message"], r["failure"]["replay"])
        elif rc == 4 and r.get("failure"):
            # a case that does not end: believed when it happens again
            out = os.path.join(scratch, "confirm%d.txt" % i)
            rc2 = run_proc(base_args(binary, pid, scratch) + ["-replay", r["failure"]["replay"]], 300, out)
            if rc2 in (1, 4):
                violation = violation or (r["failure"]["sub"] + ": " + r["failure"]["message"], r["failure"]["replay"])
            else:
                problem = "shard %d: %s, not confirmed (%s)" % (i, r["failure"]["message"], rc2)
        elif rc in (2, None):
            problem = problem or "shard %d: %s %s" % (i, r.get("error") or "no result", "" if rc == 2 else "(time limit)") + tail(os.path.join(scratch, "out%d.txt" % i), 1000)
        else:
            # the process died (stack overflow, fatal error): find the case
            j = os.path.join(replays, "%s-crash-%d.json" % (pid, i))
            run_proc(args(i, ["-journal", j]), limit, os.path.join(scratch, "journal%d.txt" % i), ZONES[i % len(ZONES)])
            out = os.path.join(scratch, "confirm%d.txt" % i)
            rc2 = run_proc(base_args(binary, pid, scratch) + ["-replay", j], 300, out) if os.path.exists(j) else 2
            if rc2 not in (0, 2):
                violation = violation or ("the process dies: " + tail(os.path.join(scratch, "out%d.txt" % i), 1500), j)
            else:
                problem = problem or "shard %d died with %s, not reproducible: %s" % (i, rc, tail(os.path.join(scratch, "out%d.txt" % i), 1500))

    # merge
    subs, known, rule = {}, {}, ""
    for i, r in enumerate(reps):
        if not r:
            continue
        rule = r.get("rule") or rule
        for k, n in (r.get("known") or {}).items():
            known[k] = known.get(k, 0) + n
        for s in r.get("subs") or []:
            d = subs.setdefault(s["name"], {"evaluations": 0, "nontrivial": 0, "distinct": set(), "classes": {}, "samples": [], "cut_short": False, "unconfirmed_timeouts": 0, "notes": []})
            d["evaluations"] += s["evaluations"]
            d["nontrivial"] += s["nontrivial"]
            d["cut_short"] |= s["cut_short"]
            d["unconfirmed_timeouts"] += s["unconfirmed_timeouts"]
            d["notes"] += (s.get("unconfirmed_timeout_notes") or [])
            for k, n in (s["classes"] or {}).items():
                d["classes"][k] = d["classes"].get(k, 0) + n
            d["samples"] += [x for x in (s["samples"] or [])][:2]
            h = array.array("Q")
            try:
                with open(os.path.join(scratch, "rep%d.json.%s.hash" % (i, s["name"])), "rb") as f:
                    h.frombytes(f.read())
            except OSError:
                pass
            d["distinct"].update(h)
    samples = []
    for n, d in subs.items():
        for x in sorted(d["samples"], key=len)[-3:]:
            try:
                samples.append({"sub": n, "case": json.loads(x)})
            except ValueError:
                samples.append({"sub": n, "case": x})
    cov = {
        "evaluations": sum(d["evaluations"] for d in subs.values()),
        "distinct_nontrivial": sum(len(d["distinct"]) for d in subs.values()),
        "rule": rule,
        "samples": samples,
        "sub_checks": {n: {"evaluations": d["evaluations"], "nontrivial": d["nontrivial"], "distinct_nontrivial": len(d["distinct"]),
                           "classes": dict(sorted(d["classes"].items())), "cut_short_by_time": d["cut_short"],
                           "unconfirmed_timeouts": d["unconfirmed_timeouts"], "unconfirmed_timeout_notes": d["notes"][:5]} for n, d in subs.items()},
        "known_findings_hit": known,
        "shards": shards,
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % pid)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))

    listed = findings(pid)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed.get(k, k)))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (pid, tier, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], built))
    if violation:
        print(violation[0][:3000])
        print("VIOLATION property=%s replay=%s" % (pid, violation[1]))
        return 1
    if problem:
        print("no verdict: " + problem)
        return 2
    if cov["distinct_nontrivial"] < 2:
        print("no verdict: nothing was explored")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
