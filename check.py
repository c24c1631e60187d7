#!/usr/bin/env python3
"""Runs the monitors of one property: check.py <ID> quick|thorough, or check.py --replay FILE.

Exit 0: the property held on everything explored; 1: a violation (with a VIOLATION line);
2: the check could not give an answer (for example because the code does not build).
"""
import array, fcntl, json, os, resource, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
EVID = os.path.join(VERIF, "evidence")
TARGET = os.path.join(VERIF, "target")
STABLE = "stable-x86_64-unknown-linux-gnu"

sys.path.insert(0, os.path.join(VERIF, "drivers"))


def env(**kw):
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = TARGET
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "INSTA_UPDATE"):
        e.pop(k, None)
    e.update(kw)
    return e


class NoAnswer(Exception):
    pass


def lock():
    os.makedirs(TARGET, exist_ok=True)
    f = open(os.path.join(TARGET, ".check-lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def run(cmd, what, timeout=900, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise NoAnswer(f"{what}: timed out")
    if p.returncode != 0:
        raise NoAnswer(f"{what} failed:\n" + p.stdout.decode(errors="replace")[-3000:])
    return p.stdout.decode(errors="replace")


def build_harness(profiles=("release", "prod")):
    """The monitors, linked against /repo's working tree: `release` has debug assertions and
    overflow checks on, `prod` is what users get."""
    l = lock()
    try:
        for p in profiles:
            run(["cargo", "build", "--offline", "--profile", p], f"building the monitors ({p})",
                cwd=os.path.join(VERIF, "harness"), env=env())
    finally:
        l.close()
    return {p: os.path.join(TARGET, p, "mcmon") for p in profiles}


# ---------------------------------------------------------------------------------------------
# Properties which are decided inside the harness: parameters of the runs.
#   secs: seconds per shard (quick, thorough); cases: upper limit for quick
DEFAULT = dict(secs=(12, 240), stack=(256, 256))
HARNESS = {p: dict(DEFAULT) for p in
           "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C22 C23 C24 C25 C26 C27 C28 C29 C30 C31 C32 C33".split()}
HARNESS["C01"] = dict(secs=(25, 300), stack=(8, 2))

RULES = {}


def limits(cpu=None, mem=8 << 30):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        os.setsid()
    return f


class Shard:
    def __init__(self, sc, prop, tier, seed, i, of, binary, build, stack, secs, work):
        self.__dict__.update(locals())
        self.start, self.skip, self.crashes, self.res = 0, [], [], []
        self.t_end = time.time() + secs
        self.n = 0
        self.launch()

    def cmd(self):
        left = max(0.5, self.t_end - time.time())
        self.out = os.path.join(self.work, f"s{self.i}.{self.n}.json")
        self.cur = os.path.join(self.work, f"s{self.i}.cur")
        self.n += 1
        return [self.binary, "run", "--prop", self.prop, "--seed", str(self.seed), "--shard", str(self.i),
                "--of", str(self.of), "--cases", "1000000000000", "--secs", f"{left:.1f}", "--start", str(self.start),
                "--cur", self.cur, "--out", self.out, "--tier", self.tier, "--stack-mb", str(self.stack)]

    def launch(self):
        c = self.cmd()
        with open(os.path.join(self.work, f"s{self.i}.log"), "ab") as log:
            self.p = subprocess.Popen(c, stdout=log, stderr=log, preexec_fn=limits(), env=env())
        self.last, self.last_t = None, time.time()

    def idx(self):
        try:
            return int(open(self.cur).read() or "-1")
        except Exception:
            return -1


def isolated(sh, idx):
    """Run a single case on its own: what happens to it?"""
    out = os.path.join(sh.work, f"s{sh.i}.iso.json")
    c = [sh.binary, "replay", "--prop", sh.prop, "--seed", str(sh.seed), "--idx", str(idx), "--tier", sh.tier,
         "--stack-mb", str(sh.stack), "--out", out]
    try:
        p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=limits(cpu=60), timeout=600, env=env())
    except subprocess.TimeoutExpired:
        return "unclear", "timed out on the wall clock"
    txt = p.stdout.decode(errors="replace")[-1500:]
    if p.returncode == 0:
        return "fine", txt
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL) and p.returncode == -signal.SIGXCPU:
        return "hang", "more than 60 s of CPU time for one case\n" + txt
    if p.returncode == -signal.SIGKILL:
        return "unclear", "killed (memory?)"
    if p.returncode < 0:
        return "crash", f"signal {signal.Signals(-p.returncode).name}\n" + txt
    return "unclear", f"exit {p.returncode}\n" + txt


def run_harness(prop, tier, seed, secs=None):
    cfg = HARNESS[prop]
    bins = build_harness()
    work = os.path.join(TARGET, "work", f"{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    n = 8
    secs = secs or cfg["secs"][tier == "thorough"]
    shards = []
    for i in range(n):
        b = "release" if i % 2 == 0 else "prod"
        shards.append(Shard(None, prop, tier, seed, i, n, bins[b], b, cfg["stack"][i % 2], secs, work))
    live = list(shards)
    crashes, notes = [], []
    try:
        while live:
            time.sleep(0.05)
            for sh in list(live):
                rc = sh.p.poll()
                now = time.time()
                if rc is None:
                    k = sh.idx()
                    if k != sh.last:
                        sh.last, sh.last_t = k, now
                        continue
                    elif now - sh.last_t > 25:
                        os.killpg(sh.p.pid, signal.SIGKILL)
                        sh.p.wait()
                        rc = "stuck"
                    else:
                        continue
                if rc == 0:
                    sh.res.append(sh.out)
                    live.remove(sh)
                    continue
                k = sh.idx()
                if rc == 3:
                    raise NoAnswer(f"the monitors do not know {prop}")
                kind, txt = isolated(sh, k)
                (crashes if kind in ("crash", "hang") else notes).append(
                    dict(kind=kind, idx=k, seed=seed, build=sh.build, stack_mb=sh.stack, first=str(rc), detail=txt))
                if len(crashes) + len(notes) > 40 or now > sh.t_end:
                    live.remove(sh)
                    continue
                # what the shard saw before is lost; go on behind the case
                sh.start = k - sh.i + sh.of if k >= 0 else sh.start + sh.of * 1000
                sh.launch()
    finally:
        for sh in live:
            try:
                os.killpg(sh.p.pid, signal.SIGKILL)
            except Exception:
                pass
    tot = dict(evaluations=0, stats={}, samples=[], violations=[], violation_count=0)
    keys = set()
    builds = {}
    for sh in shards:
        for o in sh.res:
            j = json.load(open(o))
            tot["evaluations"] += j["evaluations"]
            builds[sh.build] = builds.get(sh.build, 0) + j["evaluations"]
            for k, v in j["stats"].items():
                if k == "next_index":
                    continue
                if k.startswith(("max", "peak")):
                    tot["stats"][k] = max(tot["stats"].get(k, 0), v)
                else:
                    tot["stats"][k] = tot["stats"].get(k, 0) + v
            tot["samples"] += j["samples"][:1]
            for v in j["violations"]:
                v["build"], v["stack_mb"] = sh.build, sh.stack
                tot["violations"].append(v)
            tot["violation_count"] += j["violation_count"]
            a = array.array("Q")
            try:
                a.frombytes(open(o + ".keys", "rb").read())
                keys.update(a)
            except FileNotFoundError:
                pass
    tot["distinct"] = len(keys)
    tot["builds"] = builds
    tot["crashes"], tot["notes"] = crashes, notes
    subprocess.run(["rm", "-rf", work])
    if tot["evaluations"] == 0 and not crashes:
        raise NoAnswer("no case could be evaluated: " + json.dumps(notes)[:2000])
    if prop == "C01":
        for c in crashes:
            tot["violations"].append(dict(input=f"case {c['idx']} of seed {c['seed']} ({c['build']} build)",
                                          what="the conversion does not return: " + c["kind"], detail=c, idx=c["idx"],
                                          seed=seed, build=c["build"], stack_mb=c["stack_mb"]))
    return tot


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def finish(prop, tier, seed, tot, t0, rule, level="exploration", assumptions=None):
    """Write the evidence, print the verdict, and return the exit status."""
    os.makedirs(EVID, exist_ok=True)
    viol = []
    known = [k for k in known_findings()["findings"] if k["property"] == prop and k.get("status") == "open"]
    seen = set()
    for v in tot["violations"]:
        k = next((k for k in known if k["input"] == v["input"]), None)
        if k:
            seen.add(k["input"])
        else:
            viol.append(v)
    for k in known:
        if k["input"] in seen:
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=rule,
                            samples=tot["samples"][:6], observed=tot["stats"],
                            builds=tot.get("builds", {}), crashed_cases=tot.get("crashes", [])[:10], unclear_cases=tot.get("notes", [])[:10]),
              wall_s=round(time.time() - t0, 2),
              violations=len(viol), reported=[dict(input=v["input"][:2000], what=v["what"]) for v in viol[:10]])
    if assumptions:
        ev["assumptions"] = assumptions
    rc = 0
    if viol:
        rc = 1
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        seenw = set()
        for i, v in enumerate(viol):
            if v["what"] in seenw and len(seenw) < 3 and i > 3:
                continue
            seenw.add(v["what"])
            path = os.path.join(rd, f"{prop}-{len(seenw)}.json")
            json.dump(dict(property=prop, tier=tier, **v), open(path, "w"), indent=1, ensure_ascii=False)
            print(f"{v['what']}\n  input: {v['input'][:600]}\n  detail: {json.dumps(v['detail'], ensure_ascii=False)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
            if len(seenw) >= 3:
                break
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1, ensure_ascii=False)
    print(f"{prop} {tier}: {tot['evaluations']} evaluations, {tot['distinct']} distinct non-trivial cases, "
          f"{len(viol)} violations, {time.time()-t0:.0f} s")
    return rc


def replay(path):
    j = json.load(open(path))
    if "idx" in j and j["property"] in HARNESS:
        b = build_harness((j.get("build", "release"),))
        return subprocess.call([list(b.values())[0], "replay", "--prop", j["property"], "--seed", str(j["seed"]), "--idx",
                                str(j["idx"]), "--tier", j.get("tier", "quick"), "--stack-mb", str(j.get("stack_mb", 256))])
    import external
    return external.replay(j)


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "setup":
        build_harness()
        import external
        external.setup()
        return 0
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()}
        import rules
        if prop in HARNESS:
            tot = run_harness(prop, tier, seed, float(os.environ["MC_SECS"]) if "MC_SECS" in os.environ else None)
        else:
            import external
            tot = external.RUN[prop](tier, seed)
        return finish(prop, tier, seed, tot, t0, rules.RULES[prop], rules.LEVELS[prop], assumptions=rules.ASSUMPTIONS.get(prop))
    except NoAnswer as e:
        print(f"{prop}: no answer: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
