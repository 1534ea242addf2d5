#!/usr/bin/env python3
"""Driver of one check: builds the harness against /repo's working tree, runs every worker of the
exhaustive enumeration in both build profiles, and reports the verdict.

  run.py <ID> quick|thorough        decide the property
  run.py --replay <file>            run a recorded violating case again

Exit 0: held on everything explored. Exit 1: VIOLATION line. Anything else: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, struct, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
TARGET = os.environ.get("MC_TARGET", os.path.join(HERE, "target"))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")
SHARDS = 8
MC = {"C09", "C10"}
# Built with the "rand" feature of numeric-ints
RAND = {"C27"}
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
ENV.pop("RUSTFLAGS", None)
ENV.pop("CARGO_ENCODED_RUSTFLAGS", None)


def fail(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def profiles(prop):
    return ["release"] if prop in MC else ["dev", "release"]


def build(prop, prof):
    crate = "mcharness" if prop in MC else "randharness" if prop in RAND else "harness"
    target = TARGET + ("-mc" if prop in MC else "-rand" if prop in RAND else "")
    env = dict(ENV, CARGO_TARGET_DIR=target)
    if prop in MC:
        env["RUSTFLAGS"] = "--cfg numeric_mc"
    name = prop.lower()
    cmd = ["cargo", "build", "--offline", "--locked", "--quiet", "--bin", name]
    if prof == "release":
        cmd.append("--release")
    cwd = os.path.join(HERE, crate)
    def cargo(extra):
        run = lambda c: subprocess.run(c, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        p = run(cmd + extra)
        if p.returncode != 0 and "--locked" in p.stdout:
            # Dependencies between the crates of /repo have changed
            lock = os.path.join(cwd, "Cargo.lock")
            with open(lock, "rb") as f:
                old = f.read()
            p = run([c for c in cmd if c != "--locked"] + extra)
            with open(lock, "wb") as f:
                f.write(old)
        return p
    if prop in MC:
        # The block list is private: without it, if its interface is not what it was
        p = cargo(["--features", "linked"])
        if p.returncode != 0:
            p = cargo([])
    else:
        p = cargo([])
    if p.returncode != 0:
        return None, p.stdout[-6000:]
    return os.path.join(target, "debug" if prof == "dev" else "release", name), ""


def known_cases(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) case=(.*)$", line.rstrip("\n"))
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


class Worker:
    """One worker process over one shard"""

    def __init__(self, exe, prof, tier, shard, scratch, known, only=None, timeout=None):
        self.exe, self.prof, self.tier, self.shard = exe, prof, tier, shard
        self.scratch, self.known, self.only, self.timeout = scratch, known, only, timeout
        self.sections, self.samples, self.stats, self.extra = [], [], None, {}
        self.violation, self.error, self.known_hit = None, None, []

    def run(self, stop):
        if stop.is_set():
            return self
        prog = os.path.join(self.scratch, "p-%s-%d" % (self.prof, self.shard))
        with open(prog, "wb") as f:
            f.write(b"\0" * 4096)
        cmd = [self.exe, "--tier", self.tier, "--progress", prog, "--known", self.known]
        if self.only:
            cmd += ["--section", str(self.only[0]), "--index", str(self.only[1])]
        else:
            cmd += ["--shard", str(self.shard), "--shards", str(SHARDS)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                             errors="replace", env=ENV)
        self.proc = p
        killer = threading.Timer(self.timeout, p.kill) if self.timeout else None
        if killer:
            killer.start()
        errs = []
        et = threading.Thread(target=lambda: errs.append(p.stderr.read()[-2000:]))
        et.start()
        done = False
        last = None
        for line in p.stdout:
            line = line.rstrip("\n")
            if line.startswith("FAIL "):
                d = json.loads(line[5:], strict=False)
                self.violation = d
            elif line.startswith("KNOWN "):
                self.known_hit.append(line[6:])
            elif line.startswith("SECTION "):
                a, b, n = line[8:].split(" ", 2)
                self.sections.append((n, int(a), int(b)))
            elif line.startswith("SAMPLE "):
                self.samples.append(line[7:])
            elif line.startswith("STATS "):
                self.stats = [int(x) for x in line[6:].split()]
            elif line.startswith("EXTRA "):
                k, v = line[6:].split(" ", 1)
                self.extra[k] = v
            elif line in ("DONE", "FAILED"):
                done = True
            else:
                last = line
        rc = p.wait()
        et.join()
        if killer:
            killer.cancel()
        if self.violation or (done and rc == 0):
            return self
        if stop.is_set():
            return self
        sec, idx = struct.unpack("QQ", open(prog, "rb").read(16))
        desc = self.describe(sec, idx)
        case = {"section": sec, "index": idx, "section_name": "", "case": desc}
        if rc == 3 and last == "HANG":
            case["error"] = "does not terminate (more than 40 s of CPU in one case)"
            self.violation = case
        elif rc < 0 and -rc in (4, 6, 7, 8, 11):
            case["error"] = "killed by signal %d: %s" % (-rc, (errs[0] if errs else "").strip()[-300:])
            self.violation = case
        elif rc == 4 and last and last.startswith("PANIC ") and "/repo/crates/" in last:
            case["error"] = "unexpected " + last
            self.violation = case
        else:
            self.error = "worker %s/%d ended with %s: %s %s" % (
                self.prof, self.shard, rc, last, (errs[0] if errs else "")[-500:])
        return self

    def describe(self, sec, idx):
        try:
            p = subprocess.run([self.exe, "--tier", self.tier, "--section", str(sec), "--index", str(idx),
                                "--describe"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               text=True, timeout=60, env=ENV)
            for l in p.stdout.splitlines():
                if l.startswith("DESC "):
                    return l[5:]
        except Exception:
            pass
        return "?"


def write_replay(prop, tier, prof, v):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.json" % prop)
    v = dict(v, property=prop, tier=tier, profile=prof,
             how="python3 /verif/run.py --replay " + path)
    json.dump(v, open(path, "w"), indent=1)
    return path


def run_workers(prop, tier, exes, only=None, only_prof=None):
    limit = 840 if tier == "quick" else 6 * 3600
    with tempfile.TemporaryDirectory(prefix="mc-") as scratch:
        known = os.path.join(scratch, "known")
        open(known, "w").write("".join(k + "\n" for k in known_cases(prop)))
        ws = []
        for prof, exe in exes:
            if only_prof and prof != only_prof:
                continue
            for s in range(1 if only else SHARDS):
                ws.append(Worker(exe, prof, tier, s, scratch, known, only, limit))
        stop = threading.Event()
        with cf.ThreadPoolExecutor(SHARDS) as ex:
            futs = [ex.submit(w.run, stop) for w in ws]
            for f in cf.as_completed(futs):
                w = f.result()
                if w.violation and not stop.is_set():
                    stop.set()
                    for o in ws:
                        if o is not w and getattr(o, "proc", None) and o.proc.poll() is None:
                            o.proc.kill()
    return ws


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        prop, tier, prof = r["property"], r["tier"], r["profile"]
        exe, log = build(prop, prof)
        if not exe:
            fail("build failed\n" + log)
        ws = run_workers(prop, tier, [(prof, exe)], only=(r["section"], r["index"]))
        w = ws[0]
        if w.error:
            fail(w.error)
        print(json.dumps(w.violation, indent=1) if w.violation else "no violation")
        sys.exit(1 if w.violation else 0)

    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    with cf.ThreadPoolExecutor(2) as ex:
        res = list(ex.map(lambda pr: (pr, build(prop, pr)), profiles(prop)))
    exes = []
    for prof, (exe, log) in res:
        if not exe:
            fail("building the harness (%s) failed:\n%s" % (prof, log))
        exes.append((prof, exe))
    build_s = time.time() - t0
    ws = run_workers(prop, tier, exes)

    viol = [w for w in ws if w.violation]
    errs = [w for w in ws if w.error]
    secs, samples, extra = {}, [], {}
    tot = [0, 0, 0]
    for w in ws:
        for n, a, b in w.sections:
            k = secs.setdefault(n, [0, 0])
            k[0] += a
            k[1] += b
        for s in w.samples:
            s = s[:600]
            if s not in samples:
                samples.append(s)
        if w.stats:
            for i in range(3):
                tot[i] += w.stats[i]
        for k, v in w.extra.items():
            if re.fullmatch(r"-?\d+", v):
                extra[k] = extra.get(k, 0) + int(v)
            else:
                extra[k] = v
    bysec = {}
    for s in samples:
        bysec.setdefault(s.split("]")[0], []).append(s)
    samples = [v[i] for i in range(2) for v in bysec.values() if len(v) > i][:16]
    cov = {
        "states": tot[2],
        "transitions": tot[1],
        "traces_validated_against_impl": tot[0],
        "samples": samples or ["(violation before the first sample)"],
        "exhaustive": not errs and not viol,
        "build_profiles": [p for p, _ in exes],
        "sections": {n: {"cases": a, "operations_compared": b} for n, (a, b) in secs.items()},
        "build_s": round(build_s, 1),
    }
    cov.update(extra)
    if extra.get("cases_not_run_for_lack_of_time") or extra.get("scenarios_not_exhausted"):
        cov["exhaustive"] = False
    info = {}
    try:
        info = json.load(open(os.path.join(HERE, "tools", "coverage_notes.json"))).get(prop, {})
    except Exception:
        pass
    if info.get("bounds"):
        cov["bounds"] = info["bounds"]
    ev = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking", "coverage": cov,
        "assumptions": info.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    hits = []
    for w in ws:
        hits += w.known_hit
    for k in sorted(set(hits)):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        w = viol[0]
        path = write_replay(prop, tier, w.prof, w.violation)
        print("profile %s, case: %s" % (w.prof, w.violation.get("case")))
        print("error: %s" % w.violation.get("error"))
        print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        sys.exit(1)
    if errs:
        fail("; ".join(w.error for w in errs[:3]))
    if tot[1] == 0:
        fail("nothing was explored")
    print("%s held: %d states, %d operations compared, %d traces, %.1f s" % (prop, tot[2], tot[1], tot[0], time.time() - t0))


if __name__ == "__main__":
    main()
