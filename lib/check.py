#!/usr/bin/env python3
"""Decides one property: proofs over /repo's current source, and a bounded search on the compiled code.

usage: check.py <ID> | check.py --setup
exit 0: held; exit 1: VIOLATION line; exit 2: the check itself could not run.
"""
import fcntl, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import props
import proofs

BUILD = os.path.join(ROOT, "build")
REPO = "/repo"
NATIVE = os.path.join(BUILD, "native", "release", "native")


def sh_env():
    """The environment of the repository's own toolchain."""
    e = dict(os.environ)
    e.update(PATH="/usr/local/bin:/root/.cargo/bin:" + e.get("PATH", ""), CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUSTUP_TOOLCHAIN="nightly-2022-05-20-x86_64-unknown-linux-gnu")
    return e


def source_hash():
    h = hashlib.sha256()
    for base, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock")):
                p = os.path.join(base, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, name + ".lock")

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def forget_stale(target, stamp, src):
    """Cargo goes by modification times; drop what it knows of the repository's crates when the content differs."""
    p = os.path.join(target, stamp)
    old = open(p).read() if os.path.exists(p) else ""
    if old == src:
        return
    for base, dirs, _ in os.walk(target):
        if os.path.basename(base) == ".fingerprint":
            for d in dirs:
                if d.startswith("dochy"):
                    shutil.rmtree(os.path.join(base, d), ignore_errors=True)
            dirs[:] = []
    os.makedirs(target, exist_ok=True)


def build_native(src):
    with Lock("native"):
        if not os.path.isdir(os.path.join(BUILD, "vendor")):
            subprocess.run([sys.executable, os.path.join(ROOT, "lib", "vendor.py"), "/opt/vp/ws/vendor", os.path.join(BUILD, "vendor")], check=True)
        target = os.path.join(BUILD, "native")
        forget_stale(target, "stamp", src)
        r = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(ROOT, "native"), env=sh_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise RuntimeError("the search harness does not build:\n" + r.stdout[-6000:])
        with open(os.path.join(target, "stamp"), "w") as f:
            f.write(src)


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgrp()


def run_limited(cmd, timeout):
    """(exit code or None when it timed out, stdout, stderr)"""
    e = dict(os.environ, RUST_BACKTRACE="0")
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits, env=e)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, er = p.communicate()
        return None, o, er


class Search:
    """The bounded search of one property on the compiled code."""

    def __init__(self, prop, seed, ms, threads):
        self.prop, self.seed, self.ms, self.threads = prop, seed, ms, threads
        self.result, self.failure = None, None

    def cmd(self, extra, scratch):
        return [NATIVE, self.prop, "--seed", str(self.seed), "--scratch", scratch] + extra

    def run(self):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > (2 << 30) else None
        scratch = tempfile.mkdtemp(prefix="dochy_search_", dir=base)
        try:
            rc, out, err = run_limited(self.cmd(["--ms", str(self.ms), "--threads", str(self.threads)], scratch), self.ms / 1000 + 90)
            line = [l for l in out.split("\n") if l.startswith("{")]
            if rc in (0, 1) and line:
                self.result = json.loads(line[-1])
                f = self.result.pop("failure")
                if f:
                    self.failure = dict(f, kind="failing input")
                return
            # the process was ended: find the running case that does it
            why = "did not finish" if rc is None else "ended with status %s" % rc
            marks = []
            for t in range(self.threads):
                try:
                    m = open(os.path.join(scratch, "mark%d" % t)).read().strip()
                    marks.append(int(m))
                except (OSError, ValueError):
                    pass
            self.result = {"evaluations": max(marks or [0]), "distinct_nontrivial": 0, "rule": "the search process " + why, "samples": []}
            sizes = [8, 20, 45, 100]
            for i in marks:
                size = sizes[i % 4]
                rc2, out2, err2 = run_limited(self.cmd(["--case", "%d:%d" % (i, size)], scratch), 45)
                if rc2 == 0:
                    continue
                what = "does not terminate within 45 s" if rc2 is None else ("is reported: " + out2.strip()[-300:] if rc2 == 1 else "ends the process with status %s: %s" % (rc2, err2.strip()[-500:]))
                self.failure = {"index": i, "size": size, "error": "case %s" % what, "log": out2[-20000:], "kind": "abort or hang"}
                return
            raise RuntimeError("the search process %s and no case repeats it: %s" % (why, err[-1500:]))
        finally:
            shutil.rmtree(scratch, ignore_errors=True)


def write_json(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "w") as f:
        json.dump(data, f, indent=1, ensure_ascii=True)
    os.replace(path + ".tmp", path)


def known_findings(prop):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    t0 = time.time()
    if sys.argv[1] == "--setup":
        src = source_hash()
        build_native(src)
        proofs.warm(src)
        return 0
    prop = sys.argv[1]
    cfg = props.PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    src = source_hash()
    ev_path = os.path.join(ROOT, "evidence", prop + ".json")
    replay = os.path.join(ROOT, "evidence", "replay", prop + ".json")
    for p in (ev_path, replay):
        if os.path.exists(p):
            os.remove(p)
    ms = cfg["ms"] if tier == "quick" else cfg.get("thorough_ms", 600_000)

    build_native(src)
    search = Search(prop, seed, ms, 5)
    errs = []

    def go():
        try:
            search.run()
        except Exception as e:
            errs.append(e)
    th = threading.Thread(target=go)
    th.start()
    units = proofs.run(cfg.get("proofs", []), src, tier)
    th.join()
    if errs:
        raise errs[0]

    violation = None
    suffix = ""
    if search.failure:
        f = search.failure
        violation = {"property": prop, "kind": f["kind"], "what_fails": f["error"], "input": f["log"],
                     "replay_cmd": "build/native/release/native %s --seed %d --scratch $(mktemp -d) --case %d:%d" % (prop, search.seed, f["index"], f["size"])}
    failed = [u for u in units if u["status"] == "failed"]
    if failed and not violation:
        # the verifier's counterexample on the compiled code
        for u in failed:
            for cex in u.get("cex", []):
                rc, out, err = run_limited([NATIVE, "--replay", cex["harness"], cex["bytes"]], 60)
                if rc not in (0, 2):
                    violation = {"property": prop, "kind": "verifier counterexample replayed on the compiled code", "obligation": u["name"],
                                 "what_fails": (out + err).strip()[-2000:] or "no answer", "input": cex,
                                 "replay_cmd": "build/native/release/native --replay %s %s" % (cex["harness"], cex["bytes"])}
                    break
            if violation:
                break
    if failed and not violation:
        # a longer search with other seeds before giving up on an input
        for s in (seed + 1000, seed + 2000):
            more = Search(prop, s, 45_000, 8)
            more.run()
            if more.failure:
                f = more.failure
                violation = {"property": prop, "kind": f["kind"], "what_fails": f["error"], "input": f["log"],
                             "replay_cmd": "build/native/release/native %s --seed %d --scratch $(mktemp -d) --case %d:%d" % (prop, s, f["index"], f["size"])}
                break
        if not violation:
            suffix = " no-failing-input-found"
            violation = {"property": prop, "kind": "failed obligation", "what_fails": [u["name"] for u in failed], "input": None}
    if violation and failed:
        violation["failed_obligations"] = [{"unit": u["name"], "backend": u["backend"], "obligations": u.get("failed", []), "verifier_output": u["detail"][-12000:]} for u in failed]

    # known findings have probes of their own, so that they never hide a failure of the search
    known_hit = []
    for probe in cfg.get("probes", []):
        scratch = tempfile.mkdtemp(prefix="dochy_probe_")
        try:
            rc, out, err = run_limited([NATIVE, probe, "--seed", "1", "--scratch", scratch, "--case", "0:8"], 60)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        known_hit += [what for sig, what in known_findings(prop) if rc == 1 and sig in out]

    proved = [u for u in units if u["status"] == "proved"]
    level = cfg["level"] if (cfg["level"] != "proof" or (units and len(proved) == len(units))) else "exploration"
    nat = search.result or {}
    cov = {
        "obligations": sum(u["obligations"] for u in units), "discharged": sum(u["discharged"] for u in units),
        "checker_cmd": "; ".join(sorted({u["cmd"] for u in units})) or "none",
        "trusted_base": sorted({a for u in units for a in u.get("assumptions", [])} | ({"Kani 0.68 / CBMC 6.11", } if any(u["backend"] == "kani" for u in units) else set())
                               | ({"Verus 0.2026.09.13 / Z3", "lib/extract.py (text of the functions is cut from the source and joined with contracts)"} if any(u["backend"] == "verus" for u in units) else set())),
        "functions_under_contract": sorted({f for u in units for f in u.get("functions", [])}),
        "units": [{k: u[k] for k in ("name", "backend", "status", "obligations", "discharged", "seconds", "solver_s", "note") if k in u} for u in units],
        "bounded_stand_in": cfg.get("bounded", "executable contracts evaluated on the compiled code over generated inputs"),
        "evaluations": nat.get("evaluations", 0), "distinct_nontrivial": nat.get("distinct_nontrivial", 0), "rule": nat.get("rule", ""), "samples": nat.get("samples", []),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": sorted(set(cfg.get("assumptions", [])) | {"undecided on this source: %s (%s)" % (u["name"], u.get("note", "")) for u in units if u["status"] == "undecided"}),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    if violation:
        write_json(replay, violation)
    write_json(ev_path, ev)
    for u in units:
        print("%-9s %s [%s] %d/%d obligations, %.1f s%s" % (u["status"], u["name"], u["backend"], u["discharged"], u["obligations"], u["seconds"], " - " + u["note"] if u.get("note") else ""))
    print("search: %s cases (%s distinct) in %.1f s" % (nat.get("evaluations"), nat.get("distinct_nontrivial"), nat.get("wall_s", 0)))
    for what in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if violation:
        print("what fails: %s" % (violation["what_fails"],))
        print("VIOLATION property=%s replay=%s%s" % (prop, os.path.relpath(replay, ROOT), suffix))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception as e:
        import traceback
        traceback.print_exc()
        sys.exit(2)
