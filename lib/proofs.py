"""Runs the proof units of a property: Kani harnesses on the real crates, Verus on functions cut from the source."""
import os, re, subprocess, threading, time
import verus

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, "build")


def kani_env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    e.pop("RUSTUP_TOOLCHAIN", None)
    return e


def kani_cmd(crate, args):
    return ["cargo", "kani", "--target-dir", os.path.join(BUILD, "kani", crate)] + args


def kani_exec(crate, args, timeout):
    try:
        r = subprocess.run(["timeout", "-k", "5", str(timeout)] + kani_cmd(crate, args), cwd=os.path.join(ROOT, "kani", crate), env=kani_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return r.returncode, r.stdout
    except OSError as e:
        return 127, str(e)


SOFT = re.compile(r"unwinding assertion|recursion unwinding|not currently supported|is unsupported|unsupported construct", re.I)


def harness_functions(crate):
    """`// contract: <function>` lines above a harness name the functions it puts under contract."""
    out, cur = {}, []
    for l in open(os.path.join(ROOT, "kani", crate, "src", "lib.rs")):
        m = re.search(r"//\s*contract:\s*(.*)", l)
        if m:
            cur += [x.strip() for x in m.group(1).split(",")]
        m = re.search(r"\bfn (\w+)\(\)", l) or re.search(r"harness!\((\w+)", l)
        if m and cur:
            out[m.group(1)] = cur
            cur = []
    return out


def run_kani(crate, harnesses, src, tier, jobs=4):
    import check
    t0 = time.time()
    units = []
    with check.Lock("kani_" + crate):
        target = os.path.join(BUILD, "kani", crate)
        check.forget_stale(target, "stamp", src)
        args = ["-j", str(jobs), "--output-format", "terse", "--harness-timeout", "300s" if tier == "quick" else "1500s", "-Z", "unstable-options"]
        for h in harnesses:
            args += ["--harness", "proofs::" + h]
        args += ["--exact"]
        rc, out = kani_exec(crate, args, 700 if tier == "quick" else 5000)
        os.makedirs(target, exist_ok=True)
        with open(os.path.join(target, "stamp"), "w") as f:
            f.write(src)
        funcs = harness_functions(crate)
        # split by thread
        cur, text = {}, {}
        thread = None
        for l in out.splitlines():
            m = re.match(r"(?:Thread (\d+): )?Checking harness proofs::(\w+)\.\.\.", l)
            if m:
                thread = m.group(1)
                cur[thread] = m.group(2)
                text[m.group(2)] = ""
                continue
            m = re.match(r"Thread (\d+):\s*$", l)
            if m:
                thread = m.group(1)
                continue
            if thread in cur:
                text[cur[thread]] += l + "\n"
        for h in harnesses:
            t = text.get(h)
            u = {"name": "kani:%s::%s" % (crate, h), "backend": "kani", "functions": funcs.get(h, []), "obligations": 0, "discharged": 0,
                 "cmd": "cargo kani (in kani/%s)" % crate, "seconds": round(time.time() - t0, 1), "detail": t if t is not None else out[-6000:], "status": "undecided"}
            units.append(u)
            if t is None or "VERIFICATION:-" not in t:
                u["note"] = "the verifier gave no result (build error or time limit)"
                continue
            m = re.search(r"\*\* (\d+) of (\d+) failed", t)
            if m:
                u["obligations"] = int(m.group(2))
                u["discharged"] = int(m.group(2)) - int(m.group(1))
            m = re.search(r"Verification Time: ([\d.]+)s", t)
            if m:
                u["solver_s"] = round(float(m.group(1)), 2)
                u["seconds"] = u["solver_s"]
            m = re.search(r"\*\* (\d+) of (\d+) cover properties satisfied", t)
            covered = (not m) or m.group(1) == m.group(2)
            if "VERIFICATION:- SUCCESSFUL" in t:
                if not covered or u["obligations"] == 0:
                    u["note"] = "the end of the harness is not reachable"
                    u["discharged"] = 0
                else:
                    u["status"] = "proved"
                continue
            fails = re.findall(r"Failed Checks: (.*)", t)
            u["failed"] = fails
            hard = [f for f in fails if not SOFT.search(f)]
            if not hard:
                u["note"] = "outside the bound or the language subset: " + "; ".join(sorted(set(fails)))[:200] if fails else "the verifier ended without a result"
                continue
            u["status"] = "failed"
            u["note"] = "; ".join(hard)[:300]
            rc, o2 = kani_exec(crate, ["--harness", "proofs::" + h, "--exact", "-Z", "concrete-playback", "--concrete-playback=print", "--harness-timeout", "300s", "-Z", "unstable-options"], 330)
            u["detail"] += "\n" + o2[-8000:]
            u["cex"] = []
            for m in re.finditer(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", o2, re.S):
                vals = re.findall(r"^\s*vec!\[([\d, ]*)\]", m.group(1), re.M)
                u["cex"].append({"harness": h, "bytes": "/".join(",".join(v.replace(" ", "").split(",")) for v in vals) or "-"})
    return units


def run(specs, src, tier):
    units, ths, lock = [], [], threading.Lock()

    def add(f, *a):
        def go():
            try:
                r = f(*a)
            except Exception as e:
                import traceback
                r = [{"name": "%s:%s" % (f.__name__, a[0]), "backend": "none", "status": "undecided", "obligations": 0, "discharged": 0, "seconds": 0, "cmd": "", "detail": traceback.format_exc(), "note": "could not run: %s" % e}]
            with lock:
                units.extend(r)
        t = threading.Thread(target=go)
        t.start()
        ths.append(t)
    kani = {}
    for s in specs:
        if s[0] == "kani":
            kani.setdefault(s[1], []).extend(s[2])
        else:
            add(verus.run_unit, s[1], tier, *s[2:])
    for c, hs in kani.items():
        add(run_kani, c, hs, src, tier)
    for t in ths:
        t.join()
    return sorted(units, key=lambda u: u["name"])


def warm(src):
    import check
    d = os.path.join(ROOT, "kani")
    for c in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if os.path.exists(os.path.join(d, c, "Cargo.toml")):
            with check.Lock("kani_" + c):
                target = os.path.join(BUILD, "kani", c)
                check.forget_stale(target, "stamp", src)
                kani_exec(c, ["--only-codegen"], 900)
                os.makedirs(target, exist_ok=True)
                with open(os.path.join(target, "stamp"), "w") as f:
                    f.write(src)
