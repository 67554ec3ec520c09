"""Runs Verus on the functions a template in verus/ names, cut from /repo's current source."""
import json, os, re, subprocess, threading, time
import extract

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(ROOT, "build", "verus")
REPO = "/repo"


def verus(path, args, timeout):
    t0 = time.time()
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    try:
        r = subprocess.run(["timeout", "-k", "5", str(timeout), "verus", "--output-json", "--time", "--no-report-long-running"] + args + [path], cwd=DIR,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=e)
    except OSError as x:
        return None, str(x), 0
    try:
        out = json.loads(r.stdout)
    except ValueError:
        out = None
    return out, r.stderr, time.time() - t0


def errors(text, path):
    """(message, [line numbers in our file]) of every error"""
    out = []
    name = os.path.basename(path)
    cur = None
    for l in text.split("\n"):
        m = re.match(r"(error|warning|note|help)(\[E\d+\])?: (.*)", l)
        if m:
            cur = None
            if m.group(1) == "error" and not m.group(3).startswith("aborting due to"):
                cur = [m.group(3), [], bool(m.group(2))]
                out.append(cur)
        elif cur is not None:
            m = re.search(r"(?:-->|:::) .*?%s:(\d+):" % re.escape(name), l)
            if m:
                cur[1].append(int(m.group(1)))
            m = re.match(r"\s*(\d+)\s+\|", l)
            if m:
                cur[1].append(int(m.group(1)))
    return out


def generate(name, canary, out):
    text, funcs, where, subs = extract.build(REPO, os.path.join(ROOT, "verus", name + ".rs"), canary)
    os.makedirs(DIR, exist_ok=True)
    with open(out, "w", encoding="utf-8") as f:
        f.write(text)
    return text, funcs, where, subs


def trusted(name):
    out = []
    for l in extract.read_template(os.path.join(ROOT, "verus", name + ".rs")):
        m = re.search(r"//\s*(TRUSTED|ASSUMED): (.*)", l)
        if m:
            out.append("%s (verus/%s.rs, %s)" % (m.group(2), name, m.group(1).lower()))
    return out


def about(fn, only):
    def named(x):
        return x == fn.split(None, 1)[1] or "/" in x and fn.startswith(x)
    if not only:
        return True
    if only[0].startswith("-"):
        return not any(named(x[1:]) for x in only)
    return any(named(x) for x in only)


def run_unit(name, tier, only=None):
    """`only`: the functions whose contracts the property is about (or, with a minus, those it isn't about), by path in the
    file or by file; a failure elsewhere leaves it undecided."""
    unit = {"name": "verus:" + name, "backend": "verus", "status": "undecided", "obligations": 0, "discharged": 0, "seconds": 0.0,
            "cmd": "verus build/verus/%s.rs (generated by lib/extract.py from /repo and verus/%s.rs)" % (name, name), "detail": "", "functions": [],
            "assumptions": trusted(name)}
    path = os.path.join(DIR, name + ".rs")
    cpath = os.path.join(DIR, name + "_canary.rs")
    t0 = time.time()
    try:
        text, funcs, where, subs = generate(name, False, path)
        ctext, _, _, _ = generate(name, True, cpath)
    except extract.Lost as e:
        unit["note"] = "the code a contract is attached to has moved: %s" % e
        return [unit]
    unit["functions"] = funcs
    unit["assumptions"] += ["renamed for the verifier: " + s for s in subs]
    res = {}

    def canary():
        res["c"] = verus(cpath, ["--multiple-errors", "30", "--num-threads", "2", "--rlimit", "20"], 400)
    th = threading.Thread(target=canary)
    th.start()
    limit = 300 if tier == "quick" else 1200
    out, err, sec = verus(path, ["--multiple-errors", "8", "--num-threads", "4"], limit)
    r = (out or {}).get("verification-results", {})
    if out and not r.get("encountered-vir-error") and r.get("errors", 0) > 0:
        # another solver seed and more room, so that an unlucky run does not count as a failure
        out2, err2, s2 = verus(path, ["--multiple-errors", "8", "--num-threads", "4", "--rlimit", "40", "--smt-option", "smt.random_seed=7"], limit)
        r2 = (out2 or {}).get("verification-results", {})
        if out2 and not r2.get("encountered-vir-error") and r2.get("errors", 1) == 0:
            out, err, r = out2, err2, r2
    th.join()
    unit["seconds"] = round(time.time() - t0, 1)
    unit["detail"] = "\n".join(l for l in err.split("\n") if not l.startswith("[rust_verify"))[-20000:]
    if not out or "verified" not in r:
        unit["note"] = "the verifier gave no result (the function now uses something outside its language, or it does not fit the contract's names)"
        first = errors(err, path)
        if first:
            unit["note"] += ": " + first[0][0][:200]
        return [unit]
    unit["obligations"] = r.get("verified", 0) + r.get("errors", 0)
    unit["discharged"] = r.get("verified", 0)
    times = out.get("times-ms", {})
    smt = times.get("smt", {})
    unit["solver_s"] = round(smt.get("total", smt.get("smt-run", 0)) / 1000, 2) if isinstance(smt, dict) else 0
    if r.get("encountered-vir-error"):
        unit["note"] = "outside the verifier's language: " + (errors(err, path) or [["?"]])[0][0][:200]
        return [unit]
    if r.get("errors", 0) == 0 and r.get("success"):
        # every place marked in the canary file must be reachable, or the contracts contradict each other
        cout, cerr, _ = res["c"]
        marks = {i + 1: re.search(r"/\*canary (.*?)\*/", l).group(1) for i, l in enumerate(ctext.split("\n")) if "/*canary " in l}
        hit = {n for m, ls, _ in errors(cerr, cpath) for n in ls[:1]}
        # an error whose place is the whole function or loop is a solver limit, not a proof of false
        soft = any("Resource limit" in m for m, _, _ in errors(cerr, cpath))
        dead = [v for k, v in marks.items() if k not in hit]
        if cout is None or (dead and not soft):
            unit["note"] = "not counted: unreachable under its own contract: " + ", ".join(dead)[:200] if cout is not None else "not counted: the vacuity check gave no result"
            unit["discharged"] = 0
            return [unit]
        unit["status"] = "proved"
        return [unit]
    hard, soft = [], []
    lines = text.split("\n")
    for msg, ls, coded in errors(err, path):
        fn = next((f for a, b, f in where for n in ls[:1] if a <= n <= b), None)
        where_text = lines[ls[0] - 1].strip()[:160] if ls else ""
        if "Resource limit" in msg or coded or fn is None or not about(fn, only):
            soft.append("%s: %s" % (fn or "lemma", msg))
        else:
            hard.append("%s: %s: %s" % (fn, msg, where_text))
    unit["failed"] = hard
    if hard:
        unit["status"] = "failed"
        unit["note"] = "; ".join(hard)[:400]
    else:
        unit["note"] = "no answer (solver's limits, or a function it relies on breaks its contract): " + "; ".join(soft)[:300]
    return [unit]
