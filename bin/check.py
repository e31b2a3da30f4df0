#!/usr/bin/env python3
"""Decides one property: check.py <ID> [quick|thorough].

A property is decided by a list of stages.
  mc     TLC explores the specification exhaustively within the bounds of a config.
  trace  the harness, built from /repo's working tree, drives the real code and writes one record per
         case; TLC then judges every record against the specification.
Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(HERE, "bin"))
from properties import CHECKS  # noqa: E402


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.work = os.path.join(HERE, ".work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0,
                    "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "model_runs": [],
                    "trace_runs": []}
        self.rules = []
        self.violations = []   # (text, record)
        self.known_hits = []
        self.known = load_known(pid)


def load_known(pid):
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) case=(\S+) fault=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                res.append((re.compile(m.group(2) + r"$"), m.group(3), m.group(4)))
    return res


def env(ctx=None):
    e = dict(os.environ)
    out = subprocess.run(["bash", "-c", ". %s/bin/env.sh; env -0" % HERE], stdout=subprocess.PIPE)
    for kv in out.stdout.decode(errors="replace").split("\0"):
        if "=" in kv:
            k, v = kv.split("=", 1)
            e[k] = v
    e.pop("TRAVIS_RUST_VERSION", None)
    if ctx:
        e["VERIF_SEED"] = str(ctx.seed)
        e["VERIF_TIER"] = ctx.tier
    return e


def build(crate):
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path",
                        os.path.join(HERE, "harness", "Cargo.toml"), "-p", crate],
                       env=env(), cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=1500)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        raise ToolError("the harness does not build")
    return os.path.join(HERE, ".build", "debug", crate)


def tlc(ctx, module, cfg, workers, name, trace=None, heap="3g", timeout=1500, extra=()):
    meta = os.path.join(ctx.work, "tlc-" + name)
    os.makedirs(meta, exist_ok=True)
    e = dict(os.environ)
    if trace:
        e["TRACE"] = trace
    cmd = ["java", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s %s" % (module, cfg))
    out = r.stdout.decode(errors="replace")
    open(os.path.join(ctx.work, name + ".tlc.txt"), "w").write(out)
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, out


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found, ([\d,]+) states left")


def counts(out):
    m = None
    for m in STATES.finditer(out):
        pass
    return tuple(int(x.replace(",", "")) for x in m.groups()) if m else (0, 0, 0)


def run_mc(ctx, st):
    cfg = st["cfg"][0] if ctx.tier == "quick" else st["cfg"][1]
    t = time.time()
    rc, out = tlc(ctx, st["module"], cfg, 8, "mc-" + cfg.replace(".cfg", ""), heap="12g",
                  timeout=600 if ctx.tier == "quick" else 7200)
    gen, dist, left = counts(out)
    if rc != 0 or "No error has been found" not in out:
        sys.stdout.write(out[-3000:])
        raise ToolError("the model %s/%s does not check" % (st["module"], cfg))
    if dist < st.get("min_states", 2):
        raise ToolError("the model %s/%s is vacuous (%d states)" % (st["module"], cfg, dist))
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["model_runs"].append({"module": st["module"], "config": cfg, "states": dist, "generated": gen,
                                  "exhausted": left == 0, "wall_s": round(time.time() - t, 1)})


def harness(ctx, crate, cmd, timeout):
    """Runs a harness command; returns (outdir, None) or (outdir, crash description)."""
    exe = build(crate)
    out = os.path.join(ctx.work, cmd)
    os.makedirs(out, exist_ok=True)
    log = open(os.path.join(out, "log.txt"), "wb")
    try:
        r = subprocess.run([exe, cmd, out], env=env(ctx), cwd=out, stdout=log, stderr=log, timeout=timeout)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = 78
    log.close()
    if rc == 0:
        return out, None
    cur = os.path.join(out, "current.json")
    rec = None
    if os.path.exists(cur):
        try:
            rec = json.load(open(cur))
        except ValueError:
            rec = {"id": "?"}
    tail = open(os.path.join(out, "log.txt"), errors="replace").read()[-1500:]
    if rc in (64, 101) and rec is None:
        raise ToolError("harness %s failed (%d):\n%s" % (cmd, rc, tail))
    if rc == 78:
        raise ToolError("harness %s ran out of its %d s" % (cmd, timeout))
    why = {77: "the code under test made no progress (hang)"}.get(rc, "the code under test ended the process (status %d)" % rc)
    return out, (why, rec, tail)


REJ = re.compile(r'^<<\s*"REJECT",\s*(\d+),\s*"([^"]*)",(.*)>>\s*$', re.S | re.M)
REACH = re.compile(r'<<"REACHED", (\d+), (\d+), (\d+)>>')


def tuples(out, kind="RE(JECT|ACHED)"):
    """TLC breaks long tuples over lines; join each printed tuple into one string."""
    res, cur = [], None
    for line in out.splitlines():
        if cur is None and re.match(r'^<<\s*"%s"' % kind, line):
            cur = line
        elif cur is not None:
            cur += " " + line.strip()
        if cur is not None and cur.count("<<") == cur.count(">>"):
            res.append(cur)
            cur = None
    return res


def judge(ctx, st, lines, k, chunk):
    """Runs TLC over one chunk of the trace; chunk is a list of (line number, text)."""
    f = os.path.join(ctx.work, "chunk-%s-%d.ndjson" % (st["name"], k))
    with open(f, "w") as h:
        h.writelines(t for _, t in chunk)
    rc, out = tlc(ctx, st["module"], st["cfg"], 1, "trace-%s-%d" % (st["name"], k), trace=f,
                  heap=st.get("heap", "3g"), timeout=700 if ctx.tier == "quick" else 7200,
                  extra=st.get("extra", ()))
    rejects, reached = [], None
    for t in tuples(out):
        m = REJ.match(t)
        if m:
            rejects.append((chunk[int(m.group(1)) - 1], m.group(2), m.group(3).strip()))
        m = REACH.search(t)
        if m:
            reached = tuple(int(x) for x in m.groups())
    gen, dist, _ = counts(out)
    if reached is None:
        if "Finished computing initial states" in out and "Error:" in out and "OutOfMemory" not in out:
            # the record has a shape the specification has no meaning for
            i = out.index("Error:")
            last = [t for t in re.findall(r"/\\ l = (\d+)", out)]
            pos = max((int(x) for x in last), default=1)
            pos = min(pos, len(chunk))
            rejects.append((chunk[pos - 1], json.loads(chunk[pos - 1][1]).get("id", "?"),
                            "cannot be evaluated: " + out[i:i + 600]))
            reached = (pos, len(chunk), 1)
        else:
            sys.stdout.write(out[-3000:])
            raise ToolError("TLC failed on the trace (%s %s)" % (st["module"], st["cfg"]))
    elif reached[0] != len(chunk) and not rejects:
        sys.stdout.write(out[-3000:])
        raise ToolError("TLC stopped at line %d of %d without a verdict" % (reached[0], len(chunk)))
    return rejects, reached, dist, gen


def programs(ctx, st):
    """Has TLC enumerate the behaviours of a generating specification; each is printed once, at its end."""
    module, quick, thorough = st["gen"]
    cfg = quick if ctx.tier == "quick" else thorough
    t = time.time()
    rc, txt = tlc(ctx, module, cfg, 1, "gen-" + cfg.replace(".cfg", ""), heap="6g")
    gen, dist, left = counts(txt)
    progs = sorted({re.sub(r'^<<\s*"PROG",', "", p)[:-2].strip().replace("<<", "[").replace(">>", "]") for p in tuples(txt, "PROG")})
    if rc != 0 or "No error has been found" not in txt or len(progs) < st.get("min_programs", 100):
        sys.stdout.write(txt[-3000:])
        raise ToolError("the specification %s/%s does not generate (%d behaviours)" % (module, cfg, len(progs)))
    out = os.path.join(ctx.work, st["cmd"])
    os.makedirs(out, exist_ok=True)
    with open(os.path.join(out, "programs.ndjson"), "w") as h:
        h.writelines("[%s]\n" % p for p in progs)
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["model_runs"].append({"module": module, "config": cfg, "states": dist, "generated": gen, "exhausted": left == 0,
                                  "behaviours": len(progs), "wall_s": round(time.time() - t, 1)})


def run_trace(ctx, st):
    t = time.time()
    if "gen" in st:
        programs(ctx, st)
    out, crash = harness(ctx, st.get("crate", "gvh"), st["cmd"], 800 if ctx.tier == "quick" else 7200)
    if crash:
        why, rec, tail = crash
        ident = (rec or {}).get("id", "?")
        add_violation(ctx, ident, "crash", why + "\n" + tail, rec)
        return
    path = os.path.join(out, st.get("file", "trace") + ".ndjson")
    lines = open(path).readlines()
    if not lines:
        raise ToolError("empty trace")
    P = min(8, max(1, len(lines) // st.get("per", 40)))
    chunks = [[(i, lines[i]) for i in range(k, len(lines), P)] for k in range(P)]
    nrej = 0
    with cf.ThreadPoolExecutor(P) as ex:
        for (rejects, reached, dist, gen) in ex.map(lambda kc: judge(ctx, st, lines, *kc), enumerate(chunks)):
            ctx.cov["states"] += dist
            ctx.cov["transitions"] += gen
            ctx.cov["traces_validated_against_impl"] += reached[0]
            for (no, text), ident, what in rejects:
                nrej += 1
                add_violation(ctx, ident, what, "line %d of %s rejected by %s: %s" % (no + 1, path, st["module"], what),
                              json.loads(text))
    nt = st.get("nontrivial", lambda r: True)
    key = st.get("key", lambda r: json.dumps({k: v for k, v in r.items() if k != "id"}, sort_keys=True))
    seen, dup = set(), 0
    sample = None
    for s in lines:
        r = json.loads(s)
        if nt(r):
            seen.add(hash(key(r)))
            if sample is None or (len(s) < 3000 and len(s) > len(sample)):
                sample = s
    if sample:
        ctx.cov["samples"].append({"stage": st["name"], "record": sample.strip()[:3000]})
    if len(seen) < st.get("min_nontrivial", 1):
        if nrej == 0:
            raise ToolError("the trace of %s is vacuous: %d non-trivial records" % (st["name"], len(seen)))
    ctx.cov["evaluations"] += len(lines)
    ctx.cov["distinct_nontrivial"] += len(seen)
    ctx.rules.append("%s: %s" % (st["name"], st.get("rule", "every record")))
    ctx.cov["trace_runs"].append({"stage": st["name"], "harness": st["cmd"], "module": st["module"],
                                  "records": len(lines), "nontrivial": len(seen), "rejected": nrej,
                                  "wall_s": round(time.time() - t, 1)})


def add_violation(ctx, ident, fault, text, rec):
    for rx, f, desc in ctx.known:
        if rx.match(ident) and (f == "*" or f in fault):
            ctx.known_hits.append(desc)
            return
    ctx.violations.append((ident, fault, text, rec))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    spec = CHECKS[pid]
    ctx = Ctx(pid, tier)
    try:
        # the code first: a violation there does not need the model runs
        for st in sorted(spec["stages"], key=lambda s: s["kind"] != "trace"):
            if st["kind"] == "trace":
                run_trace(ctx, st)
            elif not ctx.violations:
                run_mc(ctx, st)
    except ToolError as e:
        if not ctx.violations:
            print("ERROR: %s" % e)
            sys.exit(2)
    cov = ctx.cov
    cov["rule"] = "; ".join(ctx.rules)
    ev = {"property": pid, "tier": tier, "seed": ctx.seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - ctx.t0, 2),
          "violations": len(ctx.violations)}
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for d in sorted(set(ctx.known_hits)):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    if ctx.violations:
        ident, fault, text, rec = ctx.violations[0]
        rp = os.path.join(evd, pid + ".replay.json")
        json.dump({"property": pid, "seed": ctx.seed, "tier": tier, "case": ident, "fault": fault, "why": text,
                   "record": rec, "others": [v[:2] for v in ctx.violations[1:50]]}, open(rp, "w"), indent=1)
        print("%d rejected; first: case %s: %s" % (len(ctx.violations), ident, text[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    print("%s held: %d states, %d records judged, %.1f s" %
          (pid, cov["states"], cov["traces_validated_against_impl"], ev["wall_s"]))


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:  # noqa
        import traceback
        traceback.print_exc()
        print("ERROR: %r" % e)
        sys.exit(2)
