#!/opt/venv/bin/python
"""run.py ID [--replay FILE] [--sub NAME] [--thorough]: decide one property."""
import argparse, importlib, json, os, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
# freed and fresh memory is filled with patterns, so that native code that reads it or writes beyond a block fails at once (too
# slow for the checks with large inputs)
ENV = {"PYTHONHASHSEED": "0"}
if any(i[:3] in ("C01", "C02", "C03", "C04", "C05", "C06", "G12", "U01", "U03") for i in sys.argv[1:]):
    ENV.update(PYTHONMALLOC="debug", MALLOC_PERTURB_="165")
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                e = json.loads(line[len("known: "):])
                if e["property"] == pid:
                    out.append(e)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--setup", action="store_true", help="only build the code under test")
    ap.add_argument("--replay")
    ap.add_argument("--sub")
    ap.add_argument("--n", type=int)
    ap.add_argument("--fuzz", type=int, default=90, help="seconds of coverage-guided fuzzing per sub (thorough)")
    ap.add_argument("--noshrink", action="store_true")
    a = ap.parse_args()
    t0 = time.monotonic()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    from harness import build, core
    try:
        root = build.prepare()
    except build.BuildError as e:
        print("ERROR: cannot build the code under test: %s" % e)
        return 2
    if a.setup:
        print("built in %s" % root)
        return 0
    os.chdir(root)
    sys.path.insert(0, root)
    import pydatastructs
    assert os.path.realpath(pydatastructs.__file__).startswith(os.path.realpath(root)), pydatastructs.__file__
    from harness import checks
    mod = checks.module_of(a.id)
    importlib.import_module("harness.checks." + mod)
    P = core.PROPS[a.id]
    subs = {s.name: s for s in P.subs}
    if a.n is not None:
        for s in P.subs:
            s.quick = s.thorough = a.n

    if a.replay:
        d = json.load(open(a.replay if os.path.isabs(a.replay) else os.path.join(HERE, a.replay)))
        if d.get("stream"):
            msg = replay_stream(core, subs[d["sub"]], d)
        else:
            msg = core.isolated(subs[d["sub"]], d["case"])
        if msg is None:
            print("replay passes")
            return 0
        print(msg)
        print("VIOLATION property=%s replay=%s" % (a.id, a.replay))
        return 1

    budget = 420 if tier == "quick" else 3 * 3600
    known_hit = []
    for e in known(a.id):
        msg = core.isolated(subs[e["sub"]], e["case"])
        if msg is not None:
            print("KNOWN-FINDING: property=%s %s" % (a.id, e["what"]))
            known_hit.append(e["what"])
    done = core.run_jobs(P, seed, tier, budget, only=a.sub)
    errors = [j.out["error"] for j in done if j.out["error"]]
    fails = [j for j in done if j.out["fail"]]
    cov = []
    if tier == "thorough" and not fails and a.fuzz:
        cov = fuzz_stage(core, root, P, a, seed)
        fails = [j for j in cov if j.out["fail"]]
        done += cov
    rc = 0
    viol = 0
    if fails:
        j = fails[0]
        case, msg, cnt = j.out["fail"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join("replays", "%s-%s.json" % (a.id, j.sub.name))
        rec = {"property": a.id, "sub": j.sub.name}
        m2 = core.isolated(j.sub, case) if case is not None else None
        if m2 is not None:
            if not a.noshrink:
                case, msg = core.shrink(j.sub, case, m2)
            else:
                msg = m2
            rec.update(case=case, message=msg)
        else:
            rec.update(stream=True, shard=j.shard, nshards=j.nshards, seed=seed, tier=tier, upto=cnt,
                       n=j.sub.quick if tier == "quick" else j.sub.thorough, hyp=j.sub.hyp, case=case, message=msg)
            m3 = replay_stream(core, j.sub, rec)
            if m3 is None:
                print("ERROR: a failure of %s does not reproduce: %s" % (j.sub.name, msg))
                return 2
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(rec, f, indent=1)
        viol = 1
        print("sub=%s case=%s" % (j.sub.name, core.dumps(case)[:3000]))
        print(msg)
        rc = 1
    evals = sum(j.out["evals"] for j in done)
    nt, labels, engines, samples = 0, {}, {}, []
    for s in P.subs:
        js = [j for j in done if j.sub is s]
        u = set()
        for j in js:
            u |= j.out["nt"]
            for k, v in j.out["labels"].items():
                labels["%s:%s" % (s.name, k)] = labels.get("%s:%s" % (s.name, k), 0) + v
            for k, v in j.out["engines"].items():
                engines["%s:%s" % (s.name, k)] = engines.get("%s:%s" % (s.name, k), 0) + v
        nt += len(u)
        for j in js[:1]:
            samples += [{"sub": s.name, "case": c} for c in j.out["samples"][:1]]
    ev = {"property": a.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": nt,
                       "rule": (P.rule + " " + " ".join("[%s] %s" % (s.name, s.rule) for s in P.subs if s.rule)).strip(),
                       "samples": samples, "cases_per_engine": engines, "label_distribution": dict(sorted(labels.items())),
                       "truncated_subs": sorted({j.sub.name for j in done if j.out["truncated"]}),
                       "known_findings_seen": known_hit, "code_under_test": os.path.basename(root)},
          "assumptions": P.assumptions, "wall_s": round(time.monotonic() - t0, 2), "violations": viol}
    if a.sub is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %.1f s" % (a.id, evals, nt, time.monotonic() - t0))
    if rc:
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if errors:
        print("ERROR: " + errors[0])
        return 2
    return 0


def fuzz_stage(core, root, P, a, seed):
    """Coverage-guided fuzzing of every sub, eight at a time; -> finished jobs."""
    import shutil, struct, subprocess, tempfile
    try:
        import atheris  # noqa: F401
    except ImportError:
        return []
    tmp = tempfile.mkdtemp()
    todo = [s for s in P.subs if not a.sub or s.name == a.sub]
    copies = max(1, 8 // len(todo))
    todo = [(s, i) for s in todo for i in range(copies)]
    live, jobs = [], []
    try:
        while todo or live:
            while todo and len(live) < 8:
                s, i = todo.pop(0)
                out = os.path.join(tmp, "%s-%d" % (s.name, i))
                p = subprocess.Popen([sys.executable, os.path.join(HERE, "harness", "covfuzz.py"), root, P.pid, s.name,
                                      str(a.fuzz), str(seed * 100 + i), out], cwd=root, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, env=dict(os.environ, TMPDIR=tmp))
                live.append((s, i, out, p, time.monotonic()))
            time.sleep(0.3)
            for t in list(live):
                s, i, out, p, t0 = t
                if p.poll() is None:
                    if time.monotonic() - t0 < a.fuzz + 150:
                        continue
                    core._kill(p.pid)
                    p.wait()
                live.remove(t)
                j = core.Job(s, i, copies)
                j.out = core._empty()
                st = json.load(open(out)) if os.path.exists(out) else {"evals": 0, "fail": None}
                j.out["evals"] = st["evals"]
                j.out["engines"]["coverage-guided"] = st["evals"]
                if st["fail"]:
                    j.out["fail"] = (st["fail"][0], st["fail"][1], 0)
                elif p.returncode not in (0, 77):
                    b = open(out + ".cur", "rb").read() if os.path.exists(out + ".cur") else b"\0" * 8
                    n = struct.unpack("<Q", b[:8])[0]
                    if n:
                        case = json.loads(b[8:8 + n])
                        msg = core.isolated(s, case)
                        if msg is not None:
                            j.out["fail"] = (case, msg, 0)
                        else:
                            j.out["labels"]["fuzzer-exit-%s-not-reproduced" % p.returncode] += 1
                jobs.append(j)
                if j.out["fail"]:
                    todo = []
    finally:
        for t in live:
            core._kill(t[3].pid)
        shutil.rmtree(tmp, ignore_errors=True)
    return jobs


def replay_stream(core, sub, d):
    """Re-run a shard's deterministic stream of cases up to the failing one, in one process."""
    sub.quick = sub.thorough = d["n"]
    j = core.Job(sub, d["shard"], d["nshards"])
    P = core.Property(d["property"], [sub])
    k = sub.shards
    out = None
    j.start(d["seed"], d["n"], d["hyp"] if d["tier"] == "quick" else d["hyp"] * 10, time.monotonic() + 600)
    buf = b""
    t0 = time.monotonic()
    while True:
        import select
        rl, _, _ = select.select([j.r], [], [], 1)
        if rl:
            c = os.read(j.r, 65536)
            if not c:
                break
            j.buf += c
        elif time.monotonic() - t0 > 400:
            core._kill(j.pid)
            return "does not terminate"
    _, st = os.waitpid(j.pid, 0)
    core._finish(j, st)
    return j.out["fail"][1] if j.out["fail"] else None


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
