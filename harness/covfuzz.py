"""Coverage-guided stage (thorough tier): atheris/libFuzzer mutates byte strings, which
the sub's own generator decodes into cases (BytesSource), and the sub's oracle judges
them.  The Python code under test is instrumented; native code is not.

  covfuzz.py ROOT ID SUB SECONDS SEED OUT.json
"""
import importlib, json, mmap, os, struct, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")


def main():
    root, pid, name, seconds, seed, out = sys.argv[1:7]
    import atheris
    os.chdir(root)
    sys.path.insert(0, root)
    with atheris.instrument_imports(include=["pydatastructs"]):
        import pydatastructs
    from harness import checks, core
    importlib.import_module("harness.checks." + checks.module_of(pid))
    sub = next(s for s in core.PROPS[pid].subs if s.name == name)
    core._child_setup()
    with open(out + ".cur", "wb") as f:
        f.write(b"\0" * core.SHM)
    cur = mmap.mmap(os.open(out + ".cur", os.O_RDWR), core.SHM)
    state = {"evals": 0, "nt": 0, "fail": None}

    def save():
        with open(out, "w") as f:
            json.dump(state, f)

    def one(data):
        try:
            case = sub.gen(core.BytesSource(data))
        except (RecursionError, MemoryError):
            return
        text = core.dumps(case)
        b = text.encode()
        if len(b) + 8 < core.SHM:
            cur[8:8 + len(b)] = b
            cur[0:8] = struct.pack("<Q", len(b))
        ctx, msg = core.run_case(sub, json.loads(text))
        cur[0:8] = struct.pack("<Q", 0)
        state["evals"] += 1
        state["nt"] += bool(ctx.nt)
        if msg is not None:
            state["fail"] = [case, msg]
            save()
            os._exit(77)
        if state["evals"] % 200 == 0:
            save()
    import tempfile
    d = tempfile.mkdtemp()
    atheris.Setup([sys.argv[0], d, "-max_total_time=" + seconds, "-seed=%d" % (int(seed) + 1), "-max_len=1024", "-len_control=20",
                   "-timeout=100", "-rss_limit_mb=6000", "-artifact_prefix=" + d + "/", "-detect_leaks=0",
                   "-handle_segv=0"], one)
    save()
    import atexit
    atexit.register(save)
    atheris.Fuzz()


if __name__ == "__main__":
    main()
