"""Mirror /repo/pydatastructs into a scratch root and compile its C++ extensions there.

The mirror is keyed by a hash of every source byte, so a check always sees the
current working tree; nothing is ever written to /repo.
"""
import hashlib, os, shutil, subprocess, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PDS_REPO", "/repo")
SRC = os.path.join(REPO, "pydatastructs")
BUILD = os.path.join(HERE, ".build")
FLAGS = ["-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS=1", "-std=c++17", "-O0", "-fPIC", "-shared", "-w"]



class BuildError(Exception):
    pass


def _sources():
    out = []
    for d, dirs, files in os.walk(SRC):
        dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "tests"))
        for f in sorted(files):
            if f.endswith((".py", ".cpp", ".hpp", ".h", ".build")):
                out.append(os.path.relpath(os.path.join(d, f), SRC))
    return out


def _ext_table():
    """Extensions as the repository's own meson.build files declare them."""
    import re
    table = {}
    for d, dirs, files in os.walk(SRC):
        if "meson.build" not in files:
            continue
        text = open(os.path.join(d, "meson.build")).read()
        for m in re.finditer(r"extension_module\((.*?)\n\)", text, re.S):
            body = m.group(1)
            sub = re.search(r"subdir:\s*'([^']+)'", body).group(1).split("pydatastructs/", 1)[1]
            names = re.findall(r"'([^']+)'", body.split("subdir:")[0])
            srcs = [n for n in names if n.endswith((".cpp", ".cc", ".c"))]
            rel = os.path.relpath(d, SRC)
            table[os.path.join(sub, names[0])] = [os.path.normpath(os.path.join(rel, x)) for x in srcs]
    return table


def prepare():
    files = _sources()
    h = hashlib.sha256(" ".join(FLAGS).encode())
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(SRC, f), "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    root = os.path.join(BUILD, h.hexdigest()[:20])
    if os.path.exists(os.path.join(root, "OK")):
        return root
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        for f in files:
            dst = os.path.join(tmp, "pydatastructs", f)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(SRC, f), dst)
        table = _ext_table()
        if not table:
            raise BuildError("no extension modules declared in meson.build files")
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        inc = sysconfig.get_paths()["include"]
        pkg = os.path.join(tmp, "pydatastructs")
        # extensions depend on the native sources alone: reuse those of another mirror
        hn = hashlib.sha256(" ".join(FLAGS).encode() + inc.encode())
        for f in files:
            if not f.endswith(".py"):
                hn.update(f.encode() + b"\0")
                with open(os.path.join(pkg, f), "rb") as fh:
                    hn.update(fh.read())
                hn.update(b"\0")
        native = os.path.join(tmp, "NATIVE-" + hn.hexdigest()[:20])
        for d in os.listdir(BUILD):
            have = os.path.join(BUILD, d)
            if os.path.exists(os.path.join(have, os.path.basename(native))):
                try:
                    for out in table:
                        shutil.copyfile(os.path.join(have, "pydatastructs", out + suffix), os.path.join(pkg, out + suffix))
                except OSError:
                    continue
                table = {}
                break

        def one(item):
            out, srcs = item
            cmd = ["g++", *FLAGS, "-I" + inc, "-I" + os.path.join(pkg, "utils/_backend/cpp"),
                   *[os.path.join(pkg, s) for s in srcs], "-o", os.path.join(pkg, out + suffix)]
            p = subprocess.run(cmd, capture_output=True, text=True)
            return out, p.returncode, p.stderr

        with ThreadPoolExecutor(8) as ex:
            for out, rc, err in ex.map(one, table.items()):
                if rc:
                    raise BuildError("compiling %s failed:\n%s" % (out, err[-3000:]))
        open(native, "w").close()
        open(os.path.join(tmp, "OK"), "w").close()
        # keep the cache small
        old = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if not d.startswith("tmp-")),
                     key=os.path.getmtime)
        for d in old[:-40]:
            shutil.rmtree(d, ignore_errors=True)
        try:
            os.rename(tmp, root)
        except OSError:
            if not os.path.exists(os.path.join(root, "OK")):
                raise
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return root


if __name__ == "__main__":
    print(prepare())
