"""Mirror /repo's current sources into a scratch directory, generate what the build generates
(config.h, version.h, syntax.c), compile every translation unit to LLVM IR and export it as JSON.
Nothing of the project is executed except its own parser generator (greg), a build step."""
import concurrent.futures, hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
IRX = os.path.join(VERIF, "build", "irx")
KNOWN = os.path.join(VERIF, "sa", "known_functions.txt")
LLVM_INC, LLVM_LIB = "/usr/lib/llvm-18/include", "/usr/lib/llvm-18/lib"

UNITS = ["core/asm.c", "core/ast.c", "core/callcc.c", "core/compile.c", "core/contrib.c", "core/file.c", "core/gc.c",
         "core/internal.c", "core/lick.c", "core/load.c", "core/mt19937ar.c", "core/number.c", "core/objmodel.c",
         "core/potion.c", "core/primitive.c", "core/string.c", "core/syntax.c", "core/table.c", "core/vm.c",
         "core/vm-x86.c", "lib/aio.c", "lib/buffile.c", "lib/database.c",
         "lib/readline/readline.c", "lib/readline/linenoise.c"]


class Broken(Exception):
    """The analysis cannot be carried out (not a verdict about the property)."""


def build_tool():
    src = os.path.join(VERIF, "tools", "irx.cpp")
    if os.path.exists(IRX) and os.path.getmtime(IRX) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(IRX), exist_ok=True)
    tmp = IRX + ".%d" % os.getpid()
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-fno-rtti", "-I" + LLVM_INC, src, "-o", tmp,
                        "-L" + LLVM_LIB, "-lLLVM-18", "-Wl,-rpath," + LLVM_LIB], capture_output=True, text=True)
    if r.returncode:
        raise Broken("cannot build irx: " + r.stderr[-2000:])
    os.replace(tmp, IRX)


def repo_files():
    try:
        out = subprocess.run(["git", "-c", "safe.directory=*", "-C", REPO, "ls-files", "-z", "-c", "-o",
                              "--exclude-standard"], check=True, capture_output=True).stdout
        fs = sorted(set(out.decode().split("\0")) - {""})
    except (OSError, subprocess.CalledProcessError):
        fs = []
        for d, ds, ff in os.walk(REPO):
            ds[:] = [x for x in ds if x not in (".git", "_build")]
            fs += [os.path.relpath(os.path.join(d, f), REPO) for f in ff]
    return [f for f in fs if os.path.isfile(os.path.join(REPO, f)) and not f.startswith("test/")]


def run(cmd, cwd, what):
    env = dict(os.environ, LC_ALL="C")
    for k in ("CFLAGS", "LDFLAGS", "MAKEFLAGS", "DEBUG"):
        env.pop(k, None)
    r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, env=env, errors="replace")
    if r.returncode:
        raise Broken("%s failed: %s" % (what, (r.stdout + r.stderr)[-1500:]))
    return r.stdout


CFLAGS = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w", "-D_GNU_SOURCE",
          "-fno-strict-aliasing", "-msse2", "-DHAVE_LIBUV", "-DCGOTO", "-DNDEBUG", "-Icore", "-I/usr/local/include"]


def prepare(modes=("ssa",), units=None, extra=()):
    """-> {mode: [json modules]} for the current /repo tree."""
    build_tool()
    cache = os.environ.get("VERIF_CACHE")
    key = None
    if cache:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode()); h.update(open(os.path.join(REPO, f), "rb").read())
        for f in (IRX, KNOWN):
            h.update(open(f, "rb").read() if os.path.exists(f) else b"")
        h.update(repr((CFLAGS, extra)).encode())
        key = h.hexdigest()[:16]
    res, need = {}, []
    for m in modes:
        p = cache and os.path.join(cache, "%s-%s.json" % (key, m))
        if p and os.path.exists(p):
            res[m] = json.load(open(p))
        else:
            need.append(m)
    if need:
        work = tempfile.mkdtemp(prefix="potion-sa-")
        try:
            for f in repo_files():
                d = os.path.join(work, f)
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, f), d)
                shutil.copymode(os.path.join(REPO, f), d)
            run(["make", "-s", "CC=clang", "AR=ar", "-f", "config.mak", "config"], work, "config")
            run(["make", "-s", "CC=clang", "AR=ar", "core/syntax.c"], work, "parser generation")
            jobs = []
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                for m in need:
                    for u in UNITS:
                        if not os.path.exists(os.path.join(work, u)):
                            raise Broken("translation unit %s is gone" % u)
                        jobs.append((m, ex.submit(compile_unit, work, u, m, extra)))
                for m, j in jobs:
                    res.setdefault(m, []).append(j.result())
        finally:
            shutil.rmtree(work, ignore_errors=True)
        if cache:
            os.makedirs(cache, exist_ok=True)
            for m in need:
                json.dump(res[m], open(os.path.join(cache, "%s-%s.json" % (key, m)), "w"))
    return res


def compile_unit(work, u, mode, extra):
    tag = u.replace("/", "_") + "." + mode
    bc, js = os.path.join(work, tag + ".bc"), os.path.join(work, tag + ".json")
    fl = list(CFLAGS) + list(extra)
    if mode == "ssa":
        fl.append("-Dvolatile=")
    run(["clang", "-c", "-emit-llvm"] + fl + [u, "-o", bc], work, "compiling " + u)
    cmd = [IRX, bc, js, "--mode=" + mode]
    if os.path.exists(KNOWN):
        cmd.append("--known=" + KNOWN)
    run(cmd, work, "exporting " + u)
    d = json.load(open(js))
    d["unit"] = u
    return d


if __name__ == "__main__":
    build_tool()
    print("irx built")
