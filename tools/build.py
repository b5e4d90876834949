#!/usr/bin/env python3
"""Builds the simulator binaries from /repo's current working tree.

/repo/ink is mirrored by content into build/src (so that nothing depends on time stamps), generated
ninja files compile it together with /verif/sim and the /verif/shim headers. Usage: build.py [target..]
Targets: core (ASan), tsan (the thread worlds under ThreadSanitizer), jni, skia.
"""
import fcntl, filecmp, hashlib, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SKIP = re.compile(r"(_test\.cc|fuzz_domains|matchers|benchmark|test_helpers|recorded_test|synthetic_test|tessellat)")
LIBS = ("-labsl_time -labsl_time_zone -labsl_base -labsl_int128 -labsl_raw_logging_internal "
        "-labsl_spinlock_wait -labsl_throw_delegate -lpthread")
JDK = "/usr/lib/jvm/java-17-openjdk-amd64/include"
CXX = "clang++"
BASE = "-std=c++20 -O1 -g1 -fno-omit-frame-pointer -w -DSHIM_NO_DCHECK -I$verif/shim -I$src"


def mirror():
    src = os.path.join(REPO, "ink")
    dst = os.path.join(B, "src", "ink")
    want = set()
    for d, _, fs in os.walk(src):
        rel = os.path.relpath(d, src)
        for f in fs:
            if not f.endswith((".cc", ".h", ".inc", ".cpp", ".hpp")):
                continue
            r = os.path.normpath(os.path.join(rel, f))
            want.add(r)
            s, t = os.path.join(src, r), os.path.join(dst, r)
            if not (os.path.exists(t) and filecmp.cmp(s, t, shallow=False)):
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copyfile(s, t)
    for d, _, fs in os.walk(dst):
        for f in fs:
            r = os.path.normpath(os.path.join(os.path.relpath(d, dst), f))
            if r not in want:
                os.remove(os.path.join(dst, r))
    return sorted(r for r in want if r.endswith(".cc") and not SKIP.search(r))


def write_if_changed(path, text):
    if os.path.exists(path) and open(path).read() == text:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write(text)


def tracked_sim(names):
    return [os.path.join(VERIF, "sim", n) for n in names]


def gen(all_cc, variants):
    o = [f"verif = {VERIF}", f"src = {B}/src", f"builddir = {B}",
         "rule cc", f"  command = {CXX} -MMD -MF $out.d {BASE} $flags -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc", "  description = CC $out",
         "rule link", f"  command = {CXX} $flags $in -o $out {LIBS} $libs", "  description = LINK $out"]
    for name, v in variants.items():
        objs = []
        for cc in all_cc:
            if not v["repo"](cc):
                continue
            ob = f"{B}/{name}/ink/{cc[:-3]}.o"
            o.append(f"build {ob}: cc $src/ink/{cc}")
            o.append(f"  flags = {v['flags']} {v['cov']} {v.get('incs', '')}")
            objs.append(ob)
        for s in v["sim"]:
            ob = f"{B}/{name}/sim/{s[:-3]}.o"
            fl = v["flags"] if s != "vthreads.cc" else v["flags"].replace("-fsanitize=thread", "")
            o.append(f"build {ob}: cc $verif/sim/{s}")
            o.append(f"  flags = {fl} {v.get('incs', '')} -I$verif/sim")
            objs.append(ob)
        o.append(f"build {B}/{name}/sim_{name}: link {' '.join(objs)}")
        o.append(f"  flags = {v['flags']}")
        o.append(f"  libs = {v.get('libs', '')}")
        o.append(f"build {name}: phony {B}/{name}/sim_{name}")
    write_if_changed(f"{B}/build.ninja", "\n".join(o) + "\n")


def variants():
    import glob
    core = [f for f in sorted(os.listdir(os.path.join(VERIF, "sim"))) if f.endswith(".cc") and not f.startswith(("jni_", "skia_"))]
    nojs = lambda cc: "/jni/" not in cc and "/skia/" not in cc and not cc.startswith("jni/")
    cov = "-fsanitize-coverage=trace-pc-guard"
    return {
        "core": dict(flags="-fsanitize=address", cov=cov, repo=nojs, sim=core),
        "jni": dict(flags="-fsanitize=address", cov="", repo=lambda cc: "/skia/native/" not in cc and ("/skia/" not in cc or "/common_internal/" in cc),
                    sim=["core.cc", "main.cc", "world.cc", "session.cc", "vthreads.cc", "jni_vm.cc", "jni_props.cc"],
                    incs=f"-I{JDK} -I{JDK}/linux"),
        "skia": dict(flags="-fsanitize=address", cov="", repo=lambda cc: "/jni/" not in cc and not cc.startswith("jni/"),
                     sim=["core.cc", "main.cc", "world.cc", "session.cc", "vthreads.cc", "skia_sksl.cc", "skia_fake.cc", "skia_props.cc"],
                     incs="-I$verif/shim_skia -I$verif/sim"),
        "tsan": dict(flags="-fsanitize=thread", cov=cov, repo=nojs, sim=core),
    }


def build(targets):
    os.makedirs(B, exist_ok=True)
    with open(f"{B}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ccs = mirror()
        gen(ccs, variants())
        r = subprocess.run(["ninja", "-f", f"{B}/build.ninja", "-j", str(os.cpu_count() or 8)] + targets,
                           cwd=B, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stdout.write(r.stdout[-6000:])
            return False
    return True


def binary(target):
    return f"{B}/{target}/sim_{target}"


if __name__ == "__main__":
    sys.exit(0 if build(sys.argv[1:] or ["core"]) else 2)
