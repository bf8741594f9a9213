"""Builds cocogen from /repo's working tree into a scratch directory that is removed at exit."""
import atexit, os, shutil, signal, subprocess, sys, tempfile, fcntl, resource

REPO = os.environ.get("CCNV_REPO", "/repo")
_scratch = None

class BuildError(Exception):
    pass

def scratch():
    """The scratch directory of this check (parent process creates it, workers inherit it)."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="ccnv-", dir=os.environ.get("CCNV_TMP", "/tmp"))
        pid = os.getpid()
        def clean(path=_scratch):
            if os.getpid() == pid:
                shutil.rmtree(path, ignore_errors=True)
        atexit.register(clean)
        def onsig(sig, frame):
            clean()
            os._exit(3)
        for s in (signal.SIGTERM, signal.SIGINT, signal.SIGHUP):
            signal.signal(s, onsig)
    return _scratch

def sh(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env,
                       stdin=subprocess.DEVNULL)
    if p.returncode != 0:
        raise BuildError("%s failed:\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout

ASAN = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g -O1"

def cocogen(kind="release"):
    """Path of a freshly built cocogen. kind: release or asan."""
    out = os.path.join(scratch(), "build-" + kind)
    exe = os.path.join(out, "cocogen", "cocogen")
    if os.path.exists(exe):
        return exe
    cmd = ["cmake", "-S", REPO, "-B", out, "-G", "Ninja", "-DCMAKE_C_COMPILER=/usr/bin/gcc"]
    if kind == "release":
        cmd.append("-DCMAKE_BUILD_TYPE=RelWithDebInfo")
    else:
        cmd += ["-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_C_FLAGS=" + ASAN]
    sh(cmd)
    sh(["ninja", "-C", out])
    if not os.path.exists(exe):
        raise BuildError("no cocogen in " + out)
    return exe

HERE = os.path.dirname(os.path.abspath(__file__))
CDIR = os.path.join(HERE, "c")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]

def palm_objects(kind="plain", alloc=False):
    """Object files of palm (independent of generated code), with the recording allocator if asked."""
    out = os.path.join(scratch(), "palm-%s%s" % (kind, "-cv" if alloc else ""))
    src = os.path.join(REPO, "palm", "src")
    flags = {"plain": ["-O0"], "asan": ["-O1"] + SAN}[kind]
    objs = []
    if not os.path.isdir(out):
        os.makedirs(out)
        jobs = [(os.path.join(src, f), ["-include", os.path.join(CDIR, "cvalloc.h")] if alloc else [])
                for f in sorted(os.listdir(src)) if f.endswith(".c")]
        if alloc:
            jobs.append((os.path.join(CDIR, "cvalloc.c"), [] if kind == "asan" else ["-DCV_QUARANTINE"]))
        ps = []
        for f, fl in jobs:
            ps.append((f, subprocess.Popen(["gcc", "-w", "-g", "-c", f, "-I", os.path.join(REPO, "palm", "include"), "-I", CDIR,
                "-o", os.path.join(out, os.path.basename(f)[:-2] + ".o")] + fl + flags, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for f, p in ps:
            o = p.communicate()[0]
            if p.returncode != 0:
                raise BuildError("%s: %s" % (f, o.decode()[-2000:]))
    return [os.path.join(out, f) for f in sorted(os.listdir(out)) if f.endswith(".o")]

def palm_driver(name, extra=()):
    """c/<name>.c linked with palm and the recording allocator under ASan and UBSan."""
    exe = os.path.join(scratch(), "drv-" + name)
    if os.path.exists(exe):
        return exe
    palm = os.path.join(REPO, "palm")
    out = os.path.join(scratch(), "drv-%s.d" % name)
    os.makedirs(out)
    common = ["gcc", "-w", "-g", "-O1", "-I", os.path.join(palm, "include"), "-I", CDIR] + SAN
    jobs = [(os.path.join(CDIR, f + ".c"), []) for f in (name,) + tuple(extra)] + [(os.path.join(CDIR, "cvalloc.c"), [])]
    jobs += [(os.path.join(palm, "src", f), ["-include", os.path.join(CDIR, "cvalloc.h")])
             for f in sorted(os.listdir(os.path.join(palm, "src"))) if f.endswith(".c")]
    ps, objs = [], []
    for i, (src, fl) in enumerate(jobs):
        o = os.path.join(out, "%d.o" % i)
        objs.append(o)
        ps.append((src, subprocess.Popen(common + fl + ["-c", src, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    for src, p in ps:
        o = p.communicate()[0]
        if p.returncode != 0:
            raise BuildError("%s: %s" % (src, o.decode()[-2000:]))
    sh(["gcc"] + SAN + objs + ["-o", exe])
    return exe

def fault_library():
    """c/fault.c, to be preloaded into cocogen."""
    so = os.path.join(scratch(), "fault.so")
    if not os.path.exists(so):
        sh(["gcc", "-shared", "-fPIC", "-O1", "-w", "-fno-builtin", "-o", so, os.path.join(CDIR, "fault.c"), "-ldl"])
    return so
