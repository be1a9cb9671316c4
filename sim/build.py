#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree. Objects are cached by content hash in
/verif/build/obj; the linked program is /verif/build/bin/gbdtsim-<hash>.
Prints the path of the program. build(repo) may be imported."""
import fcntl, glob, hashlib, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.environ.get("GBDTSIM_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
COMMON = ["-g1", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie", "-w"]
TSAN = ["-O1", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0",
        "--param=tsan-distinguish-volatile=1", "-fno-threadsafe-statics" if False else "-fthreadsafe-statics"]
RT = ["-O2", "-std=c++17", "-fno-threadsafe-statics", "-fno-stack-protector", "-U_FORTIFY_SOURCE"]
REDEF = ["memcpy", "memmove", "memset", "memcmp", "strlen"]

CODES = """OK=kOk CANCELLED=kCancelled UNKNOWN=kUnknown INVALID_ARGUMENT=kInvalidArgument
DEADLINE_EXCEEDED=kDeadlineExceeded NOT_FOUND=kNotFound ALREADY_EXISTS=kAlreadyExists
PERMISSION_DENIED=kPermissionDenied UNAUTHENTICATED=kUnauthenticated
RESOURCE_EXHAUSTED=kResourceExhausted FAILED_PRECONDITION=kFailedPrecondition
ABORTED=kAborted OUT_OF_RANGE=kOutOfRange UNIMPLEMENTED=kUnimplemented INTERNAL=kInternal
UNAVAILABLE=kUnavailable DATA_LOSS=kDataLoss""".split()

class BuildError(Exception):
    pass

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def read(p):
    with open(p, "rb") as f:
        return f.read()

def write_if(p, data):
    if os.path.exists(p) and read(p) == data:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    tmp = p + ".tmp%d" % os.getpid()
    with open(tmp, "wb") as f:
        f.write(data)
    os.rename(tmp, p)

def compat(d):
    s = open("/usr/include/google/protobuf/stubs/status.h").read()
    old = "  StatusCode code() const { return error_code_; }\n"
    s = s.replace(old, old + "  StatusCode error_code() const { return error_code_; }\n"
                             "  static const Status OK;\n")
    codes = "namespace error {\n"
    for c in CODES:
        a, b = c.split("=")
        codes += "constexpr StatusCode %s = StatusCode::%s;\n" % (a, b)
    codes += "}  // namespace error\n\n}  // namespace util\n"
    s = s.replace("}  // namespace util\n", codes)
    write_if(os.path.join(d, "google/protobuf/stubs/status.h"), s.encode())
    ok = """#include <google/protobuf/stubs/status.h>
namespace google { namespace protobuf { namespace util { namespace status_internal {
const Status Status::OK;
} } } }
"""
    write_if(os.path.join(d, "status_ok.cc"), ok.encode())

def build(repo="/repo"):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(repo)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def _build(repo):
    objdir, bindir = os.path.join(BUILD, "obj"), os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(bindir, exist_ok=True)
    cdir = os.path.join(BUILD, "compat")
    compat(cdir)
    protos = sorted(glob.glob(repo + "/src/proto/*.proto"))
    ph = hashlib.sha256(b"".join(read(p) for p in protos)).hexdigest()[:16]
    gen = os.path.join(BUILD, "gen-" + ph)
    for p in protos:
        n = os.path.basename(p)[:-6]
        if not os.path.exists("%s/src/proto/%s.pb.h" % (gen, n)):
            os.makedirs(gen, exist_ok=True)
            sh(["protoc", "-I" + repo, "--cpp_out=" + gen, p])
    srcs = sorted(glob.glob(repo + "/src/**/*.cc", recursive=True))
    srcs = [s for s in srcs if not s.endswith("_test.cc")]
    heads = sorted(glob.glob(repo + "/src/**/*.h", recursive=True) +
                   glob.glob(repo + "/src/**/*.inl", recursive=True))
    hh = hashlib.sha256()
    for h in heads:
        hh.update(os.path.relpath(h, repo).encode() + b"\0" + read(h))
    hh.update(ph.encode())
    ext = "/opt/vp/cmake/include"
    inc = ["-I" + cdir, "-I" + HERE + "/include", "-I" + ext, "-I" + repo, "-I" + gen,
           "-I/usr/include/python3.12"]
    jobs = []                                  # (key, src, cmd, redefine)
    def add(src, flags, redefine, extra=b""):
        rel = os.path.relpath(src, repo) if src.startswith(repo + "/") else os.path.relpath(src, VERIF)
        k = hashlib.sha256(repr((rel, flags, redefine)).encode() + read(src) + extra).hexdigest()[:24]
        jobs.append((os.path.join(objdir, k + ".o"), src, flags, redefine))
    hx = hh.digest()
    g14 = ["-std=gnu++14"]
    pmap = ["-ffile-prefix-map=%s=/repo" % repo] if repo != "/repo" else []
    for s in srcs:
        fl = COMMON + TSAN + g14 + pmap
        if s.endswith("/src/main.cc"):
            fl = fl + ["-Dmain=gbdt_main"]
        add(s, fl, True, hx)
    for p in protos:
        add("%s/src/proto/%s.pb.cc" % (gen, os.path.basename(p)[:-6]), COMMON + TSAN + g14, True, ph.encode())
    add(os.path.join(cdir, "status_ok.cc"), COMMON + ["-O1"] + g14, False)
    sh_ = b"".join(read(h) for h in sorted(glob.glob(HERE + "/*.h") + glob.glob(HERE + "/rt/*.h")))
    for s in sorted(glob.glob(HERE + "/*.cc")):
        add(s, COMMON + TSAN + g14, True, hx + sh_)
    rth = b"".join(read(h) for h in sorted(glob.glob(HERE + "/rt/*.h")))
    for s in sorted(glob.glob(HERE + "/rt/*.cc")):
        add(s, COMMON + RT, False, rth)
    final = hashlib.sha256(" ".join(j[0] for j in jobs).encode()).hexdigest()[:20]
    out = os.path.join(bindir, "gbdtsim-" + final)
    if os.path.exists(out):
        os.utime(out)
        return out
    def one(j):
        obj, src, flags, redefine = j
        if os.path.exists(obj):
            os.utime(obj)
            return
        tmp = obj + ".tmp.o"
        sh([CXX] + flags + inc + ["-c", src, "-o", tmp])
        if redefine:
            cmd = ["objcopy"]
            for r in REDEF:
                cmd += ["--redefine-sym", "%s=simrt_%s" % (r, r)]
            sh(cmd + [tmp])
        os.rename(tmp, obj)
    # Longest first.
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "8"))) as ex:
        for _ in ex.map(one, order):
            pass
    tmp = out + ".tmp"
    sh([CXX, "-no-pie", "-o", tmp] + [j[0] for j in jobs] +
       ["-lprotobuf", "-lgflags", "-lglog", "-lfmt", "-lpython3.12", "-lpthread", "-ldl", "-rdynamic" if False else "-g"])
    os.rename(tmp, out)
    # Keep the cache small.
    bins = sorted(glob.glob(bindir + "/gbdtsim-*"), key=os.path.getmtime)
    for b in bins[:-6]:
        os.unlink(b)
    objs = sorted(glob.glob(objdir + "/*.o"), key=os.path.getmtime)
    for o in objs[:-400]:
        os.unlink(o)
    return out

if __name__ == "__main__":
    try:
        print(build(sys.argv[1] if len(sys.argv) > 1 else "/repo"))
    except BuildError as e:
        sys.stderr.write(str(e))
        sys.exit(2)
