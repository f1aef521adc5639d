"""Build the harnesses from /repo's current working tree into a private folder (never inside /repo)."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
WRAP = """socket bind listen connect accept accept4 getsockopt setsockopt getsockname getpeername fcntl ioctl shutdown
close read readv recv recvfrom recvmsg write writev send sendto sendmsg clock_gettime gettimeofday time malloc calloc realloc free""".split()
NOT_LIB = ("_test.c",)
NOT_LIB_PREFIX = ("rmc_test", "rmc_proto_test", "rmc_wireshark")
CFLAGS = ["-O1", "-g", "-w", "-fPIC", "-D_GNU_SOURCE", "-DRMC_VERIFICATION", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-fno-omit-frame-pointer",
          "-fsanitize=address", "-I" + REPO]


def lib_sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "*.c"))):
        b = os.path.basename(p)
        if b.endswith(NOT_LIB) or b.startswith(NOT_LIB_PREFIX):
            continue
        out.append(p)
    return out


def build(harness):
    """harness: name of /verif/harness/<harness>.c ; returns the path of the executable."""
    srcs = lib_sources()
    hs = os.path.join(VERIF, "harness", harness + ".c")
    h = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(REPO, "*.[ch]"))) + [hs]:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    h.update(" ".join(CFLAGS + WRAP).encode())
    root = os.path.join(VERIF, "build")
    d = os.path.join(root, harness + "-" + h.hexdigest()[:20])
    exe = os.path.join(d, harness)
    if os.path.exists(exe):
        return exe
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=d)       # somebody else may be building the same
    objs = []

    def one(src):
        o = os.path.join(tmp, os.path.basename(src)[:-2] + ".o")
        r = subprocess.run(["gcc"] + CFLAGS + ["-c", src, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("BUILD FAILED %s\n%s" % (src, r.stderr))
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs + [hs]))
    wraps = ["-Wl," + ",".join("--wrap=" + w for w in WRAP)] if harness == "sim" else []
    r = subprocess.run(["gcc", "-fsanitize=address", "-o", os.path.join(tmp, harness)] + objs + wraps, capture_output=True, text=True)
    if r.returncode:
        raise SystemExit("LINK FAILED\n" + r.stderr)
    os.rename(os.path.join(tmp, harness), exe)
    shutil.rmtree(tmp)
    return exe


if __name__ == "__main__":
    print(build(sys.argv[1]))
