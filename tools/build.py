"""Builds the simulator from /repo's current sources. Objects are cached by content."""
import fcntl, glob, hashlib, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("XMM_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LIB = ["-std=c++11", "-O1", "-g", "-fsanitize=thread", "-DSWIGPYTHON", "-w", "-fno-builtin"]
RT = ["-std=c++14", "-O2", "-g", "-w", "-fno-builtin", "-fno-tree-loop-distribute-patterns"]
LINK = ["-no-pie", "-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]


def files(root, pats):
    out = []
    for d, _, names in os.walk(root):
        out += [os.path.join(d, n) for n in names if n.endswith(pats)]
    return sorted(out)


def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def build(quiet=True):
    """Path of the simulator, or an exception with the compiler's output."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return _build(quiet)


def _build(quiet):
    src, json = os.path.join(REPO, "src"), os.path.join(REPO, "dependencies/jsoncpp")
    sim = os.path.join(VERIF, "sim")
    inc = ["-I" + d for d, _, _ in sorted(os.walk(src))] + ["-I" + os.path.join(json, "include"), "-I" + sim]
    hdr = (".h", ".hpp", ".hh", ".hxx", ".inl", ".ipp", ".tpp")
    headers = files(src, hdr) + files(json, hdr)
    lib_h = digest([x for p in headers for x in (os.path.relpath(p, REPO), read(p))])
    sim_h = digest([x for p in files(sim, hdr) for x in (p, read(p))])
    jobs = []
    for p in files(src, (".cpp", ".cc", ".cxx")) + files(json, (".cpp", ".cc", ".cxx")):
        jobs.append((p, LIB, lib_h))
    for p in files(sim, (".cpp",)):
        rt = os.path.basename(p) in ("rt.cpp", "disk.cpp", "main.cpp")
        jobs.append((p, RT if rt else LIB, sim_h if rt else lib_h + sim_h))
    objs, todo = [], []
    for p, flags, extra in jobs:
        o = os.path.join(BUILD, "obj", digest([p, read(p), extra, " ".join(flags + [i.replace(REPO, "") for i in inc])]) + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((p, flags, o))
    env = dict(os.environ, LC_ALL="C", TMPDIR=os.path.join(BUILD, "obj"))

    def one(job):
        p, flags, o = job
        r = subprocess.run(["g++"] + flags + inc + ["-c", p, "-o", o + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            return p + ":\n" + r.stdout.decode(errors="replace")[-3000:]
        os.rename(o + ".tmp", o)
        return None

    todo.sort(key=lambda j: -os.path.getsize(j[0]))
    with ThreadPoolExecutor(8) as ex:
        bad = [b for b in ex.map(one, todo) if b]
    if bad:
        raise RuntimeError("the sources do not compile\n" + "\n".join(bad[:3]))
    exe = os.path.join(BUILD, "simx-" + digest(objs + LINK))
    if not os.path.exists(exe):
        r = subprocess.run(["g++"] + LINK + objs + ["-ldl", "-pthread", "-o", exe + ".tmp"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
        if r.returncode:
            raise RuntimeError("the simulator does not link\n" + r.stdout.decode(errors="replace")[-3000:])
        os.rename(exe + ".tmp", exe)
    keep = set(objs) | {exe}
    old = sorted((p for p in glob.glob(os.path.join(BUILD, "obj", "*.o")) + glob.glob(os.path.join(BUILD, "simx-*")) if p not in keep), key=os.path.getmtime)
    now = time.time()
    for p in old[:-120]:
        if now - os.path.getmtime(p) > 3600:
            os.unlink(p)
    for p in keep:
        os.utime(p)
    return exe


if __name__ == "__main__":
    t = time.time()
    try:
        print(build(), "%.1f s" % (time.time() - t))
    except RuntimeError as e:
        print(e)
        sys.exit(2)
