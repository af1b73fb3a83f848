#!/usr/bin/env python3
"""Driver of the deterministic-simulation checks.

  vf.py setup                 build every check once (warms the cache)
  vf.py check <ID> [args...]  build from /repo's working tree, search, write evidence
  vf.py replay <ID> <file>    re-execute a replay file exactly
  vf.py run <ID> [args...]    run the check binary with raw arguments
"""
import hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
SRC = os.path.join(REPO, "src")

CXX = "g++"
COMMON = ["-std=c++11", "-O1", "-g1", "-w", "-fno-omit-frame-pointer", "-no-pie", "-fno-pie", "-DNDEBUG", "-ffp-contract=off"]
INC = ["-I" + os.path.join(SRC, "lib"), "-I" + os.path.join(SRC, "objloader"), "-I" + os.path.join(HERE, "sim"), "-I" + os.path.join(HERE, "checks")]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS"]
TSAN = ["-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-DSIM_SCHED=1", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
SIMFLAGS = ["-std=c++17", "-O2", "-g1", "-Wall", "-fno-pie", "-no-pie", "-fno-omit-frame-pointer"]

OBJ = "%SRC%/objloader/loader/MeshObjLoader.cpp"
FEM = "%REPO%/examples/poisson/fem.cpp"
# id -> (flavour, extra translation units with extra flags)
CHECKS = {
    "C01": ("tsan", [(OBJ, [])]), "C02": ("tsan", [(OBJ, [])]), "C03": ("tsan", []),
    "C04": ("asan", []), "C05": ("asan", []), "C06": ("asan", [(OBJ, [])]), "C07": ("asan", []),
    "C08": ("asan", [(OBJ, [])]), "C09": ("asan", [(OBJ, [])]), "C10": ("asan", [(OBJ, [])]),
    "C11": ("asan", []), "C12": ("asan", []), "C13": ("asan", []), "C14": ("asan", []), "C15": ("asan", []),
    "C16": ("asan", [(FEM, ["-Dmain=fem_main"]), (OBJ, [])]), "C17": ("tsan", []), "C18": ("asan", []), "C19": ("asan", []), "C20": ("asan", [(OBJ, [])]), "C21": ("asan", []), "C22": ("asan", [(OBJ, [])]),
}
SIM = {"asan": ["core.cpp", "vfs.cpp"], "tsan": ["core.cpp", "vfs.cpp", "sched.cpp"]}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:24]


def tree_hash(root, exts):
    out = []
    for d, dirs, files in os.walk(root):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                with open(os.path.join(d, f), "rb") as fh:
                    out.append(f.encode() + b"\0" + fh.read())
    return sha(*out)


def compile_one(job):
    src, obj, flags = job
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write("compiling %s failed:\n%s\n" % (src, r.stderr[-6000:]))
        return False
    os.replace(tmp, obj)
    return True


def build(ids):
    for basic in (0, 1, 2):
        bins = build_level(ids, basic)
        if bins:
            return bins
        sys.stderr.write("build failed%s\n" % ("; retrying without exotic instantiations" if basic < 2 else ""))
    return None


def build_level(ids, basic):
    os.makedirs(BUILD, exist_ok=True)
    ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    simh = tree_hash(os.path.join(HERE, "sim"), (".h", ".cpp"))
    repoh = tree_hash(SRC, (".h", ".inl", ".cpp")) + tree_hash(os.path.join(REPO, "examples"), (".cpp",))
    chk_h = tree_hash(os.path.join(HERE, "checks"), (".h",))
    jobs, links, bins = {}, [], {}
    for cid in ids:
        fl, extra = CHECKS[cid]
        san = ASAN if fl == "asan" else TSAN
        objs = []
        for s in SIM[fl]:
            k = sha(ver, simh, s, SIMFLAGS)
            o = os.path.join(BUILD, "sim-%s-%s.o" % (s[:-4], k)); objs.append(o)
            jobs[o] = (os.path.join(HERE, "sim", s), o, SIMFLAGS)
        units = [(os.path.join(HERE, "checks", cid + ".cpp"), ["-I" + os.path.join(REPO, "examples", "poisson")] + (["-DVF_BASIC=%d" % basic] if basic else []))] + extra
        for src, fx in units:
            src = src.replace("%SRC%", SRC).replace("%REPO%", REPO)
            flags = COMMON + san + INC + fx
            with open(src, "rb") as fh:
                k = sha(ver, simh, repoh, chk_h, fh.read(), flags)
            o = os.path.join(BUILD, "%s-%s-%s.o" % (os.path.basename(src)[:-4], fl, k)); objs.append(o)
            jobs[o] = (src, o, flags)
        b = os.path.join(BUILD, "%s-%s" % (cid, sha(*objs)))
        bins[cid] = b
        if not os.path.exists(b):
            link = [CXX, "-no-pie", "-rdynamic"]
            if fl == "asan":
                link += ["-fsanitize=address,undefined"]
            else:
                link += ["-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]
            links.append((link + objs + ["-o", b + ".tmp", "-ldl", "-lpthread"], b))
    todo = [j for o, j in sorted(jobs.items()) if not os.path.exists(o)]
    with ThreadPoolExecutor(8) as ex:
        if not all(list(ex.map(compile_one, todo))):
            return None
        def do_link(l):
            r = subprocess.run(l[0], capture_output=True, text=True)
            if r.returncode:
                sys.stderr.write("linking failed:\n%s\n" % r.stderr[-6000:]); return False
            os.replace(l[1] + ".tmp", l[1]); return True
        if not all(list(ex.map(do_link, links))):
            return None
    return bins


def main(argv):
    if len(argv) < 2:
        print(__doc__); return 2
    cmd = argv[1]
    if cmd == "setup":
        have = [c for c in sorted(CHECKS) if os.path.exists(os.path.join(HERE, "checks", c + ".cpp"))]
        return 0 if build(have) else 2
    cid = argv[2]
    bins = build([cid])
    if not bins:
        return 2
    known = os.path.join(HERE, "known_findings.txt")
    out = os.path.join(HERE, "build", "replays")
    os.makedirs(out, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if cmd == "check":
        ev = os.path.join(HERE, "evidence", cid + ".json")
        return subprocess.call([bins[cid], "--evidence", ev, "--out", out, "--known", known] + argv[3:])
    if cmd == "replay":
        return subprocess.call([bins[cid], "--replay", argv[3]] + argv[4:])
    if cmd == "run":
        return subprocess.call([bins[cid], "--out", out, "--known", known] + argv[3:])
    if cmd == "path":
        print(bins[cid]); return 0
    print(__doc__); return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
