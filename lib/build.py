"""A small parallel build tool: objects are keyed by the content of everything they are compiled from."""
import hashlib
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "clang++"

DEFS = ["-std=c++17", "-DBOOST_ERROR_CODE_HEADER_ONLY", "-DBOOST_ASIO_HAS_HAS_STD_CHRONO",
        "-DFAIRMQ_HAS_STD_FILESYSTEM=1", "-DFAIRMQ_HAS_STD_PMR=1", "-DNDEBUG"]
INCS = ["-I", os.path.join(VERIF, "stubs"), "-I", REPO, "-I", os.path.join(REPO, "fairmq"), "-I", os.path.join(VERIF, "lib")]
SAN = {
    "asan": ["-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread"],
    "none": [],
}
COV = ["-fsanitize-coverage=inline-8bit-counters"]
LIBS = ["-lzmq", "-lboost_container", "-lboost_program_options", "-lboost_filesystem", "-lboost_regex",
        "-lboost_date_time", "-lpthread", "-ldl", "-lrt"]

# the library's translation units, by the name used in the check table
ALL_TUS = ["Channel", "Device", "DeviceRunner", "EventManager", "JSONParser", "MemoryResources", "Plugin", "PluginManager",
           "PluginServices", "ProgOptions", "Properties", "StateMachine", "States", "SuboptParser", "TransportFactory",
           "plugins/config/Config", "plugins/control/Control", "shmem/Common", "shmem/Manager", "shmem/Monitor",
           "tools/Network", "tools/Process", "tools/Semaphore", "tools/Unique"]


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()


_files = {}


def file_hash(p):
    h = _files.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "absent"
        _files[p] = h
    return h


def interesting(dep):
    return dep.startswith(REPO + "/") or dep.startswith(VERIF + "/")


def compile_one(job):
    src, flags = job
    cmd = [CXX] + DEFS + INCS + flags + ["-w", "-c", src]
    ck = sha(json.dumps(cmd).encode())[:20]
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    depf = os.path.join(OUT, "obj", ck + ".deps")
    try:
        with open(depf) as f:
            deps = json.load(f)
        key = sha((ck + "".join(d + file_hash(d) for d in deps)).encode())[:24]
        obj = os.path.join(OUT, "obj", key + ".o")
        if os.path.exists(obj):
            return obj
    except (OSError, ValueError):
        pass
    tmp = os.path.join(OUT, "obj", "%s.%d.tmp" % (ck, os.getpid()))
    r = subprocess.run(cmd + ["-o", tmp + ".o", "-MMD", "-MF", tmp + ".d"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    with open(tmp + ".d") as f:
        words = f.read().replace("\\\n", " ").split()[1:]
    deps = sorted({os.path.normpath(w) for w in words if interesting(os.path.normpath(w))})
    key = sha((ck + "".join(d + file_hash(d) for d in deps)).encode())[:24]
    obj = os.path.join(OUT, "obj", key + ".o")
    os.rename(tmp + ".o", obj)
    with open(tmp + ".j", "w") as f:
        json.dump(deps, f)
    os.rename(tmp + ".j", depf)
    os.unlink(tmp + ".d")
    return obj


HEAVY = ["Properties", "StateMachine", "ProgOptions", "plugins/control/Control", "Device", "shmem/Manager", "TransportFactory"]


def build(name, sources, tus, san="asan", opt="-O1", cov=True, extra=(), ldextra=(), shared=False):
    """sources: files under /verif; tus: library units.  Returns the path of the program."""
    jobs = []
    base = [opt, "-g1"] + SAN[san] + (COV if cov else []) + list(extra)
    for t in sorted(tus, key=lambda t: HEAVY.index(t) if t in HEAVY else 99):
        o = ["-O0"] if t in ("Properties", "StateMachine", "ProgOptions") else []
        jobs.append((os.path.join(REPO, "fairmq", t + ".cxx"), base + o))
    hs = []
    for s in sources:
        hs.append((os.path.join(VERIF, s), base if "harness.cpp" not in s else ["-O2", "-g1"] + SAN[san] + list(extra)))
    order = hs[:1] + jobs + hs[1:]
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        objs = list(ex.map(compile_one, order))
    link = [CXX] + SAN[san] + ["-fuse-ld=lld", "-Wl,--as-needed"] + list(ldextra)
    key = sha(json.dumps(link + objs).encode())[:24]
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    exe = os.path.join(OUT, "bin", "%s.%s" % (name, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(link + objs + ([] if shared else LIBS) + ["-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.rename(tmp, exe)
    return exe


def prune():
    """keep the cache from growing without bound (seeded-bug runs leave variants behind)"""
    for d in ("obj", "bin"):
        p = os.path.join(OUT, d)
        try:
            files = [os.path.join(p, f) for f in os.listdir(p)]
        except OSError:
            continue
        total = sum(os.path.getsize(f) for f in files if os.path.exists(f))
        if total > 6e9:
            for f in sorted(files, key=lambda f: os.path.getmtime(f) if os.path.exists(f) else 0):
                if total < 3e9:
                    break
                try:
                    total -= os.path.getsize(f)
                    os.unlink(f)
                except OSError:
                    pass
