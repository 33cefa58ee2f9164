"""Turn /repo's current working tree into linked, unoptimised-but-promoted LLVM IR, one module per build
configuration of /opt/vp/build.sh.

The compile commands come from the project's own CMake files (configured in a scratch directory), so that the set of
translation units and every -D is what the real build uses.  Each unit is compiled with clang -O0 (no optimisation
pass runs: nothing is folded away), the units are linked with llvm-link, and two passes are run: `always-inline`, for
the functions that are not in the table of known functions (so that a helper extracted by a refactoring is seen
through), and `sroa<preserve-cfg>`, which turns non-escaping locals into SSA values.
"""
import json, os, re, shutil, subprocess, sys, tempfile, hashlib, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("LFSA_REPO", "/repo")
CLANG = "/usr/bin/clang-18"
LINK = "/usr/lib/llvm-18/bin/llvm-link"
OPT = "/usr/lib/llvm-18/bin/opt"

FED = ['-D_LF_FEDERATE_NAMES_COMMA_SEPARATED="a,b"', "-DNUMBER_OF_WORKERS=4", "-DFEDERATED=1",
       "-DNUMBER_OF_FEDERATES=2", "-DFEDERATE_ID=0", "-DLF_CLOCK_SYNC=3", "-DADVANCE_MESSAGE_INTERVAL=10000000",
       "-DLOG_LEVEL=4"]
RTI = "core/federated/RTI"
# name -> (source dir, cmake args): the configurations of /opt/vp/build.sh
CONFIGS = {
    "single": (".", ["-DLF_SINGLE_THREADED=1"]),
    "multi": (".", ["-DNUMBER_OF_WORKERS=4"]),
    "rti-auth": (RTI, ["-DAUTH=ON"]),
    "rti": (RTI, ["-DAUTH=OFF"]),
    "single-tm": (".", ["-DLF_SINGLE_THREADED=1", "-DLF_TRACE=1", "-DLOG_LEVEL=4", "-DMODAL_REACTORS=1"]),
    "multi-tm": (".", ["-DNUMBER_OF_WORKERS=4", "-DLF_TRACE=1", "-DLOG_LEVEL=4", "-DMODAL_REACTORS=1",
                       "-DNUMBER_OF_WATCHDOGS=1"]),
    "gedf": (".", ["-DNUMBER_OF_WORKERS=4", "-DSCHEDULER=SCHED_GEDF_NP"]),
    "adaptive": (".", ["-DNUMBER_OF_WORKERS=4", "-DSCHEDULER=SCHED_ADAPTIVE",
                       "-DCMAKE_C_FLAGS=-Wno-error=incompatible-pointer-types"]),
    "fed-cent": (".", FED + ["-DFEDERATED_CENTRALIZED=1", "-DFEDERATED_AUTHENTICATED=1", "-DLF_TRACE=1",
                             "-DMODAL_REACTORS=1"]),
    "fed-dec": (".", FED + ["-DFEDERATED_DECENTRALIZED=1"]),
    # not CMake: see commands_for
    "trace-csv": None, "trace-chrome": None, "trace-influx": None, "python": None,
}
CORE = ["single", "multi", "single-tm", "multi-tm", "gedf", "adaptive", "fed-cent", "fed-dec"]
MULTI = ["multi", "multi-tm", "gedf", "fed-cent", "fed-dec"]
SINGLE = ["single", "single-tm"]
FEDS = ["fed-cent", "fed-dec"]
RTIS = ["rti-auth", "rti"]


class AnalysisBroken(Exception):
    """The tree could not be analysed, or an anchor vanished: neither a pass nor a violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="lfsa-")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


INC = ["include", "include/core", "include/core/utils", "include/core/modal_models", "include/core/platform",
       "include/core/threaded", "include/core/federated", "include/core/federated/network", "include/api",
       "low_level_platform/api", "tag/api", "trace/api", "trace/api/types", "version/api", "logging/api",
       "platform/api"]


def commands_for(config):
    """[(source file, [clang flags])]"""
    if config == "python":
        inc = run(["python3-config", "--includes"]).stdout.split()
        flags = ["-DNUMBER_OF_WORKERS=4", "-DMODAL_REACTORS=1", "-DMODULE_NAME=x", "-DPLATFORM_Linux",
                 "-DLOG_LEVEL=2", "-I" + REPO + "/python/include"] + ["-I%s/%s" % (REPO, i) for i in INC] + inc
        files = []
        for d in ("python/lib", "python/lib/modal_models"):
            p = os.path.join(REPO, d)
            files += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".c")]
        return [(f, flags) for f in files]
    if config.startswith("trace-"):
        tool = {"trace-csv": "trace_to_csv", "trace-chrome": "trace_to_chrome",
                "trace-influx": "trace_to_influxdb"}[config]
        flags = ["-DLF_SINGLE_THREADED=1", "-D_GNU_SOURCE"] + ["-I%s/%s" % (REPO, i) for i in INC + ["trace/impl/include", "util/tracing"]]
        return [(os.path.join(REPO, "util/tracing", f), flags) for f in ("trace_util.c", tool + ".c")]
    src, args = CONFIGS[config]
    bld = os.path.join(scratch(), "cmake-" + config)
    env = dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++", LC_ALL="C.UTF-8")
    for v in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(v, None)
    r = run(["cmake", "-S", os.path.join(REPO, src), "-B", bld, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON"] + args, env=env)
    if r.returncode:
        raise AnalysisBroken("cmake failed for %s: %s" % (config, r.stderr[-2000:]))
    import shlex
    seen, out = set(), []
    for e in json.load(open(os.path.join(bld, "compile_commands.json"))):
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        if "/test/" in f[len(REPO):] or f in seen or not f.endswith(".c"):
            continue
        seen.add(f)
        flags = [t for t in shlex.split(e["command"]) if t.startswith(("-D", "-I", "-std", "-isystem"))]
        out.append((f, flags))
    shutil.rmtree(bld, True)
    return out


def _compile(args):
    f, flags, out = args
    r = run([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-w", "-c", "-emit-llvm",
             "-Wno-error=incompatible-pointer-types"] + flags + [f, "-o", out])
    if r.returncode:
        raise AnalysisBroken("clang failed on %s: %s" % (f, r.stderr[-2000:]))
    return out


_base = {}


def link(config):
    """Compile and link one configuration; returns (path of the .bc, list of source files)."""
    if config in _base:
        return _base[config]
    d = os.path.join(scratch(), config)
    os.makedirs(d, exist_ok=True)
    cmds = commands_for(config)
    jobs = [(f, fl, os.path.join(d, "%03d.bc" % i)) for i, (f, fl) in enumerate(cmds)]
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(_compile, jobs))
    out = os.path.join(d, "all.bc")
    if config == "python":   # python/lib defines nothing of the runtime: units are linked alone
        pass
    r = run([LINK, "-o", out] + objs)
    if r.returncode:
        raise AnalysisBroken("llvm-link failed for %s: %s" % (config, r.stderr[-2000:]))
    for o in objs:
        os.unlink(o)
    _base[config] = (out, [f for f, _ in cmds])
    return _base[config]


def list_functions(bc):
    r = run(["/usr/lib/llvm-18/bin/llvm-nm", "--defined-only", bc])
    return [l.split()[-1] for l in r.stdout.splitlines() if len(l.split()) >= 2 and l.split()[-2] in "tTwW"]


def emit(config, inline, tag):
    """Inline the functions of the set `inline` (a predicate on the name) into their callers, promote locals, and
    return the path of the textual module."""
    bc, files = link(config)
    names = [n for n in list_functions(bc) if inline(n)]
    out = os.path.join(os.path.dirname(bc), tag + ".ll")
    cmd = [OPT, "-S", bc, "-o", out]
    passes = "sroa<preserve-cfg>"
    if names:
        cmd += ["-force-attribute=%s:alwaysinline" % n for n in names]
        cmd += ["-force-remove-attribute=%s:noinline" % n for n in names]
        passes = "forceattrs,always-inline,function(sroa<preserve-cfg>)"
    else:
        passes = "function(sroa<preserve-cfg>)"
    r = run(cmd + ["-passes=" + passes])
    if r.returncode:
        raise AnalysisBroken("opt failed for %s: %s" % (config, r.stderr[-2000:]))
    return out, files
