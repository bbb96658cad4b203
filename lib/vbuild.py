"""Builds harness binaries from /repo's current working tree (cached by content)."""
import hashlib, os, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WHIPPET_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

WRAPS = """pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_mutex_timedlock pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait
pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_detach pthread_exit pthread_self pthread_equal
pthread_getattr_np pthread_attr_init pthread_attr_destroy pthread_attr_getstack pthread_once pthread_key_create
pthread_getspecific pthread_setspecific pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock
pthread_rwlock_unlock pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait sem_init sem_destroy sem_post sem_wait sem_trywait
sched_yield usleep sleep nanosleep clock_nanosleep clock_gettime gettimeofday time sched_getaffinity sysconf
dl_iterate_phdr mmap munmap madvise mprotect malloc calloc realloc""".split()

COMMON_SRC = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".c") and f not in ("bdw.c", "mmc.c", "pcc.c", "semi.c"))


def _cfg(collector, **kw):
    d = dict(collector=collector, parallel=0, generational=0, roots="precise", heapcons=0)
    d.update(kw)
    return d


CONFIGS = {
    "semi": _cfg("semi"),
    "pcc": _cfg("pcc", parallel=1),
    "generational-pcc": _cfg("pcc", parallel=1, generational=1),
}
for pre, roots, hc in (("", "precise", 0), ("stack-conservative-", "conservative", 0), ("heap-conservative-", "conservative", 1)):
    for par in (0, 1):
        for gen in (0, 1):
            CONFIGS[pre + ("parallel-" if par else "") + ("generational-" if gen else "") + "mmc"] = \
                _cfg("mmc", parallel=par, generational=gen, roots=roots, heapcons=hc)
ALL = list(CONFIGS)


def config_flags(name):
    c = CONFIGS[name]
    f = []
    f.append("-DGC_PRECISE_ROOTS=1" if c["roots"] == "precise" else "-DGC_CONSERVATIVE_ROOTS=1")
    if c["heapcons"]:
        f.append("-DGC_CONSERVATIVE_TRACE=1")
    if c["parallel"]:
        f.append("-DGC_PARALLEL=1")
    if c["generational"]:
        f.append("-DGC_GENERATIONAL=1")
    f.append('-DGC_ATTRS="%s/api/%s-attrs.h"' % (REPO, c["collector"]))
    f.append('-DGC_EMBEDDER="%s/harness/mc-embedder.h"' % VERIF)
    f.append('-DHH_COLLECTOR_%s=1' % c["collector"].upper())
    f.append('-DHH_CONFIG="%s"' % name)
    return f


BASE = ["gcc", "-D_GNU_SOURCE=1", "-std=gnu11", "-g", "-fno-strict-aliasing", "-fvisibility=hidden", "-Wno-attributes", "-w",
        "-fno-omit-frame-pointer", "-I" + REPO + "/api", "-I" + REPO + "/src", "-I" + VERIF + "/mcrt", "-I" + VERIF + "/harness",
        "-D__builtin_ia32_pause=mcrt_pause", "-include", VERIF + "/harness/pre.h"]

_lock = threading.Lock()
_srchash = None


def _tree_hash():
    global _srchash
    with _lock:
        if _srchash is None:
            h = hashlib.sha256()
            for d in (REPO + "/src", REPO + "/api", VERIF + "/harness", VERIF + "/mcrt"):
                for root, _, files in sorted(os.walk(d)):
                    for f in sorted(files):
                        p = os.path.join(root, f)
                        h.update(p.encode())
                        h.update(open(p, "rb").read())
            _srchash = h.hexdigest()
    return _srchash


class BuildError(Exception):
    pass


_inflight = {}


def _run_once(key, fn):
    with _lock:
        ev = _inflight.get(key)
        if ev is None:
            ev = _inflight[key] = [threading.Event(), None]
            mine = True
        else:
            mine = False
    if mine:
        try:
            fn()
        except Exception as e:      # noqa
            ev[1] = e
        ev[0].set()
    else:
        ev[0].wait()
    if ev[1]:
        raise ev[1]


def compile_c(src, flags, tag):
    key = hashlib.sha256(("\0".join([src, tag] + flags) + _tree_hash()).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "o", key + ".o")

    def go():
        if os.path.exists(out):
            return
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(BASE + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("%s %s: %s" % (src, " ".join(flags), r.stderr[-3000:]))
        if tag == "mcrt":
            subprocess.run(["objcopy", "--set-section-flags", ".bss=alloc,load,contents,data", "--rename-section",
                            ".bss=mcbss,alloc,load,contents,data", "--rename-section", ".data=mcdata", tmp], check=True)
        os.rename(tmp, out)
    _run_once(out, go)
    return out


SAN = ["-fsanitize=thread"]
_pool = ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8")))


def link(objs, name, extra=()):
    key = hashlib.sha256("\0".join(list(objs) + list(extra)).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, "bin", name + "-" + key)

    def go():
        if os.path.exists(out):
            return
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-no-pie", "-g"] + list(objs) + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS), "-o", tmp,
                            "-lpthread", "-lm"] + list(extra), capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link %s: %s" % (name, r.stderr[-3000:]))
        os.rename(tmp, out)
    _run_once(out, go)
    return out


def mcrt_obj():
    return compile_c(VERIF + "/mcrt/mcrt.c", ["-O2"], "mcrt")


def mode_flags(debug):
    return (["-DGC_DEBUG=1"] if debug else ["-DNDEBUG=1"])


def build_heap(config, scenario, debug=0, opt="-O2", san=True, defs=()):
    """A heap harness: collector `config` + harness/<scenario>.c"""
    c = CONFIGS[config]
    hd = [d for d in defs if d.startswith("-DHH_")]        # for the harness only
    fl = config_flags(config) + mode_flags(debug) + [opt] + [d for d in defs if d not in hd]
    s = SAN if san else []
    jobs = []
    for src in [c["collector"] + ".c"] + COMMON_SRC:
        jobs.append(_pool.submit(compile_c, REPO + "/src/" + src, fl + s, config))
    jobs.append(_pool.submit(compile_c, VERIF + "/harness/hh_api.c", fl + s, config))
    jobs.append(_pool.submit(compile_c, VERIF + "/harness/hh.c", fl + hd, config))
    jobs.append(_pool.submit(compile_c, VERIF + "/harness/%s.c" % scenario, fl + hd, config))
    objs = [j.result() for j in jobs] + [mcrt_obj()]
    return link(objs, "%s-%s%s" % (scenario, config, "-dbg" if debug else ""))


def build_component(scenario, flags=(), san=True, opt="-O1", srcs=(), debug=0, tag=""):
    """A component harness: harness/<scenario>.c includes whippet headers itself."""
    fl = mode_flags(debug) + [opt] + list(flags)
    s = SAN if san else []
    objs = [compile_c(VERIF + "/harness/%s.c" % scenario, fl + s, "comp")]
    for x in srcs:
        objs.append(compile_c(x if x.startswith("/") else REPO + "/src/" + x, fl + s, "comp"))
    return link(objs + [mcrt_obj()], "%s%s%s" % (scenario, tag, "-dbg" if debug else ""))
