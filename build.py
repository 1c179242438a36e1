#!/usr/bin/env python3
"""Builds the simulator and the node images from /repo's working tree into /verif/build (content-addressed)."""
import hashlib, os, subprocess, sys, shutil, concurrent.futures as cf
REPO = os.environ.get("SIM_REPO", "/repo")
VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, "build")
CC, CXX = "clang", "clang++"
INC = ["include", "include/core", "include/core/federated", "include/core/federated/network", "include/core/modal_models", "include/core/threaded",
       "include/core/utils", "include/core/platform", "core/federated/RTI", "low_level_platform/api", "platform/api", "tag/api", "version/api",
       "logging/api", "trace/api", "trace/api/types", "trace/impl/include", "include/api"]
WRAP = """malloc free calloc realloc strdup strndup memcpy memmove memset memcmp strlen strcpy strncpy strcmp strncmp exit _exit abort __assert_fail __stack_chk_fail
fwrite fprintf vfprintf printf vprintf puts putchar fputs fputc fopen fclose fflush
socket shutdown setsockopt getsockname bind listen accept connect read write recv send sendto recvfrom close getaddrinfo freeaddrinfo select poll fcntl
nanosleep clock_gettime clock_getres time usleep sleep atexit signal raise sysconf sched_yield
pthread_create pthread_join pthread_self pthread_detach pthread_mutexattr_init pthread_mutexattr_settype pthread_mutexattr_destroy pthread_mutex_init pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_mutex_destroy pthread_condattr_init pthread_condattr_setpshared pthread_condattr_setclock pthread_condattr_destroy
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_getschedparam pthread_setschedparam
pthread_setschedprio pthread_setaffinity_np RAND_bytes""".split()
BASE = ["core/tag.c", "core/clock.c", "core/port.c", "core/mixed_radix.c", "core/reactor_common.c", "core/lf_token.c", "core/environment.c", "lib/schedule.c",
        "core/utils/vector.c", "core/utils/pqueue_base.c", "core/utils/pqueue_tag.c", "core/utils/pqueue.c", "core/utils/util.c"]
PLAT = ["low_level_platform/impl/src/lf_unix_clock_support.c", "low_level_platform/impl/src/lf_linux_support.c", "low_level_platform/impl/src/lf_atomic_gcc_clang.c",
        "low_level_platform/impl/src/lf_platform_util.c", "platform/impl/platform.c"]
THR = ["core/threaded/reactor_threaded.c", "core/threaded/scheduler_adaptive.c", "core/threaded/scheduler_GEDF_NP.c", "core/threaded/scheduler_NP.c",
       "core/threaded/scheduler_sync_tag_advance.c", "core/threaded/scheduler_instance.c", "core/threaded/watchdog.c", "core/utils/lf_semaphore.c"]
HASH = ["core/utils/hashset/hashset.c", "core/utils/hashset/hashset_itr.c"]
MODAL = ["core/modal_models/modes.c"]
FED = ["core/federated/clock-sync.c", "core/federated/federate.c", "core/federated/network/net_util.c"]
TRACE = ["core/tracepoint.c", "trace/impl/src/trace_impl.c"]
RTI = ["core/federated/RTI/main.c", "core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c", "core/tag.c", "core/clock.c", "core/federated/network/net_util.c",
       "core/utils/pqueue_base.c", "core/utils/pqueue_tag.c", "core/utils/pqueue.c", "core/utils/util.c", "core/tracepoint.c", "trace/impl/src/trace_impl.c"]
COMMON = ["PLATFORM_Linux", "INITIAL_EVENT_QUEUE_SIZE=10", "INITIAL_REACT_QUEUE_SIZE=10", "LOG_LEVEL=2", "_GNU_SOURCE"]
def node(defs, extra, threaded=True):
    src = BASE + PLAT + HASH + MODAL + (THR if threaded else ["core/reactor.c"]) + extra
    d = COMMON + ["MODAL_REACTORS=1"] + (["NUMBER_OF_WORKERS=2"] if threaded else ["LF_SINGLE_THREADED=1"]) + defs
    return dict(src=src, defs=d, glue=["glue.c"], wrap=["lf_clock_gettime"])
FEDD = ["FEDERATED", "LF_CLOCK_SYNC=1", "NUMBER_OF_FEDERATES=4", "FEDERATE_ID=0", "ADVANCE_MESSAGE_INTERVAL=10000000", '_LF_FEDERATE_NAMES_COMMA_SEPARATED="f0,f1,f2,f3"']
def fed(defs, extra=[], sync=1):
    return node([d if not d.startswith("LF_CLOCK_SYNC=") else "LF_CLOCK_SYNC=%d" % sync for d in FEDD] + ["SCHEDULER=SCHED_NP"] + defs, FED + extra)
def rti(defs=[]):
    src = [s for s in RTI if not s.endswith("RTI/main.c")] + PLAT
    return dict(src=src, defs=COMMON + ["TRACE_BUFFER_CAPACITY=40", "STANDALONE_RTI=1", "FEDERATED=1", "RTI_TRACE"] + defs, glue=["glue_rti.c"], wrap=["lf_tracing_tracepoint", "lf_tracing_global_shutdown"])
def traced(im):
    return dict(im, wrap=im["wrap"] + ["lf_tracing_tracepoint", "lf_tracing_global_shutdown"])
IMAGES = {
    "st": node([], [], False),
    "np": node(["SCHEDULER=SCHED_NP"], []),
    "gedf": node(["SCHEDULER=SCHED_GEDF_NP"], []),
    "adapt": node(["SCHEDULER=SCHED_ADAPTIVE"], []),
    "tst": traced(node(["LF_TRACE", "TRACE_BUFFER_CAPACITY=5"], TRACE, False)),
    "tnp": traced(node(["SCHEDULER=SCHED_NP", "LF_TRACE", "TRACE_BUFFER_CAPACITY=8"], TRACE)),
    "tgedf": traced(node(["SCHEDULER=SCHED_GEDF_NP", "LF_TRACE"], TRACE)),
    "fedc": fed(["FEDERATED_CENTRALIZED"]),
    "tfedc": traced(fed(["FEDERATED_CENTRALIZED", "LF_TRACE", "TRACE_BUFFER_CAPACITY=40"], TRACE)),
    "fedd": fed(["FEDERATED_DECENTRALIZED"]),
    "afedc": fed(["FEDERATED_CENTRALIZED", "FEDERATED_AUTHENTICATED"]),
    "fedci": fed(["FEDERATED_CENTRALIZED"], sync=2),
    "fedcs": fed(["FEDERATED_CENTRALIZED"], sync=3),
    "rti": rti(["__RTI_AUTH__"]),
    "adv": dict(src=[], defs=COMMON, glue=["adv.c"], wrap=[]),
}
COPIES = {"fedci": 4, "fedcs": 4, "fedc": 4, "fedd": 4, "tfedc": 4, "afedc": 4, "adv": 3}
CFLAGS = ["-O1", "-g1", "-fPIC", "-std=gnu11", "-fsanitize=thread", "-mllvm", "-tsan-instrument-func-entry-exit=0", "-femulated-tls", "-U_FORTIFY_SOURCE", "-fno-stack-protector",
          "-fno-omit-frame-pointer", "-fno-builtin-printf", "-fno-builtin-fprintf", "-fno-builtin-puts", "-w"]

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError("build step failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def repo_files():
    out = []
    for top in ("core", "include", "lib", "low_level_platform", "platform", "tag", "trace", "logging", "version"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            out += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h"))]
    return out
def sim_files(sub):
    d = os.path.join(VERIF, "sim", sub)
    return [os.path.join(d, f) for f in os.listdir(d) if f.endswith((".c", ".h", ".cpp"))]
def build_exe(pool):
    fs = sim_files("core") + [os.path.join(VERIF, "sim", "abi.h")]
    key = digest(fs, "exe3")
    out = os.path.join(BUILD, "exe-" + key)
    exe = os.path.join(out, "sim")
    if os.path.exists(exe): return exe
    tmp = out + ".tmp%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
    objs, jobs = [], []
    for f in fs:
        if not f.endswith(".cpp"): continue
        o = os.path.join(tmp, os.path.basename(f) + ".o"); objs.append(o)
        jobs.append(pool.submit(sh, [CXX, "-std=c++17", "-O2", "-g1", "-fPIC", "-fno-omit-frame-pointer", "-Wall", "-Wno-unused-function", "-Wno-vla-cxx-extension", "-U_FORTIFY_SOURCE", "-c", f, "-o", o]))
    for j in jobs: j.result()
    sh([CXX, "-rdynamic", "-o", os.path.join(tmp, "sim")] + objs + ["-ldl", "-lm", "-lpthread", "-lcrypto"])
    for o in objs: os.remove(o)
    try: os.rename(tmp, out)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return exe
def build_images(names, copies, pool):
    """names: image names; copies: name -> number of private copies."""
    inputs = repo_files() + sim_files("node") + [os.path.join(VERIF, "sim", "abi.h")]
    key = digest(inputs, repr(CFLAGS) + repr(WRAP) + repr(sorted((k, v["src"], v["defs"], v["glue"], v.get("wrap")) for k, v in IMAGES.items())))
    out = os.path.join(BUILD, "img-" + key); os.makedirs(out, exist_ok=True)
    todo = [n for n in names if not os.path.exists(os.path.join(out, n + ".so"))]
    jobs = {}
    for n in todo:
        im = IMAGES[n]; od = os.path.join(out, n + ".o.%d" % os.getpid()); os.makedirs(od, exist_ok=True)
        flags = CFLAGS + ["-D" + d for d in im["defs"]] + ["-I" + os.path.join(REPO, i) for i in INC] + ["-I" + os.path.join(VERIF, "sim"), "-I" + os.path.join(VERIF, "sim", "node")]
        js = []
        for s in im["src"] + im["glue"]:
            p = os.path.join(VERIF, "sim", "node", s) if s in im["glue"] else os.path.join(REPO, s)
            o = os.path.join(od, s.replace("/", "_") + ".o")
            js.append((o, pool.submit(sh, [CC] + flags + im.get("cflags", []) + ["-c", p, "-o", o])))
        jobs[n] = (od, js)
    for n in todo:
        od, js = jobs[n]
        for o, j in js: j.result()
        tmp = os.path.join(od, n + ".so")
        sh([CC, "-shared", "-nostdlib", "-Wl,-Bsymbolic", "-Wl,-z,now", "-o", tmp] + [o for o, _ in js] + ["-Wl,--wrap=" + w for w in WRAP + IMAGES[n].get("wrap", [])])
        os.rename(tmp, os.path.join(out, n + ".so")); shutil.rmtree(od)
    for n in names:
        for k in range(copies.get(n, 1)):
            c = os.path.join(out, "%s.%d.so" % (n, k))
            if not os.path.exists(c):
                shutil.copy(os.path.join(out, n + ".so"), c + ".tmp%d" % os.getpid()); os.rename(c + ".tmp%d" % os.getpid(), c)
    return out
def prune():
    if not os.path.isdir(BUILD): return
    ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD)), key=lambda p: os.path.getmtime(p))
    for kind in ("exe-", "img-"):
        l = [d for d in ds if os.path.basename(d).startswith(kind)]
        for d in l[:-6]: shutil.rmtree(d, ignore_errors=True)
def build(names=None, copies=None):
    os.makedirs(BUILD, exist_ok=True); prune()
    names = list(names or IMAGES)
    with cf.ThreadPoolExecutor(8) as pool:
        exe = build_exe(pool)
        img = build_images(names, copies or COPIES, pool)
    os.utime(os.path.dirname(exe)); os.utime(img)
    return exe, img
if __name__ == "__main__":
    try:
        print(*build(sys.argv[1:] or None))
    except RuntimeError as e:
        print(e); sys.exit(2)
