#!/usr/bin/env python3
"""Generate a ninja file that builds PDC client/server/commons from /repo plus the /verif harnesses.

usage: build.py TARGET...   (targets are ninja outputs relative to the build dir)
Everything is rebuilt from /repo's current working tree (ninja + depfiles).
"""
import glob, os, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PDC_REPO", "/repo")
SRC = REPO + "/src"
OUT = os.environ.get("VERIF_BUILD", VERIF + "/.build")

CLIENT = """api/pdc.c api/pdc_client_connect.c api/pdc_obj/pdc_prop.c api/pdc_obj/pdc_cont.c api/pdc_obj/pdc_obj.c
api/pdc_obj/pdc_mpi.c api/pdc_analysis/pdc_analysis_and_transforms_connect.c api/pdc_analysis/pdc_analysis_common.c
api/pdc_analysis/pdc_analysis.c api/pdc_analysis/pdc_hist_pkg.c api/pdc_query/pdc_query.c api/pdc_region/pdc_region.c
api/pdc_region/pdc_region_transfer.c api/pdc_transform/pdc_transform.c api/pdc_transform/pdc_transforms_common.c
server/pdc_client_server_common.c server/pdc_server_region/pdc_server_region_transfer.c
server/pdc_server_region/pdc_server_region_cache.c server/pdc_server_region/pdc_server_region_transfer_metadata_query.c
utils/pdc_interface.c utils/pdc_region_utils.c""".split()
SERVER = """server/pdc_server.c server/pdc_server_metadata_index.c server/pdc_server_metadata.c
server/pdc_client_server_common.c server/dablooms/pdc_dablooms.c server/dablooms/pdc_murmur.c server/pdc_hash-table.c
server/pdc_server_analysis/pdc_server_analysis.c server/pdc_server_region/pdc_server_data.c
server/pdc_server_region/pdc_server_region_cache.c server/pdc_server_region/pdc_server_region_transfer.c
server/pdc_server_region/pdc_server_region_transfer_metadata_query.c utils/pdc_region_utils.c
api/pdc_analysis/pdc_analysis_common.c api/pdc_analysis/pdc_hist_pkg.c api/pdc_transform/pdc_transforms_common.c""".split()


def commons():
    r = []
    for d in ("collections", "file", "generic", "index/dart", "profiling", "utils"):
        for f in sorted(glob.glob(f"{SRC}/commons/{d}/*.c")):
            if not f.endswith("_test.c"):
                r.append(os.path.relpath(f, SRC))
    return r


def incdirs():
    dirs = []
    for base in ("api", "server", "commons", "utils"):
        for d, _, fs in os.walk(f"{SRC}/{base}"):
            if "serde" in d or "/tests" in d:
                continue
            if any(f.endswith(".h") for f in fs):
                dirs.append(d)
    return sorted(dirs) + [SRC + "/tools/cjson"]


CONFIGS = {
    # name -> (defines to set, defines to unset)
    "def": {},
    "nocache": {"PDC_SERVER_CACHE": None},
    "noprefix": {"PDC_DART_SFX_TREE": None},
}


def write_if_changed(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s:
        return
    open(p, "w").write(s)


def config_headers():
    sysin = open(f"{REPO}/pdc_config_sys.h.cmake").read().splitlines()
    base = {"ENABLE_MPI": "", "PDC_SERVER_CACHE": "", "PDC_ENABLE_CHECKPOINT": "", "PDC_DART_SFX_TREE": "",
            "HAVE_ATTRIBUTE": ""}
    sizes = {"FLOAT": 4, "DOUBLE": 8, "CHAR": 1, "SINT": 2, "INT": 4, "LINT": 8, "LLINT": 8, "UINT": 4, "ULINT": 8,
             "ULLINT": 8, "64INT": 8, "U64INT": 8}
    import re
    for name, over in CONFIGS.items():
        d = dict(base)
        for k, v in over.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        out = []
        for l in sysin:
            m = re.match(r"#cmakedefine\s+(\w+)(.*)", l)
            if m:
                if m.group(1) in d:
                    out.append(f"#define {m.group(1)} {d[m.group(1)]}")
                else:
                    out.append(f"/* #undef {m.group(1)} */")
                continue
            m = re.match(r"(#define\s+VAR_SIZE_(\w+)\s+)@.*@", l)
            if m and m.group(2) in sizes:
                out.append(m.group(1) + str(sizes[m.group(2)]))
                continue
            out.append(l)
        write_if_changed(f"{OUT}/cfg-{name}/pdc_config_sys.h", "\n".join(out) + "\n")
        cfg = open(f"{REPO}/pdc_config.h.in").read()
        cfg = re.sub(r"#cmakedefine\s+(\w+)", r"/* #undef \1 */", cfg)
        write_if_changed(f"{OUT}/cfg-{name}/pdc_config.h", cfg)


WRAPS = ("pthread_detach pthread_self pthread_kill prctl pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast sigaction pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock pthread_mutex_init "
         "pthread_mutex_destroy sleep usleep time gettimeofday clock_gettime exit "
         "open open64 creat close pread pwrite pread64 pwrite64 read write lseek lseek64 fopen fopen64 fileno stat access mkdir unlink rename remove "
         "ftruncate fsync gethostname getpid "
         "opendir readdir closedir mkdtemp truncate fstat fdatasync system chdir shm_open shm_unlink").split()


class Gen:
    def __init__(self):
        self.l = []
        inc = " ".join("-I" + d for d in incdirs())
        simd = f"-I{VERIF}/sim/include -I{VERIF}/sim"
        base = f"-std=gnu99 -fcommon -g -O1 -fno-omit-frame-pointer -fPIC -w {simd} {inc}"
        # optional: shrink compile-time constants that only set sizes (declared by the harness config)
        self.l += [
            f"base = {base}",
            "rule cc", "  command = gcc $base $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
            "rule so", "  command = gcc -shared -Wl,-Bsymbolic $lf -o $out $in -lm",
            "rule exe", "  command = gcc -g $lf -o $out $in -lm -ldl -lpthread",
            "rule ar", "  command = rm -f $out && ar rcs $out $in",
            "rule run", "  command = $cmd", "",
        ]
        self.objs = {}

    def obj(self, src, tag, flags):
        o = f"obj-{tag}/" + src.strip("/").replace("/", "_") + ".o"
        if o not in self.objs:
            self.objs[o] = 1
            self.l += [f"build {o}: cc {src}", f"  flags = {flags}"]
        return o


def gen():
    config_headers()
    g = Gen()
    wrap = " ".join(f"-Wl,--wrap={w}" for w in WRAPS)
    cm = commons()
    variants = {"def": ("def", ""), "asan": ("def", "-fsanitize=address"), "nocache": ("nocache", "")}
    for v, (cfg, fl) in variants.items():
        cf = f"-I{OUT}/cfg-{cfg} -Dpthread_create=sim_pthread_create {fl}"
        cl = [g.obj(f"{SRC}/{s}", f"c-{v}", cf) for s in CLIENT + cm]
        sd = " -DIS_PDC_SERVER=1 -DPDC_LUSTRE_TOTAL_OST=1"
        sv = [g.obj(f"{SRC}/{s}", f"s-{v}", cf + sd) for s in SERVER]
        # commons is a library upstream: the server's own hash table wins over the commons one
        g.l += [f"build libcommons-s-{v}.a: ar " + " ".join(g.obj(f"{SRC}/{s}", f"s-{v}", cf + sd) for s in cm)]
        sv += [f"libcommons-s-{v}.a"]
        heap = " ".join(f"-Wl,--wrap={w}" for w in "malloc calloc realloc free strdup strndup".split())
        g.l += [f"build server-{v}.so: so {' '.join(sv)}", f"  lf = {wrap} {heap} {fl}"]
        for drv in sorted(glob.glob(f"{VERIF}/drivers/*.c")):
            n = os.path.basename(drv)[:-2]
            d = g.obj(drv, f"c-{v}", cf + (f" -I{SRC} -I{SRC}/tools" if n == "ls" else ""))
            g.l += [f"build client-{v}-{n}.so: so {d} {' '.join(cl)}", f"  lf = {wrap} {fl}"]
        so = g.obj(f"{VERIF}/sim/sim.c", f"sim-{v}", "-D_GNU_SOURCE -Wall " + fl)
        fo = g.obj(f"{VERIF}/sim/memfs.c", f"sim-{v}", "-D_GNU_SOURCE -Wall " + fl)
        xo = g.obj(f"{VERIF}/sim/explore.c", f"sim-{v}", "-D_GNU_SOURCE -Wall " + fl)
        mo = g.obj(f"{VERIF}/sim/main.c", f"sim-{v}", "-D_GNU_SOURCE -Wall " + fl)
        g.l += [f"build simrun-{v}: exe {so} {fo} {xo} {mo}", f"  lf = -rdynamic {fl}"]
    # direct (commons) harnesses: each links commons + mercury-free pieces statically
    pure = cm + ["server/dablooms/pdc_dablooms.c", "server/dablooms/pdc_murmur.c", "server/pdc_hash-table.c",
                 "utils/pdc_region_utils.c", "tools/cjson/cJSON.c"]
    for v, fl in (("o", ""), ("asan", "-fsanitize=address -O1")):
        cf = f"-I{OUT}/cfg-def {fl}"
        # these sources never call Mercury; the simulated headers only satisfy #include
        po = [g.obj(f"{SRC}/{s}", f"p-{v}", cf) for s in pure if s != "server/pdc_hash-table.c"]
        g.l += [f"build libpure-{v}.a: ar {' '.join(po)}"]
        xo = g.obj(f"{VERIF}/sim/explore.c", f"p-{v}", cf + " -D_GNU_SOURCE -Wall")
        for drv in sorted(glob.glob(f"{VERIF}/direct/*.c")):
            n = os.path.basename(drv)[:-2]
            d = g.obj(drv, f"p-{v}", cf + f" -D_GNU_SOURCE -I{SRC}")
            opt = dict(l[3:].split(":", 1) for l in open(drv).read().splitlines()[:4] if l.startswith("// ") and ":" in l)
            w = " ".join(f"-Wl,--wrap={x}" for x in opt.get("wrap", "").split())
            ex = [g.obj(f"{SRC}/{s}", f"p-{v}", cf) for s in opt.get("src", "").split()]
            g.l += [f"build direct-{v}-{n}: exe {d} {xo} {' '.join(ex)} libpure-{v}.a", f"  lf = {fl} {w}"]
    write_if_changed(f"{OUT}/build.ninja", "\n".join(g.l) + "\n")


def main():
    os.makedirs(OUT, exist_ok=True)
    gen()
    r = subprocess.run(["ninja", "-C", OUT, "-j8"] + sys.argv[1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        lines = [l for l in r.stdout.splitlines() if "error" in l or "undefined" in l or "FAILED" in l or "multiple" in l]
        sys.stdout.write("\n".join(l[:300] for l in lines[:30]) + "\nBUILD FAILED\n")
        sys.exit(2)


if __name__ == "__main__":
    main()
