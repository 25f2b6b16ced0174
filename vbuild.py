#!/usr/bin/env python3
"""Build the checkers from /repo's current working tree.

Every object is compiled here, from the sources the repository's own Makefiles
list; nothing in /repo is written.  Results are cached under build/ by a hash
of every input.
"""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
NJ = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))
    return r.stdout


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:24]


def repo_inputs():
    out = []
    for d in ("lib", "libcperciva", "spiped", "spipe", "liball"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith((".c", ".h")) or f == "Makefile":
                    out.append(os.path.join(root, f))
    return out


def makevar(mk, var):
    t = open(mk).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=\s*(.*)$" % var, t, re.M)
    return m.group(1).split() if m else []


def find_sources():
    """Sources of liball, and include directories, from the Makefiles."""
    byname = {}
    for d in ("lib", "libcperciva"):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            if "/Build" in root or "/POSIX" in root:
                continue
            for f in files:
                if f.endswith(".c"):
                    byname.setdefault(f, os.path.join(root, f))
    mk = os.path.join(REPO, "liball", "Makefile")
    srcs = []
    for s in makevar(mk, "SRCS"):
        if s in byname:
            srcs.append(byname[s])
        else:
            raise BuildError("no source for " + s)
    inc = set()
    for prog in ("liball", "spiped", "spipe"):
        for i in makevar(os.path.join(REPO, prog, "Makefile"), "IDIRS"):
            inc.add(os.path.normpath(os.path.join(REPO, prog, i[2:])))
    progs = {}
    for prog in ("spiped", "spipe"):
        progs[prog] = [os.path.normpath(os.path.join(REPO, prog, s)) if os.path.exists(os.path.join(REPO, prog, s))
                       else byname[s] for s in makevar(os.path.join(REPO, prog, "Makefile"), "SRCS")]
    mtx = byname.get("optional_mutex.c", os.path.join(REPO, "libcperciva/util/optional_mutex.c"))
    return srcs, sorted(inc), progs, mtx


BASEDEFS = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700",
            '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config-sim.h"',
            '-DAPISUPPORT_CONFIG_FILE="apisupport-config-sim.h"']


def cpuflags(src):
    b = os.path.basename(src)
    f = []
    if "shani" in b:
        f += ["-msse2", "-msha", "-mssse3"]
    elif "sse2" in b:
        f += ["-msse2"]
    elif "ssse3" in b:
        f += ["-mssse3"]
    elif "aesni" in b:
        f += ["-maes"]
    elif "rdrand" in b:
        f += ["-mrdrnd"]
    if b == "crypto_aes.c":
        f += ["-Wno-deprecated-declarations"]
    return f


NOBUILTIN = ["-fno-builtin-" + x for x in
             "memcpy memset memmove memcmp strlen strcpy strncpy strcmp strncmp strchr strrchr printf fprintf "
             "vfprintf puts fputs putchar strdup strndup malloc calloc realloc free".split()]

SIMFLAGS = ["-std=c99", "-O1", "-g", "-fno-pie", "-fno-stack-protector", "-fno-omit-frame-pointer",
            "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-w"] + NOBUILTIN
# Pure computation over caller-supplied memory: not instrumented here (it has
# its own checks under AddressSanitizer), for speed.
PURE = re.compile(r"/(sha256\w*|crypto_aes\w*|crypto_verify_bytes|crypto_dh_group14|cpusupport\w*|insecure_memzero)\.c$")


def sim_compile(jobs):
    with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
        for r in [ex.submit(run, j) for j in jobs]:
            r.result()


PASS = set("""memchr
__isoc99_sscanf __isoc23_sscanf sscanf snprintf vsnprintf sprintf vsprintf strerror strerror_r __xpg_strerror_r gai_strerror inet_pton inet_ntop
inet_addr inet_ntoa htons ntohs htonl ntohl strspn strcspn strpbrk strstr strcat strncat strtok strtok_r strnlen
strcasecmp strncasecmp stpcpy __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc tolower toupper isdigit isspace isalpha
qsort bsearch abs labs fabs floor ceil fmod modf trunc round isnan isinf __isnan __isinf __fpclassify nan
_setjmp __sigsetjmp setjmp longjmp _longjmp siglongjmp sigemptyset sigfillset sigaddset sigdelset sigismember
getauxval sysconf memmem rawmemchr memrchr strsep abort_ bcmp bzero div ldiv ldexp frexp nextafter
if_nametoindex if_indextoname strsignal strcoll mempcpy
AES_encrypt AES_set_encrypt_key ERR_error_string ERR_error_string_n ERR_get_error ERR_free_strings ERR_clear_error ERR_peek_error
BN_add BN_sub BN_mod_mul BN_num_bits BN_set_word BN_cmp BN_is_zero BN_is_one BN_ucmp BN_mod BN_div BN_copy BN_one BN_value_one
BN_mod_add BN_mod_sub BN_mul BN_is_odd BN_is_bit_set BN_set_bit BN_lshift BN_rshift BN_sqr BN_mod_sqr BN_zero_ex BN_is_word BN_add_word BN_sub_word BN_set_flags
EVP_aes_256_ecb OPENSSL_cleanse CRYPTO_memcmp
_GLOBAL_OFFSET_TABLE_ __stack_chk_guard""".split())
# What harnesses use of the explorer and the simulator.
APISYMS = set("choose choose_free violate machine_error x_outcome x_sample x_trace_note x_leaf x_tier x_bound x_enabled x_verbose x_count W "
              "w_user w_user2 w_sysfailed w_kill w_cur w_timer pat patfill chan_avail chan_write mkaddr".split())
SPECIAL = {"access": "sim_access_"}


def undefined(obj):
    out = run(["nm", "-u", obj])
    return sorted({l.split()[-1].split("@")[0] for l in out.splitlines() if l.strip()})


def simdefs(objs):
    d = set()
    for o in objs:
        for l in run(["nm", "--defined-only", "-g", o]).splitlines():
            d.add(l.split()[-1])
    return d


def sim_inputs():
    out = []
    for d in ("sim", "sim/inc", "harness"):
        p = os.path.join(HERE, d)
        if os.path.isdir(p):
            out += [os.path.join(p, f) for f in os.listdir(p) if f.endswith((".c", ".h"))]
    out.append(os.path.abspath(__file__))
    return out


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def image(objs, outdir, name, mainsym, simsyms, stubs, extra_keep=()):
    comb = os.path.join(outdir, name + ".comb.o")
    run(["ld", "-r", "-o", comb] + objs)
    mapf = os.path.join(outdir, name + ".map")
    with open(mapf, "w") as f:
        for u in undefined(comb):
            if u.startswith(("__tsan_", "sim_")) or u in PASS or (u in APISYMS and name.startswith("h")):
                continue
            t = SPECIAL.get(u, "sim_" + u)
            if t not in simsyms:
                t = "sim_unsupported_" + re.sub(r"\W", "_", u)
                stubs.add((t, u))
            f.write("%s %s\n" % (u, t))
    return comb, mapf


def instance(comb, mapf, out, renames):
    """Rename what links it to the system; give its data sections of their own."""
    name = os.path.basename(out)[2:-2]
    cmd = ["objcopy", "--redefine-syms=" + mapf]
    n = 0
    lines = run(["objdump", "-h", "-w", comb]).splitlines()
    for l in lines:
        w = l.split()
        if len(w) > 5 and w[0].isdigit() and "ALLOC" in l and "READONLY" not in l and "CODE" not in l and int(w[2], 16) > 0:
            if n == 3:
                raise BuildError("unexpected data section %s in %s" % (w[1], name))
            cmd += ["--rename-section", "%s=imgd%d_%s" % (w[1], n, name)]
            n += 1
    for k in renames:
        cmd.append("--keep-global-symbol=" + k)
    tmp = out + ".tmp"
    run(cmd + [comb, tmp])
    cmd = ["objcopy"]
    for k, v in renames.items():
        cmd += ["--redefine-sym", "%s=%s" % (k, v)]
    run(cmd + [tmp, out])
    os.unlink(tmp)


SIMSRC = ["sim.c", "sys.c", "explore.c", "ref.c"]
# checker binaries: name -> (scenario sources, images used, harness sources per image)
from checkers import SIMBINS, NATBINS  # noqa: E402


def build_sim():
    """Build every simulator checker; returns the directory."""
    key = tree_hash(repo_inputs() + sim_inputs() + [os.path.join(HERE, "checkers.py")])
    out = os.path.join(BUILD, "sim-" + key)
    with Lock():
        if os.path.exists(os.path.join(out, ".done")):
            return out
        for d in os.listdir(BUILD):
            if d.startswith("sim-"):
                shutil.rmtree(os.path.join(BUILD, d))
        os.makedirs(out)
        srcs, incs, progs, mtx = find_sources()
        iflags = ["-I" + os.path.join(HERE, "sim/inc"), "-I" + os.path.join(HERE, "sim"), "-I" + REPO] + ["-I" + i for i in incs]
        jobs, libobjs, progobjs, harn = [], [], {}, {}

        def cc(src, obj, extra=(), instr=True):
            fl = SIMFLAGS + cpuflags(src)
            if instr and not PURE.search(src):
                fl = fl + ["-fsanitize=thread"]
            jobs.append(["gcc"] + fl + BASEDEFS + iflags + list(extra) + ["-c", src, "-o", obj])
            return obj
        for s in srcs:
            libobjs.append(cc(s, os.path.join(out, "lib_" + os.path.basename(s)[:-2] + ".o")))
        libobjs.append(cc(mtx, os.path.join(out, "lib_optional_mutex.o"), ["-DOPTIONAL_MUTEX_PTHREAD_YES"]))
        for p, ss in progs.items():
            progobjs[p] = [cc(s, os.path.join(out, p + "_" + os.path.basename(s)[:-2] + ".o")) for s in ss]
        simobjs = []
        for s in SIMSRC:
            o = os.path.join(out, "S_" + s[:-2] + ".o")
            jobs.append(["gcc", "-std=gnu11", "-O2", "-g", "-fno-pie", "-w", "-I" + os.path.join(HERE, "sim"), "-c",
                         os.path.join(HERE, "sim", s), "-o", o])
            simobjs.append(o)
        scenobjs = {}
        for b, spec in SIMBINS.items():
            for s in spec["scen"]:
                o = os.path.join(out, "C_" + s[:-2] + ".o")
                if o not in scenobjs.values():
                    jobs.append(["gcc", "-std=gnu11", "-O2", "-g", "-fno-pie", "-w", "-I" + os.path.join(HERE, "sim"), "-c",
                                 os.path.join(HERE, "sim", s), "-o", o])
                scenobjs[s] = o
            for im, hs in spec.get("harness", {}).items():
                harn[im] = [cc(REPO + h if h[0] == "/" else os.path.join(HERE, "harness", h), os.path.join(out, "H_" + os.path.basename(h)[:-2] + ".o"),
                               ["-I" + os.path.join(REPO, "spipe")]) for h in hs if h[0] != "/" or os.path.exists(REPO + h)]
        sim_compile(jobs)
        simsyms = simdefs(simobjs)
        stubs = set()
        combs = {}
        need = set()
        for b, spec in SIMBINS.items():
            need |= set(spec["images"])
        insts = {}
        for im in sorted(need):
            base = im.rsplit("_", 1)[0]
            if base not in combs:
                if base in progobjs:
                    objs = progobjs[base] + lib_needed(progobjs[base], libobjs)
                else:
                    objs = harn[base] + lib_needed(harn[base], libobjs)
                combs[base] = image(objs, out, base, "main", simsyms, stubs)
        with open(os.path.join(out, "stubs.c"), "w") as f:
            f.write('#include "explore.h"\n')
            f.write('struct imgent { int (*mainfn)(int, char **); char * b[6]; };\n')
            for im in sorted(need):
                f.write('extern int %s_main(int, char **) __attribute__((weak));\n' % im)
                for k in range(3):
                    f.write('extern char __start_imgd%d_%s[] __attribute__((weak)), __stop_imgd%d_%s[] __attribute__((weak));\n' % (k, im, k, im))
            f.write('struct imgent img_table[] = {\n')
            for im in sorted(need):
                f.write('{ %s_main, { %s } },\n' % (im, ", ".join("__start_imgd%d_%s, __stop_imgd%d_%s" % (k, im, k, im) for k in range(3))))
            f.write('{ 0, { (char *)-1 } } };\n')
            for t, u in sorted(stubs):
                f.write('void %s(void) { machine_error("the program called %s, which the simulated system does not provide"); }\n' % (t, u))
        run(["gcc", "-w", "-O1", "-fno-pie", "-I" + os.path.join(HERE, "sim"), "-c", os.path.join(out, "stubs.c"), "-o", os.path.join(out, "stubs.o")])
        ij = []
        with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
            for im in sorted(need):
                base = im.rsplit("_", 1)[0]
                insts[im] = os.path.join(out, "I_" + im + ".o")
                ij.append(ex.submit(instance, combs[base][0], combs[base][1], insts[im], {"main": im + "_main"}))
            for j in ij:
                j.result()
            lj = []
            for b, spec in SIMBINS.items():
                lj.append(ex.submit(run, ["gcc", "-no-pie", "-o", os.path.join(out, b)] + simobjs +
                                    [scenobjs[s] for s in spec["scen"]] + [insts[i] for i in spec["images"]] +
                                    [os.path.join(out, "stubs.o"), "-lcrypto", "-lm"]))
            for j in lj:
                j.result()
        open(os.path.join(out, ".done"), "w").close()
    return out


def lib_needed(roots, libobjs):
    """Resolve like a static library: only the objects that are needed."""
    defs = {}
    und = {}
    for o in libobjs:
        for l in run(["nm", "--defined-only", "-g", o]).splitlines():
            defs.setdefault(l.split()[-1], o)
    need, todo, seen = [], list(roots), set()
    while todo:
        o = todo.pop()
        for u in undefined(o):
            d = defs.get(u)
            if d and d not in seen:
                seen.add(d)
                need.append(d)
                todo.append(d)
    return sorted(need)


def all_bins():
    return list(SIMBINS) + list(NATBINS)


NATFLAGS = ["-std=gnu99", "-O1", "-g", "-fsanitize=address", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-w"]
NATWRAP = "malloc calloc realloc free strdup".split()


def build_nat():
    """Build every native checker; returns the directory."""
    nd = os.path.join(HERE, "nat")
    mine = [os.path.join(nd, f) for f in os.listdir(nd) if f.endswith((".c", ".h"))]
    key = tree_hash(repo_inputs() + mine + [os.path.join(HERE, "checkers.py"), os.path.abspath(__file__)])
    out = os.path.join(BUILD, "nat-" + key)
    with Lock():
        if os.path.exists(os.path.join(out, ".done")):
            return out
        for d in os.listdir(BUILD):
            if d.startswith("nat-"):
                shutil.rmtree(os.path.join(BUILD, d))
        os.makedirs(out)
        srcs, incs, progs, mtx = find_sources()
        iflags = ["-I" + nd, "-I" + os.path.join(HERE, "sim"), "-I" + REPO] + ["-I" + i for i in incs]
        defs = [d.replace("cpusupport-config-sim.h", "cpusupport-config-nat.h") for d in BASEDEFS]
        jobs, libobjs = [], []
        for s in srcs:
            o = os.path.join(out, "lib_" + os.path.basename(s)[:-2] + ".o")
            jobs.append(["gcc"] + NATFLAGS + cpuflags(s) + defs + iflags + ["-c", s, "-o", o])
            libobjs.append(o)
        own = {}
        for s in ["nat.c", "nref.c"]:
            own[s] = os.path.join(out, "N_" + s[:-2] + ".o")
            jobs.append(["gcc"] + NATFLAGS + defs + iflags + ["-c", os.path.join(nd, s), "-o", own[s]])
        sim_compile(jobs)

        def snapable(obj, b):
            """Writable data in sections of their own, for nat_save() and nat_load()."""
            cmd, n = ["objcopy"], 0
            for l in run(["objdump", "-h", "-w", obj]).splitlines():
                w = l.split()
                if len(w) > 5 and w[0].isdigit() and "ALLOC" in l and "READONLY" not in l and "CODE" not in l and int(w[2], 16) > 0 \
                        and re.match(r"\.(data|bss)(\.|$)", w[1]):
                    cmd += ["--rename-section", "%s=natsnap%d" % (w[1], 0 if w[1].startswith(".data") else 1)]
                    n += 1
            if n == 0:
                return obj
            to = obj[:-2] + "." + b + ".o"
            run(cmd + [obj, to])
            return to

        def one(b, spec):
            o = os.path.join(out, "N_" + b + ".o")
            run(["gcc"] + NATFLAGS + defs + iflags + ["-c", os.path.join(nd, spec["src"]), "-o", o])
            objs = [own["nat.c"], own["nref.c"], o]
            libs = lib_needed(objs, libobjs)
            if spec.get("snap"):
                libs = [snapable(l, b) for l in libs]
            run(["gcc", "-fsanitize=address", "-o", os.path.join(out, b)] + objs + libs +
                ["-Wl,--wrap=" + w for w in NATWRAP + spec.get("wrap", [])] + ["-lcrypto", "-lpthread", "-lm"])
        with concurrent.futures.ThreadPoolExecutor(NJ) as ex:
            for b, j in [(b, ex.submit(one, b, spec)) for b, spec in NATBINS.items()]:
                try:
                    j.result()
                except BuildError as e:
                    # Only the properties which need it are affected.
                    with open(os.path.join(out, b + ".failed"), "w") as f:
                        f.write(str(e))
        open(os.path.join(out, ".done"), "w").close()
    return out


def build_all(need=None):
    """Every checker: name -> path; those for property `need' (or all) must be there."""
    sim, nat = build_sim(), build_nat()
    r = {b: os.path.join(sim, b) for b in SIMBINS}
    for b, spec in NATBINS.items():
        p = os.path.join(nat, b)
        if os.path.exists(p):
            r[b] = p
        elif need is None or need in spec["props"]:
            raise BuildError(open(p + ".failed").read())
    return r


def outdir():
    d = os.path.join(BUILD, "out")
    os.makedirs(d, exist_ok=True)
    return d


if __name__ == "__main__":
    for b, p in build_all().items():
        print(b, p)
