#!/usr/bin/env python3
"""Builds the simulator together with the code under test from /repo's working
tree.  usage: build.py FLAVOR  ->  prints the path of the executable.
Flavors: fast (plain), asan, cov.  Everything is rebuilt whenever any source of
/repo or of the simulator differs (content hash); nothing is written in /repo."""
import sys, os, subprocess, hashlib, glob, fcntl, shutil, re
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("PARTED_REPO", "/repo")
B = R + "/_build"

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        sys.stderr.write("build: %s\n%s\n" % (" ".join(cmd), r.stdout.decode(errors="replace")[:3000]))
        raise SystemExit(4)
    return r.stdout

S390 = {"dasd.c", "fdasd.c", "vtoc.c"}
def sources():
    lp = [f for f in glob.glob(R + "/libparted/*.c")]
    lp += glob.glob(R + "/libparted/cs/*.c") + [R + "/libparted/arch/linux.c"]
    lp += [f for f in glob.glob(R + "/libparted/labels/*.c") if os.path.basename(f) not in S390 | {"pt-limit.c"}]
    for d in sorted(glob.glob(R + "/libparted/fs/*")):
        if os.path.isdir(d) and os.path.basename(d) != "r":
            lp += glob.glob(d + "/*.c")
    fsr = glob.glob(R + "/libparted/fs/r/*.c") + glob.glob(R + "/libparted/fs/r/*/*.c")
    cli = [f for f in glob.glob(R + "/parted/*.c") if os.path.basename(f) != "version.c"]
    pp = glob.glob(R + "/partprobe/*.c")
    return sorted(lp), sorted(fsr), sorted(cli), sorted(pp)

SIM = sorted(glob.glob(V + "/sim/*.c"))
REDEF = {}
for n in ("open openat read write pread pwrite lseek fsync close fcntl stat lstat fstat fstatat access readlink ioctl sync "
          "fopen opendir readdir closedir usleep sleep nanosleep time gettimeofday clock_gettime clock uname "
          "malloc calloc realloc reallocarray posix_memalign strdup free getrandom random rand uuid_generate "
          "realpath sigaction isatty readline fgets add_history current_history history_list rl_initialize "
          "rl_completion_matches rl_attempted_completion_function tgetnum exit atexit getuid "
          "blkid_new_probe blkid_free_probe blkid_probe_set_device blkid_probe_get_topology "
          "blkid_topology_get_alignment_offset blkid_topology_get_minimum_io_size blkid_topology_get_optimal_io_size "
          "blkid_topology_get_logical_sector_size blkid_topology_get_physical_sector_size "
          "dm_task_create dm_task_destroy dm_task_set_name dm_task_set_uuid dm_task_set_major_minor dm_task_no_open_count "
          "dm_task_retry_remove dm_task_set_cookie dm_udev_wait dm_task_update_nodes dm_udev_set_sync_support dm_set_dev_dir "
          "dm_task_add_target dm_task_run dm_task_get_name dm_task_get_uuid dm_task_get_info dm_task_get_deps dm_get_next_target").split():
    REDEF[n] = "sim_" + n
ALIAS = {"open64": "open", "openat64": "openat", "pread64": "pread", "pwrite64": "pwrite", "lseek64": "lseek",
         "fdatasync": "fsync", "fopen64": "fopen", "stat64": "stat", "lstat64": "lstat", "fstat64": "fstat",
         "rpl_free": "free", "uuid_generate_random": "uuid_generate", "readdir64": "readdir"}
for n in ALIAS: REDEF[n] = "sim_" + n
REDEF["canonicalize_file_name"] = "sim_canonicalize"
CLIREDEF = {"ped_disk_commit": "sim_ped_disk_commit", "ped_exception_set_handler": "sim_cli_set_handler"}

def digest(flavor, files):
    h = hashlib.sha256()
    h.update(flavor.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]

def main():
    flavor = sys.argv[1]
    if not (os.path.exists(B + "/lib/.libs/libgnulib.a") and os.path.exists(B + "/lib/config.h")):
        subprocess.run(["bash", "/opt/vp/build.sh"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    lp, fsr, cli, pp = sources()
    hdrs = []
    for d in ("libparted", "parted", "partprobe", "include"):
        for root, _, fs in os.walk(R + "/" + d):
            hdrs += [os.path.join(root, f) for f in fs if f.endswith((".h", ".gperf", ".sym", ".in.h"))]
    allf = lp + fsr + cli + pp + sorted(hdrs) + SIM + sorted(glob.glob(V + "/sim/*.h")) + [V + "/build.py", B + "/lib/config.h"]
    key = digest(flavor, allf)
    bd = os.environ.get("VERIF_BUILD", V + "/build")
    os.makedirs(bd, exist_ok=True)
    out = "%s/%s-%s" % (bd, flavor, key)
    exe = out + "/sim"
    with open(bd + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            print(exe); return
        for old in sorted(glob.glob(bd + "/" + flavor + "-*"), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp + "/inc/parted")
        build(flavor, tmp, lp, fsr, cli, pp)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
    print(exe)

def build(flavor, t, lp, fsr, cli, pp):
    # generated sources, by the project's own rules
    for f in glob.glob(R + "/include/parted/*.in.h"):
        s = open(f).read()
        s = re.sub(r" _GL_ATTRIBUTE_CONST\b", "\n#if __GNUC__ > 2 || (__GNUC__ == 2 && __GNUC_MINOR__ >= 96)\n  __attribute ((__const__))\n#endif\n", s)
        s = re.sub(r" _GL_ATTRIBUTE_PURE\b", "\n#if __GNUC__ > 2 || (__GNUC__ == 2 && __GNUC_MINOR__ >= 96)\n  __attribute ((__pure__))\n#endif\n", s)
        open(t + "/inc/parted/" + os.path.basename(f)[:-5] + ".h", "w").write(s)
    g = sh(["gperf", "-C", "-N", "pt_limit_lookup", "-n", "-t", "-s", "6", "-k", "*", "--language=ANSI-C", R + "/libparted/labels/pt-limit.gperf"]).decode()
    g = "".join(("static\n" if "__GNUC_STDC_INLINE__" in l else "") + l for l in g.splitlines(True))
    open(t + "/inc/pt-limit.c", "w").write(g)
    open(t + "/inc/version.h", "w").write("extern char const *Version;\n")
    open(t + "/inc/version.c", "w").write('#include <config.h>\nchar const *Version = "SIM";\n')
    cf = ["-g", "-w", "-std=gnu11", "-U_FORTIFY_SOURCE", "-fno-builtin-malloc", "-fno-builtin-free", "-fno-builtin-strdup", "-fno-builtin-calloc", "-fno-builtin-realloc"]
    lf = []
    if flavor == "asan":
        s = ["-fsanitize=address,bounds,integer-divide-by-zero,null,unreachable", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-O1"]
        cf += s; lf += ["-fsanitize=address,undefined"]
        simf = ["-DSIM_ASAN", "-fsanitize=address", "-O1"]
    elif flavor == "cov":
        cf += ["-O0", "--coverage", "-fprofile-update=atomic"]; lf += ["--coverage"]; simf = ["-DSIM_GCOV", "-O1"]
    else:
        cf += ["-O1"]; simf = ["-O2"]
    inc = ["-I" + t + "/inc", "-I" + B + "/lib", "-I" + R + "/lib", "-I" + R + "/libparted", "-I" + R + "/include", "-I" + R + "/libparted/labels"]
    with open(t + "/redef", "w") as f:
        for a, b in REDEF.items():
            if a != b: f.write("%s %s\n" % (a, b))
    with open(t + "/redefcli", "w") as f:
        for a, b in CLIREDEF.items(): f.write("%s %s\n" % (a, b))
    jobs = []
    def obj(src, pfx, extra=()):
        o = "%s/%s_%s.o" % (t, pfx, src.replace(R, "").replace(V, "").replace("/", "_")[1:-2])
        jobs.append((["gcc"] + cf + list(extra) + inc + ["-I" + os.path.dirname(src), "-c", src, "-o", o]))
        return o
    olp = [obj(f, "lp") for f in lp]
    ofs = [obj(f, "fsr") for f in fsr]
    ocl = [obj(f, "cli", ["-Dmain=parted_main", "-I" + R + "/parted"]) for f in cli] + [obj(t + "/inc/version.c", "cli")]
    opp = [obj(f, "pp", ["-Dmain=partprobe_main"]) for f in pp]
    osim = []
    for f in SIM:
        o = "%s/sim_%s.o" % (t, os.path.basename(f)[:-2]); osim.append(o)
        jobs.append(["gcc", "-g", "-std=gnu11", "-Wall", "-Wno-format-truncation", "-Wno-unused-result", "-Wno-stringop-truncation", "-D_GNU_SOURCE"] + simf + ["-I" + t + "/inc", "-I" + R + "/include", "-I" + V + "/sim", "-c", f, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(sh, jobs))
    gl = B + "/lib/.libs/libgnulib.a"
    if not os.path.exists(gl): gl = B + "/lib/libgnulib.a"
    def part(objs, name, keep=None, redefs=("redef",), gnulib=False):
        o = "%s/%s.o" % (t, name)
        sh(["ld", "-r", "-o", o] + objs + ([gl] if gnulib else []))
        cmd = ["objcopy"]
        for r in redefs: cmd.append("--redefine-syms=%s/%s" % (t, r))
        sh(cmd + [o])
        if keep is not None:
            open(o + ".keep", "w").write("\n".join(keep) + "\n")
            sh(["objcopy", "--keep-global-symbols=" + o + ".keep", o])
        return o
    sym = re.findall(r"^\s*([a-z_0-9]+);", open(R + "/libparted/fs/fsresize.sym").read(), re.M)
    a = part(olp, "libparted")
    b = part(ofs, "fsresize", [s for s in sym] + ["ped_file_system_open"])
    c = part(ocl, "cli", ["parted_main", "Version"], ("redef", "redefcli"))
    d = part(opp, "partprobe", ["partprobe_main"], ("redef", "redefcli"))
    sh(["gcc", "-g"] + lf + ["-Wl,--defsym=sim_%s=sim_%s" % kv for kv in ALIAS.items()] + osim + [a, b, c, d, gl, "-luuid", "-o", t + "/sim"])
    if flavor != "cov":
        for f in glob.glob(t + "/*.o"): os.unlink(f)

main()
