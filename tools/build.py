#!/usr/bin/env python3
"""Builds the simulator (from /verif/sim) and the code under test (from /repo's working tree)."""
import os, sys, subprocess, hashlib, shutil, tempfile, fcntl
VERIF = os.path.realpath(os.path.join(os.path.dirname(__file__), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM_SRC = ["core.cpp", "kern.cpp", "image.cpp", "model.cpp", "ring.cpp", "tool.cpp", "bwlib.cpp", "mnt.cpp", "bwt.cpp", "gen.cpp", "main.cpp"]
CXX = ["/usr/bin/g++", "-std=c++17", "-O2", "-g", "-Wall", "-D_GNU_SOURCE"]
CC = ["/usr/bin/gcc", "-g", "-O1", "-w", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0",
      "-fno-builtin", "-fPIC", "-U_FORTIFY_SOURCE", "-fstack-protector-strong", "-fno-strict-aliasing",
      "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]
NPROC = 16

def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout))
    return r.stdout

def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name), "w")
    def __enter__(self): fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def build_sim():
    d = os.path.join(VERIF, "sim")
    files = sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".h")))
    tag = digest(files, " ".join(CXX))
    out = os.path.join(BUILD, "sim-" + tag)
    exe = os.path.join(out, "sim")
    with Lock("sim.lock"):
        if os.path.exists(exe):
            return exe
        for old in os.listdir(BUILD):
            if old.startswith("sim-"): shutil.rmtree(os.path.join(BUILD, old), ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        procs, objs = [], []
        for s in SIM_SRC:
            o = os.path.join(tmp, s[:-4] + ".o"); objs.append(o)
            procs.append((s, subprocess.Popen(CXX + ["-c", os.path.join(d, s), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        bad = ""
        for s, p in procs:
            t = p.communicate()[0]
            if p.returncode: bad += t
            elif t.strip(): sys.stderr.write(t)
        if bad: shutil.rmtree(tmp); raise RuntimeError("simulator build failed:\n" + bad)
        run(CXX + ["-rdynamic", "-o", os.path.join(tmp, "sim")] + objs + ["-ldl"])
        os.rename(tmp, out)
    return exe

# calls with effects outside the process that the simulator does not model: they end the run instead of reaching the real system
ESCAPES = set("""unlinkat renameat renameat2 linkat symlink symlinkat rmdir mkdirat mknod mknodat mkfifo freopen popen
 system execv execvp execvpe execl execlp execle fexecve fork vfork clone posix_spawn posix_spawnp daemon pthread_create chmod fchmod fchmodat chown fchown
 lchown setuid setgid seteuid setegid setreuid setresuid prctl ptrace mkstemp mkstemp64 mkostemp mkdtemp tmpfile tmpnam shm_open shm_unlink sem_open
 sem_unlink shmget shmat semget semop msgget mq_open pipe pipe2 eventfd timerfd_create timerfd_settime dup2 dup3 pselect ppoll wait waitpid waitid
 wait3 wait4 killpg raise pthread_kill tgkill sigqueue timer_create sync syncfs sync_file_range sendfile sendfile64 splice tee vmsplice
 copy_file_range inotify_init inotify_init1 fanotify_init getpeername socketpair sendmmsg syscall preadv pwritev preadv2 pwritev2
 fchdir chroot umount2 reboot pivot_root unshare setns sigwait sigwaitinfo sigtimedwait sigsuspend pause nice sched_setaffinity setrlimit prlimit
 memfd_create mremap mprotect mlockall munlockall sbrk brk scandir ftw nftw utime utimes futimes futimens utimensat epoll_pwait2 clock_nanosleep
 statx statvfs statvfs64 fstatvfs fstatvfs64 fstatfs fstatfs64 dirfd fdopendir rewinddir atexit on_exit quick_exit getrandom getentropy
 arc4random random rand syslog openlog sigpending memalign valloc sem_wait clock_settime settimeofday adjtime swapon swapoff acct sethostname vhangup quotactl setsid setpgid tcsetattr process_vm_readv process_vm_writev""".split())

def build_sut(exe):
    """Returns a directory with 16 private copies of the library image and of the tool image."""
    src = {"src/shr.c": "shr", "lib/bw.c": "bw", "lib/ux.c": "ux", "util/shr-tool.c": "tool", "lib/bw-tool.c": "bwtool"}
    files = [os.path.join(REPO, f) for f in src]
    for d in ("src", "lib", "util"):
        p = os.path.join(REPO, d)
        files += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".h") or (f.endswith(".c") and d + "/" + f not in src)]
    sup = os.path.join(VERIF, "sim", "support.c")
    tag = digest(files + [sup, os.path.abspath(__file__)], " ".join(CC) + exe)
    out = os.path.join(BUILD, "sut-" + tag)
    with Lock("sut.lock"):
        if os.path.exists(out):
            os.utime(out)
            return out
        olds = sorted((os.path.getmtime(os.path.join(BUILD, o)), o) for o in os.listdir(BUILD) if o.startswith("sut-"))
        for _, o in olds[:-3]: shutil.rmtree(os.path.join(BUILD, o), ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=BUILD)
        try:
            sx = set()
            for l in run(["nm", "-D", "--defined-only", exe]).splitlines():
                n = l.split()[-1]
                if n.startswith("sx_"): sx.add(n[3:])
            objs = {}
            inc = ["-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "lib")]
            for f, o in src.items():
                objs[o] = os.path.join(tmp, o + ".o")
                extra = ["-Dmain=sut_main"] if o in ("tool", "bwtool") else []
                run(CC + inc + extra + ["-c", os.path.join(REPO, f), "-o", objs[o]])
            objs["support"] = os.path.join(tmp, "support.o")
            run(["/usr/bin/gcc", "-O1", "-fPIC", "-D_GNU_SOURCE"] + inc + ["-c", sup, "-o", objs["support"]])
            def link(name, parts):
                rel = os.path.join(tmp, "all-" + name + ".o")
                run(["ld", "-r", "-o", rel] + [objs[p] for p in parts])
                und = [l.split()[-1].split("@")[0] for l in run(["nm", "-u", rel]).splitlines()]
                ren = os.path.join(tmp, name + ".ren")
                with open(ren, "w") as fp:
                    for u in und:
                        if u in sx: fp.write("%s sx_%s\n" % (u, u))
                        elif u in ESCAPES: fp.write("%s sx_unsupported\n" % u)
                run(["objcopy", "--redefine-syms=" + ren, rel])
                so = os.path.join(tmp, name + ".so")
                run(["/usr/bin/gcc", "-shared", "-Wl,-z,now", "-Wl,-z,norelro", "-Wl,-Bsymbolic", "-o", so, rel])
                for i in range(NPROC): shutil.copyfile(so, os.path.join(tmp, name + "%d.so" % i))
            link("lib", ["shr", "bw", "ux", "support"])
            link("tool", ["shr", "bw", "ux", "tool", "support"])
            link("bwtool", ["shr", "bw", "ux", "bwtool", "support"])
        except Exception:
            shutil.rmtree(tmp, ignore_errors=True); raise
        os.rename(tmp, out)
    return out

if __name__ == "__main__":
    e = build_sim()
    print(e)
    if len(sys.argv) > 1 and sys.argv[1] == "sut":
        print(build_sut(e))
