"""Builds the simulation binary from /repo's working tree (content-addressed object cache in /verif/build)."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEFS = ("-DLM_EXPORTS -D_SILENCE_ALL_CXX17_DEPRECATION_WARNINGS -D_CRT_SECURE_NO_WARNINGS -DGLM_FORCE_INTRINSICS "
        "-DLM_USE_CONFIG_RELEASE -DFMT_HEADER_ONLY -DNDEBUG").split()
COMMON = ["-std=c++17", "-g1", "-fPIC", "-w", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer"]
GXX = "/usr/bin/g++" if os.path.exists("/usr/bin/g++") else "g++"


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def tree_hash(dirs, exts):
    acc = []
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(exts):
                    p = os.path.join(root, f)
                    acc += [os.path.relpath(p, d), rd(p)]
    return sha(*acc)


def sources():
    src = os.path.join(REPO, "src")
    txt = open(os.path.join(src, "CMakeLists.txt")).read()
    m = re.search(r"set\(_SOURCE_FILES(.*?)\)\s*\n", txt, re.S)
    out = []
    if m:
        for f in re.findall(r'"\$\{_SOURCE_DIR\}/([^"]+\.cpp)"', m.group(1)):
            p = os.path.join(src, f)
            if os.path.exists(p):
                out.append(p)
    if len(out) < 30:
        out = [p for p in sorted(glob.glob(src + "/**/*.cpp", recursive=True)) if os.path.basename(p) not in ("pylm.cpp", "serial.cpp")]
    return out


def plugin_sources():
    """Plug-ins of the repository whose dependencies are installed here, with their include flags."""
    src = os.path.join(REPO, "plugin", "objloader_tinyobjloader", "objloader_tinyobjloader.cpp")
    for d in ("/opt/vp/external/tinyobjloader", "/usr/include"):
        if os.path.exists(src) and os.path.exists(d + "/tiny_obj_loader.h"):
            return [(src, ["-I" + d] if d != "/usr/include" else [])]
    return []


def run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError("%s failed:\n%s\n%s" % (what, " ".join(cmd), "\n".join([l for l in r.stdout.splitlines() if "error" in l][:12]) or r.stdout[-3000:]))


def build(log=lambda *_: None):
    """Returns (path of the binary directory, seconds, number of compiled objects)."""
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(t0, log)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(t0, log):
    gen = os.path.join(BUILD, "gen")
    os.makedirs(gen, exist_ok=True)
    ver = os.path.join(gen, "versiondef.h")
    txt = '#pragma once\n#define LM_VERSION_MAJOR 3\n#define LM_VERSION_MINOR 0\n#define LM_VERSION_PATCH 0\n#define LM_VERSION_REVISION "sim"\n#define LM_BUILD_TIMESTAMP "sim"\n'
    if not os.path.exists(ver) or open(ver).read() != txt:
        open(ver, "w").write(txt)
    pchtxt = open(os.path.join(VERIF, "sim", "allpch.h")).read().replace("@REPO@", REPO)
    hdr = tree_hash([REPO + "/include", REPO + "/pch", REPO + "/src", REPO + "/plugin/objloader_tinyobjloader"], (".h", ".hpp", ".inl", ".in"))
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/pch", "-I" + gen]
    gccv = subprocess.run([GXX, "-dumpfullversion"], capture_output=True, text=True).stdout
    kinds = {  # name -> flags
        "lib": COMMON + ["-O1", "-fsanitize=thread", "-fstack-protector-strong", "-fopenmp"] + DEFS + inc,
        "harness": COMMON + ["-O1", "-fno-gnu-unique"] + [d for d in DEFS if d != "-DLM_EXPORTS"] + ["-DLM_EXPORTS"] + inc + ["-I" + VERIF + "/sim"],
    }
    obj = os.path.join(BUILD, "obj")
    os.makedirs(obj, exist_ok=True)
    jobs, objs, used = [], [], set()
    pch = {}
    for k, fl in kinds.items():
        key = sha("pch", hdr if k == "never" else tree_hash([REPO + "/pch"], (".h",)), pchtxt, " ".join(fl), gccv)
        d = os.path.join(BUILD, "pch-%s-%s" % (k, key))
        pch[k] = d
        used.add(d)
    need = []
    hh = tree_hash([VERIF + "/sim"], (".h",))
    todo = []
    for s in sources():
        key = sha(rd(s), s, hdr, pchtxt, " ".join(kinds["lib"]), gccv)
        todo.append((s, "lib", os.path.join(obj, key + ".o")))
    extra = {}
    for s, fl in plugin_sources():
        key = sha(rd(s), s, hdr, pchtxt, " ".join(kinds["lib"] + fl), gccv)
        extra[s] = fl
        todo.append((s, "lib", os.path.join(obj, key + ".o")))
    for s in sorted(glob.glob(VERIF + "/sim/*.cpp")):
        plain = os.path.basename(s) in ("rt.cpp", "fs.cpp", "main.cpp")
        k = "plain" if plain else "harness"
        fl = (COMMON + ["-O2", "-I" + VERIF + "/sim"]) if plain else kinds["harness"]
        key = sha(rd(s), s, "" if plain else hdr, hh, pchtxt, " ".join(fl), gccv)
        todo.append((s, k, os.path.join(obj, key + ".o")))
    compiled = 0
    missing = [t for t in todo if not os.path.exists(t[2])]
    plug = sorted(glob.glob(VERIF + "/sim/plugin/*.cpp"))
    libs = [t[2] for t in todo if t[1] == "lib"]
    har = [t[2] for t in todo if t[1] != "lib"]
    bkey = sha("bin3", *[os.path.basename(x) for x in libs + har], *[rd(p) for p in plug])
    bdir = os.path.join(BUILD, "bin-" + bkey)
    nobin = not os.path.exists(bdir + "/simbin")
    for k in kinds:
        if any(t[1] == k for t in missing) or (k == "harness" and plug and nobin):
            d = pch[k]
            if not os.path.exists(d + "/allpch.h.gch"):
                need.append((k, d))

    def mkpch(k, d):
        os.makedirs(d, exist_ok=True)
        open(d + "/allpch.h", "w").write(pchtxt)
        run([GXX] + kinds[k] + ["-x", "c++-header", d + "/allpch.h", "-o", d + "/allpch.h.gch.tmp"], "precompiled header")
        os.rename(d + "/allpch.h.gch.tmp", d + "/allpch.h.gch")

    def comp(t):
        s, k, o = t
        tmp = o + ".tmp%d" % os.getpid()
        if k == "plain":
            cmd = [GXX] + COMMON + ["-O2", "-I" + VERIF + "/sim", "-c", s, "-o", tmp]
        else:
            cmd = [GXX] + kinds[k] + extra.get(s, []) + ["-include", pch[k] + "/allpch.h", "-c", s, "-o", tmp]
        run(cmd, "compiling " + s)
        os.rename(tmp, o)

    big = lambda t: -os.path.getsize(t[0])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fs = [ex.submit(comp, t) for t in missing if t[1] == "plain"]
        ps = [ex.submit(mkpch, k, d) for k, d in need]
        for p in ps:
            p.result()
        fs += [ex.submit(comp, t) for t in sorted((t for t in missing if t[1] != "plain"), key=big)]
        errs = []
        for f in fs:
            try:
                f.result()
                compiled += 1
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError("\n".join(errs[:3]))
    if not os.path.exists(bdir + "/simbin"):
        tmp = bdir + ".tmp%d" % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            fs = []
            for p in plug:
                n = os.path.splitext(os.path.basename(p))[0]
                fs.append(ex.submit(run, [GXX, "-shared"] + [f for f in kinds["harness"] if f != "-DLM_EXPORTS"] + ["-include", pch["harness"] + "/allpch.h", p, "-o", tmp + "/" + n + ".so"], "plugin " + n))
            fs.append(ex.submit(run, [GXX, "-o", tmp + "/simbin"] + libs + har + ["-rdynamic", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-lstdc++fs", "-ldl", "-pthread"], "link"))
            for f in fs:
                f.result()
        os.rename(tmp, bdir)
    used.add(bdir)
    os.utime(bdir)
    _gc(set(t[2] for t in todo) | used)
    return bdir, time.time() - t0, compiled


def _gc(keep):
    """Keep the cache small: newest binaries and objects only."""
    bins = sorted((p for p in glob.glob(BUILD + "/bin-*") if p not in keep), key=os.path.getmtime, reverse=True)
    for p in bins[3:]:
        shutil.rmtree(p, ignore_errors=True)
    for p in sorted((p for p in glob.glob(BUILD + "/pch-*") if p not in keep), key=os.path.getmtime, reverse=True)[2:]:
        shutil.rmtree(p, ignore_errors=True)
    objs = sorted((p for p in glob.glob(BUILD + "/obj/*") if p not in keep), key=os.path.getmtime, reverse=True)
    for p in objs[400:]:
        try:
            os.remove(p)
        except OSError:
            pass


if __name__ == "__main__":
    try:
        d, s, n = build()
        print("%s (%.1f s, %d objects compiled)" % (d, s, n))
    except BuildError as e:
        print(e)
        sys.exit(2)
