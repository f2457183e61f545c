#!/usr/bin/env python3
"""Build the monitored executable for one variant from /repo's working tree.
usage: build.py VARIANT...      (hw sw asan asansw bc)"""
import os, sys, re, subprocess, shutil, hashlib, glob, concurrent.futures as cf, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEPS = "/opt/cryptokit-deps"

ENV = dict(os.environ)
ENV.update(PATH=f"{DEPS}/usr/bin:/usr/local/bin:/usr/bin:/bin", LANG="C.UTF-8", LC_ALL="C.UTF-8",
           OCAMLPATH=f"{DEPS}/usr/lib/ocaml", CAML_LD_LIBRARY_PATH=f"{DEPS}/usr/lib/ocaml/stublibs",
           HOME=os.environ.get("HOME", "/root"))
for k in ("OCAMLPARAM", "OCAMLRUNPARAM"):
    ENV.pop(k, None)

BASE = ["-O2", "-fno-strict-aliasing", "-fwrapv", "-pthread", "-fPIC", "-g",
        "-DCAML_NAME_SPACE", "-DEXPORT=static", "-DBLAKE3_NO_SSE2", "-DBLAKE3_NO_SSE41",
        "-DBLAKE3_NO_AVX2", "-DBLAKE3_NO_AVX512", "-DBLAKE3_USE_NEON=0",
        "-DHAVE_GETENTROPY", "-DHAVE_ZLIB"]
HW = ["-maes", "-mpclmul"]
# no hardware instructions, and the 32-bit arithmetic of the portable code
SW = ["-U__SIZEOF_INT128__"]
FORT = ["-D_FORTIFY_SOURCE=2"]
SAN = ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer",
       "-fsanitize=bounds,null,shift-exponent,integer-divide-by-zero,unreachable,vla-bound,object-size,return",
       "-fno-sanitize-recover=all"]
# bc: the OCaml code compiled to bytecode (the stubs with more than five arguments have another entry point there)
# GARB: local variables start with garbage, so that results cannot come out right by luck
GARB = ["-ftrivial-auto-var-init=pattern"]
VARIANTS = {"bc": FORT + HW + GARB, "hw": FORT + HW, "sw": FORT + SW + GARB, "asan": SAN + HW + GARB, "asansw": SAN + SW + GARB}
LINK = {"hw": [], "sw": [], "bc": ["-custom"],
        "asan": ["-ccopt", "-fsanitize=address,undefined"],
        "asansw": ["-ccopt", "-fsanitize=address,undefined"]}

WRAPS = ["caml_alloc_string", "caml_alloc_initialized_string", "caml_copy_string", "caml_alloc_custom",
         "caml_alloc_custom_mem", "caml_alloc_small", "caml_alloc", "caml_alloc_tuple", "caml_copy_int64",
         "deflateInit2_", "deflateEnd", "inflateInit2_", "inflateEnd", "getentropy", "getrandom", "read", "__read_chk"]
REDEF = ["caml_stat_alloc=mon_stat_alloc", "caml_stat_alloc_noexc=mon_stat_alloc_noexc",
         "caml_stat_calloc_noexc=mon_stat_calloc_noexc", "caml_stat_free=mon_stat_free",
         "caml_alloc_string=mon_stub_alloc_string", "caml_alloc_initialized_string=mon_stub_alloc_initialized_string",
         "caml_copy_string=mon_stub_copy_string", "caml_alloc_custom=mon_stub_alloc_custom",
         "caml_alloc_custom_mem=mon_stub_alloc_custom_mem", "caml_alloc_small=mon_stub_alloc_small",
         "caml_alloc=mon_stub_alloc", "caml_enter_blocking_section=mon_enter_blocking",
         "caml_leave_blocking_section=mon_leave_blocking", "caml_alloc_tuple=mon_stub_alloc_tuple", "caml_copy_int64=mon_stub_copy_int64",
         "malloc=mon_malloc", "calloc=mon_calloc", "free=mon_free"]

class BuildError(Exception): pass

def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout

def patch_rdrand(obj):
    """Replace each RDRAND by an undefined instruction of the same length that
    keeps the operand; rt.c emulates it (fault injection on the hardware RNG)."""
    data = bytearray(open(obj, "rb").read())
    if not re.search(rb"\x0f\xc7[\xf0-\xf7]", data) and b"caml_hardware_rng_available" not in data: return
    secs = {}
    for l in run(["objdump", "-h", obj], ".").splitlines():
        m = re.match(r"\s*\d+\s+(\S+)\s+[0-9a-f]+\s+[0-9a-f]+\s+[0-9a-f]+\s+([0-9a-f]+)", l)
        if m: secs[m.group(1)] = int(m.group(2), 16)
    off = None
    for l in run(["objdump", "-d", obj], ".").splitlines():
        m = re.match(r"Disassembly of section (\S+):", l)
        if m: off = secs.get(m.group(1)); continue
        m = re.match(r"\s*([0-9a-f]+):\s+0f a2\s+cpuid", l)
        if m and off is not None:
            at = off + int(m.group(1), 16)
            assert data[at:at+2] == b"\x0f\xa2"
            data[at:at+2] = b"\x06\x06"; continue
        m = re.match(r"\s*([0-9a-f]+):\s+((?:[0-9a-f]{2} )+)\s*rdrand", l)
        if not m or off is None: continue
        b = bytes.fromhex(m.group(2).replace(" ", ""))
        at = off + int(m.group(1), 16)
        assert bytes(data[at:at+len(b)]) == b
        if len(b) == 4: data[at:at+4] = bytes([0x0f, 0x0b, b[0], b[3]])
        elif len(b) == 3: data[at:at+3] = bytes([0x0f, 0x0b, b[2]])
    open(obj, "wb").write(data)

def lib_sources():
    """C stubs and OCaml modules, as the library's own build description lists them."""
    src = os.path.join(REPO, "src")
    txt = open(os.path.join(src, "dune")).read()
    txt = re.sub(r";[^\n]*", "", txt)
    m = re.search(r"\(modules\s+([^()]*)\)", txt)
    mods = m.group(1).split() if m else ["CryptokitBignum", "Cryptokit"]
    m = re.search(r"\(names\s+([^()]*)\)", txt)
    stubs = m.group(1).split() if m else [os.path.basename(f)[:-2] for f in sorted(glob.glob(src + "/stubs-*.c"))]
    mls = []
    for x in mods:
        f = x[0].lower() + x[1:]
        if not os.path.exists(os.path.join(src, f + ".ml")): f = x
        mls.append(f)
    return mls, stubs

ML_HARNESS = ["str_find", "gen0", "mon", "rf", "zoo", "work"]   # then p_*.ml, then main

def tree_hash(variant):
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/*")) + sorted(glob.glob(HERE + "/*.[ch]") + glob.glob(HERE + "/*.ml") + glob.glob(HERE + "/*.py"))
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    h.update(variant.encode())
    return h.hexdigest()[:20]

def build(variant):
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(d, "monitor.exe")
        stamp = os.path.join(d, "stamp")
        th = tree_hash(variant)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == th:
            return exe
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for f in glob.glob(REPO + "/src/*"):
            if os.path.isfile(f): shutil.copy(f, d)
        hd = os.path.join(d, "h"); os.makedirs(hd)
        for f in glob.glob(HERE + "/*.ml"): shutil.copy(f, hd)
        for f in glob.glob(HERE + "/*.[ch]"): shutil.copy(f, hd)
        mls, stubs = lib_sources()
        flags = BASE + VARIANTS[variant] + ["-I", "/usr/lib/ocaml", "-I", f"{DEPS}/usr/lib/ocaml/zarith"]
        redef = sum([["--redefine-sym", r] for r in REDEF], [])
        jobs = []
        comp, ext = ("ocamlc", ".cmo") if variant == "bc" else ("ocamlopt", ".cmx")
        with cf.ThreadPoolExecutor(8) as ex:
            def stub(s):
                run(["gcc"] + flags + ["-include", "h/cpu.h", "-w", "-c", s + ".c", "-o", s + ".o"], d)
                run(["objcopy"] + redef + [s + ".o"], d)
                patch_rdrand(os.path.join(d, s + ".o"))
            for s in stubs: jobs.append(ex.submit(stub, s))
            hflags = ["-O2", "-g", "-w", "-fno-strict-aliasing", "-fwrapv", "-pthread", "-I", "/usr/lib/ocaml"]
            if variant.startswith("asan"):
                jobs.append(ex.submit(run, ["gcc"] + hflags + ["-fsanitize=address", "-c", "rt.c", "-o", "rt.o"], hd))
            else:
                jobs.append(ex.submit(run, ["gcc"] + hflags + ["-c", "rt.c", "-o", "rt.o"], hd))
            jobs.append(ex.submit(run, ["gcc"] + hflags + ["-c", "ref.c", "-o", "ref.o"], hd))
            def ocaml():
                oc = ["ocamlfind", comp, "-package", "unix,zarith,threads.posix", "-thread", "-g"]
                for m in mls:
                    if os.path.exists(os.path.join(d, m + ".mli")):
                        run(oc + ["-safe-string", "-w", "-a", "-alert", "-all", "-c", m + ".mli"], d)
                    run(oc + ["-safe-string", "-w", "-a", "-alert", "-all", "-c", m + ".ml"], d)
                ps = sorted(os.path.basename(f)[:-3] for f in glob.glob(hd + "/p_*.ml"))
                for m in ML_HARNESS:
                    run(oc + ["-I", "..", "-w", "-a", "-alert", "-all", "-c", m + ".ml"], hd)
                list(ex.map(lambda m: run(oc + ["-I", "..", "-w", "-a", "-alert", "-all", "-c", m + ".ml"], hd), ps))
                open(os.path.join(hd, "all.ml"), "w").write("let props = [ %s ]\n" % "; ".join(m.capitalize() + ".props" for m in ps))
                run(oc + ["-I", "..", "-w", "-a", "-alert", "-all", "-c", "all.ml"], hd)
                run(oc + ["-I", "..", "-w", "-a", "-alert", "-all", "-c", "main.ml"], hd)
                return ps
            fo = ex.submit(ocaml)
            ps = fo.result()
            for j in jobs: j.result()
        wraps = sum([["-ccopt", "-Wl,--wrap=" + w] for w in WRAPS], [])
        cmd = (["ocamlfind", comp, "-package", "unix,zarith,threads.posix", "-thread", "-linkpkg", "-g", "-o", "monitor.exe"]
               + LINK[variant] + wraps
               + [m + ext for m in mls] + ["h/" + m + ext for m in ML_HARNESS + ps + ["all", "main"]]
               + [s + ".o" for s in stubs] + ["h/rt.o", "h/ref.o", "-I", "h", "-cclib", "-lz", "-cclib", "-lcrypto"])
        run(cmd, d)
        open(stamp, "w").write(th)
        return exe

if __name__ == "__main__":
    for v in sys.argv[1:]:
        try: print(build(v))
        except BuildError as e:
            print("BUILD-ERROR:", e); sys.exit(3)
