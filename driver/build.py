"""Translates /repo's working tree to LLVM IR (for the prover) or to a native replay binary."""
import concurrent.futures as cf, glob, json, os, shlex, shutil, subprocess, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CFG = {
    # the build the tests use: OpenSSL AES-CTR, 64-bit Keccak, vector types
    "default": ["-Dopenssl=enabled"],
    # the self-contained build: own AES-CTR, 32-bit bit-interleaved Keccak
    # the same with the non-vector field representation (compilers without vector extensions)
    "structs": ["-Dopenssl=enabled"],
    "portable": ["-Dopenssl=disabled", "-DSHA3=plain32"],
}
SETS = ["128s", "128f", "192s", "192f", "256s", "256f", "em_128s", "em_128f", "em_192s", "em_192f", "em_256s", "em_256f"]
class BuildError(Exception):
    pass

def sh(cmd, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=cwd)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd)[:400], p.stdout.decode(errors="replace")[-1500:]))
    return p.stdout.decode(errors="replace")

def configure(wd, cfg):
    m = os.path.join(wd, "meson-" + cfg)
    if os.path.exists(os.path.join(m, "compile_commands.json")):
        return m
    env = dict(os.environ, CC="gcc", CXX="g++")
    p = subprocess.run(["meson", "setup", m, REPO] + CFG[cfg], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    if p.returncode:
        raise BuildError("meson: " + p.stdout.decode(errors="replace")[-1500:])
    return m

def sources(m, cfg):
    """(file, flags) of every translation unit of the library, from the project's own build description"""
    out = []
    for e in json.load(open(os.path.join(m, "compile_commands.json"))):
        o = e["output"]
        if not (o.startswith("libfaest_no_random.a.p/") or o == "libfaest.a.p/randomness.c.o"
                or re.match(r"faest_\w+/libfaest_\w+\.a\.p/.*crypto_sign", o)):
            continue
        args, fl, skip = shlex.split(e["command"]), [], False
        for i, a in enumerate(args):
            if a.startswith("-I"):
                fl.append("-I" + os.path.normpath(os.path.join(e["directory"], a[2:])))
            elif a.startswith("-D") and a != "-DFAEST_TESTS":
                fl.append(a)
        f = os.path.normpath(os.path.join(e["directory"], e["file"]))
        tag = ""
        mm = re.match(r"(faest_\w+)/libfaest", o)
        if mm:
            tag = mm.group(1)[6:]
            for fn in ("crypto_sign_keypair", "crypto_sign_open", "crypto_sign"):
                fl.append("-D%s=%s_%s" % (fn, fn, tag))
        out.append((f, fl + cfg_flags(cfg), re.sub(r"\W", "_", o)))
    if len(out) < 20:
        raise BuildError("unexpected build description: %d units" % len(out))
    return out

def harness_sources():
    return sorted(glob.glob(os.path.join(VERIF, "ob", "*.c"))) + sorted(glob.glob(os.path.join(VERIF, "spec", "spec_*.c")))

def common_flags(m, cfg):
    fl = ["-I" + os.path.join(VERIF, "spec"), "-I" + os.path.join(VERIF, "ob"), "-I" + m, "-I" + REPO, "-I" + os.path.join(REPO, "sha3")]
    fl += ["-D_GNU_SOURCE", "-DHAVE_CONFIG_H", "-DWITH_KECCAK_X4", "-DFAEST_STATIC", "-DFAEST_EXPORT=", "-DFV_CFG_" + cfg]
    fl += ["-I" + os.path.join(REPO, "sha3", "plain32" if cfg == "portable" else "opt64")]
    fl += ["-I" + os.path.join(m, d) for d in os.listdir(m) if d.startswith("faest_") and os.path.isdir(os.path.join(m, d)) and False]
    if cfg != "portable":
        fl.append("-DHAVE_OPENSSL")
    return fl + cfg_flags(cfg)

def cfg_flags(cfg):
    return ["-include", os.path.join(VERIF, "spec", "novec.h")] if cfg == "structs" else []

IRFLAGS = ["-std=gnu11", "-O1", "-Xclang", "-disable-llvm-passes", "-g", "-mavx2", "-fno-builtin-memcmp", "-w", "-emit-llvm", "-c"]

skipped = {}
def build_ir(wd, cfgs):
    res = {}
    with cf.ThreadPoolExecutor(8) as ex:
        def one(cfg):
            m = configure(wd, cfg)
            d = os.path.join(wd, "ir-" + cfg)
            os.makedirs(d, exist_ok=True)
            units = sources(m, cfg)
            hs = [(f, common_flags(m, cfg), "ob_" + re.sub(r"\W", "_", os.path.basename(f))) for f in harness_sources()]
            return cfg, m, d, units, hs
        plans = [one(c) for c in cfgs]
        futs = {}
        for cfg, m, d, units, hs in plans:
            for f, fl, nm in units + hs:
                o = os.path.join(d, nm + ".bc")
                futs[ex.submit(sh, ["clang-18"] + IRFLAGS + fl + [f, "-o", o])] = (cfg, o)
        objs = {c: [] for c in cfgs}
        for f, (c, o) in futs.items():
            try:
                f.result()
            except BuildError as e:
                # a harness that no longer fits /repo's declarations: its units fail, the others are decided
                if not os.path.basename(o).startswith("ob_"):
                    raise
                skipped[os.path.basename(o)] = str(e)
                continue
            objs[c].append(o)
        def link(cfg):
            a = os.path.join(wd, cfg + ".link.bc")
            b = os.path.join(wd, cfg + ".bc")
            sh(["llvm-link-18", "-o", a] + sorted(objs[cfg]))
            sh(["opt-18", "-passes=function(sroa,early-cse,simplifycfg),lowerswitch", a, "-o", b])
            os.unlink(a)
            return cfg, b
        for c, b in ex.map(link, cfgs):
            res[c] = b
    return res

_fn = None
def repo_functions(bcs):
    """functions defined by translation units of /repo (as opposed to specifications and harnesses)"""
    global _fn
    if _fn is None:
        _fn = set()
        for c, b in bcs.items():
            d = os.path.join(os.path.dirname(b), "ir-" + c)
            for o in glob.glob(os.path.join(d, "*.bc")):
                if os.path.basename(o).startswith("ob_"):
                    continue
                for l in sh(["llvm-nm-18", "--defined-only", o]).splitlines():
                    p = l.split()
                    if len(p) >= 2 and p[-2] in "tTwW":
                        _fn.add(p[-1])
    return _fn

NATFLAGS = ["-std=gnu11", "-O1", "-g", "-w", "-fno-omit-frame-pointer"]
def build_native(wd, cfg, san=True):
    m = configure(wd, cfg)
    d = os.path.join(wd, "nat-" + cfg)
    os.makedirs(d, exist_ok=True)
    units = sources(m, cfg)
    fl = ["-fsanitize=address,undefined", "-fno-sanitize=alignment"] if san else []
    disp = os.path.join(d, "dispatch.c")
    import obligations
    with open(disp, "w") as f:
        f.write("#include <stdint.h>\n#include <string.h>\n#include <stdlib.h>\n")
        ents = {}
        for o in obligations.OBS:
            if o.cbmc:
                ents[o.cbmc_replay[0]] = len(o.cbmc_replay[1]([], o.args[0])[0])
            else:
                ents[o.entry] = max(len(a) for a in o.args)
        for e, n in ents.items():
            f.write("__attribute__((weak)) void %s(%s);\n" % (e, ",".join(["int"] * n) or "void"))
        f.write("void fv_entry(const char* e, const uint64_t* a) {\n")
        for e, n in ents.items():
            f.write(" if (!strcmp(e, \"%s\") && %s) { %s(%s); return; }\n" % (e, e, e, ",".join("(int)a[%d]" % i for i in range(n))))
        f.write(" exit(5);\n}\n")
    hs = [(f, common_flags(m, cfg), "ob_" + re.sub(r"\W", "_", os.path.basename(f)))
          for f in harness_sources() + [os.path.join(VERIF, "spec", "fv_native.c"), disp]]
    with cf.ThreadPoolExecutor(8) as ex:
        futs = []
        for f, ff, nm in units + hs:
            if os.path.basename(f) == "randomness.c": # the harness controls the entropy source
                ff = ff + ["-Dgetrandom=contract_getrandom"]
            o = os.path.join(d, nm + ".o")
            futs.append((ex.submit(sh, ["gcc"] + NATFLAGS + fl + ff + ["-DFV_NATIVE", "-c", f, "-o", o]), o))
        objs = []
        for f, o in futs:
            try:
                f.result()
            except BuildError:
                if not os.path.basename(o).startswith("ob_"):
                    raise
                continue
            objs.append(o)
    exe = os.path.join(wd, "replay-" + cfg)
    sh(["gcc"] + fl + objs + ["-o", exe, "-lcrypto"])
    return exe

def build_goto(wd, src, cfg, defs, pattern, out, args=()):
    """goto binary of a CBMC harness and the real sources whose path matches pattern"""
    m = configure(wd, cfg)
    if callable(pattern):
        pattern = pattern(args)
    units = [u for u in sources(m, cfg) if re.search(pattern, u[0])]
    if not units:
        raise BuildError("no source matches " + pattern)
    fl = [f for f in units[0][1] if f.startswith("-I") or f.startswith("-D")]
    sh(["goto-cc"] + fl + common_flags(m, cfg) + list(defs) + [src] + [u[0] for u in units] + ["-o", out])
