"""Builds harness binaries from /repo's current working tree (plus /verif/vnxlite and /verif/harness).

Everything goes to a build directory that is ignored by git. Generated interface code is compiled in
unity chunks without sanitizers (except for TSan, which needs every access instrumented); the hand
written sources of the repository and the harnesses are compiled with the sanitizers of the flavour.
"""
import glob, hashlib, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

IFACE = """Block BlockHeader Transaction Operation Contract Solution ProofOfTime ProofOfSpace ProofOfSpaceOG ProofOfSpaceNFT
ProofResponse secp256k1 uint128 fixed128 hash_t hash_512_t addr_t pubkey_t signature_t exec_result_t exec_error_t vm/var_t vm/varptr_t
contract/Data contract/WebData contract/PubKey contract/MultiSig contract/TokenBase contract/Binary contract/Executable contract/method_t
solution/PubKey solution/MultiSig operation/Deposit operation/Execute sha256_avx2 sha256_64_x8 sha256_ni sha256_ni_rec sha256_arm
sha256_arm_rec sha512 hmac_sha512 wordlist_en mnemonic offer_data_t account_info_t VDF_Point Partial ChainParams utils ValidatorVote""".split()
VM = "vm/Engine vm/StorageProxy vm/StorageRAM vm/StorageCache vm/StorageDB vm/instr_t vm_interface".split()
DB = "DataBase table".split()
POS = "pos/mem_hash pos/verify pos/encoding pos/Prover pos/verify_full".split()
NODE = "TimeLord Node Node_api Node_update Node_verify Node_validate Node_control Node_tests OCL_VDF".split()

SHA_FLAGS = {"sha256_ni": "-msse4.2 -msha", "sha256_ni_rec": "-msse4.2 -msha", "sha256_avx2": "-mavx2"}
API = "Node|Wallet|Farmer|Harvester|Router|ProofServer|WebAPI|TimeLord|OCL_VDF"

def cpu_flags():
    try:
        return set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return set()
CPU = cpu_flags()

INCLUDES = " ".join("-I" + d for d in [VERIF + "/harness", VERIF + "/vnxlite/include", REPO + "/include"] + [REPO + "/generated/" + d for d in
    ["include", "vm/include", "contract/include", "operation/include", "solution/include"]])

FLAVOURS = {
    # sanitizer flags, optimisation, instrument generated code
    "asan": ("-fsanitize=address,undefined -fno-sanitize=alignment,vptr,function,nonnull-attribute -fno-sanitize-recover=undefined -fno-omit-frame-pointer", "-O1 -gline-tables-only", False),
    "tsan": ("-fsanitize=thread -fno-omit-frame-pointer", "-O1 -gline-tables-only", True),
    "plain": ("", "-O1 -gline-tables-only", False),
}

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)

def filter_package(text, keep):
    """generated/src/package.cpp without the types `keep` rejects."""
    out = []
    skip = False
    inc = re.compile(r'#include <mmx/([\w/]+)\.hxx>')
    fn = re.compile(r'^(?:void|const TypeCode\*|TypeInput&|.*?) ?type<::mmx::([\w:]+)>::')
    for line in text.split("\n"):
        m = fn.match(line)
        if m:
            skip = not keep(m.group(1))
        m = re.search(r'register_type_code\(::mmx::([\w:]+)::static_create_type_code', line)
        if m and not keep(m.group(1)):
            continue
        m = re.search(r'get_type_code\(vnx::Hash64|vnx_native_type_code_(\w+)\s*=', line)
        if m and m.group(1) and not keep(m.group(1)):
            continue
        if not skip:
            out.append(line)
        if skip and line.startswith("}"):
            skip = False
    return "\n".join(out)

PCH_HEADERS = ["vnx/vnx.h", "mmx/hash_t.hpp", "mmx/addr_t.hpp", "mmx/uint128.hpp", "mmx/Transaction.hxx", "mmx/Contract.hxx", "mmx/Block.hxx",
    "unordered_map", "unordered_set", "regex", "random", "iomanip", "cmath"]

class Build:
    def __init__(self, outdir=None):
        self.out = outdir or os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
        self.rules = []
        self.edges = {}
        self.cxx = "clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"

    def obj(self, src, flavour, extra="", sanitize=True, tag=""):
        san, opt, allgen = FLAVOURS[flavour]
        if not sanitize and not allgen:
            san, opt = "", "-O0"
        flags = " ".join([san, opt, extra]).strip()
        key = hashlib.md5((src + flags).encode()).hexdigest()[:8]
        name = os.path.basename(src).rsplit(".", 1)[0]
        o = "%s/%s/%s-%s.o" % (self.out, flavour, name, key)
        if o not in self.edges:
            pch = "" if ("-m" in extra or name == "wordlist_en") else self.pch(flags)
            self.edges[o] = "build %s: cxx %s%s\n  flags = %s%s\n" % (o, src, " | " + pch if pch else "", flags, " -include-pch " + pch if pch else "")
        return o

    def pch(self, flags):
        key = hashlib.md5(flags.encode()).hexdigest()[:8]
        o = "%s/pch/common-%s.pch" % (self.out, key)
        if o not in self.edges:
            write_if_changed(self.out + "/pch/common.hpp", "".join("#include <%s>\n" % h for h in PCH_HEADERS))
            self.edges[o] = "build %s: pch %s/pch/common.hpp\n  flags = %s\n" % (o, self.out, flags)
        return o

    def generated(self, flavour, full, chunks=None):
        files = sorted(glob.glob(REPO + "/generated/src/*.cpp") + glob.glob(REPO + "/generated/*/src/*.cpp"))
        res = []
        tag = "full" if full else "sub"
        gdir = "%s/gen_%s" % (self.out, tag)
        if not full:
            def drop(f):
                b = os.path.basename(f)[:-4]
                if b == "TransactionBase":
                    return False
                if b.startswith("ProofServerClient") or b.startswith("ProofServer_compute"):
                    return False
                if b == "TokenBase" and "/contract/" in f:
                    return False
                return bool(re.search(r"(Client|Base|_return)$", b) or re.match("(%s)_" % API, b))
            dropped = set(os.path.basename(f)[:-4] for f in files if drop(f))
            files = [f for f in files if not drop(f)]
            p = REPO + "/generated/src/package.cpp"
            files = [f for f in files if f != p]
            def keep(name):
                n = name.split("::")[-1]
                return n.startswith("ProofServer_compute") or not (re.match("(%s)_" % API, n) and "::" not in name) and n not in dropped
            write_if_changed(gdir + "/package.cpp", filter_package(open(p).read(), keep))
            files.append(gdir + "/package.cpp")
        else:
            # the interface packages of the sub modules are all needed
            pass
        chunks = chunks or (24 if full else 16)
        sized = sorted(((os.path.getsize(f), f) for f in files), reverse=True)
        bins = [[0, []] for _ in range(chunks)]
        for s, f in sized:
            b = min(bins, key=lambda x: x[0])
            b[0] += s + 12000
            b[1].append(f)
        for i, b in enumerate(bins):
            c = "%s/c%02d.cpp" % (gdir, i)
            write_if_changed(c, "".join('#include "%s"\n' % f for f in sorted(b[1])))
            res.append(self.obj(c, flavour, sanitize=False))
        return res

    def repo_srcs(self, names, flavour, extra="", plain=()):
        res = []
        for n in names:
            f = "%s/src/%s.cpp" % (REPO, n)
            if not os.path.exists(f):
                continue
            if n == "wordlist_en" or n in plain:
                res.append(self.obj(f, flavour, sanitize=False))	# one big constant table
                continue
            e = SHA_FLAGS.get(n, "")
            if n == "sha256_avx2" and "avx2" not in CPU: e = ""
            if n.startswith("sha256_ni") and "sha_ni" not in CPU: e = ""
            res.append(self.obj(f, flavour, (e + " " + extra).strip()))
        return res

    def vnxlite(self, flavour):
        return [self.obj(f, flavour) for f in sorted(glob.glob(VERIF + "/vnxlite/src/*.cpp"))]

    def harness(self, names, flavour, extra="", sanitize=True):
        return [self.obj("%s/harness/%s.cpp" % (VERIF, n), flavour, extra, sanitize=sanitize) for n in names]

    def link(self, name, objs, flavour, libs="-lsecp256k1 -lpthread"):
        san = FLAVOURS[flavour][0]
        exe = "%s/bin/%s" % (self.out, name)
        seen = []
        for o in objs:
            if o not in seen:
                seen.append(o)
        self.edges[exe] = "build %s: link %s\n  flags = %s\n  libs = %s\n" % (exe, " ".join(seen), san, libs)
        return exe

    def run(self, targets, jobs=None):
        os.makedirs(self.out, exist_ok=True)
        lld = "-fuse-ld=lld" if os.path.exists("/usr/bin/ld.lld") or os.path.exists("/usr/bin/lld") else ""
        text = "ninja_required_version = 1.5\nbuilddir = %s\n" % self.out
        text += "rule cxx\n  description = CXX $out\n  command = %s -std=c++17 -w -fdiagnostics-color=never $flags %s -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (self.cxx, INCLUDES)
        text += "rule pch\n  description = PCH $out\n  command = %s -std=c++17 -w -fpch-instantiate-templates -x c++-header $flags %s -MD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc\n" % (self.cxx, INCLUDES)
        text += "rule link\n  description = LINK $out\n  command = %s $flags %s $in -o $out $libs\n" % (self.cxx, lld)
        text += "\n".join(self.edges.values()) + "\n"
        nf = "%s/build.ninja" % self.out
        write_if_changed(nf, text)
        cmd = ["ninja", "-f", nf] + (["-j", str(jobs)] if jobs else []) + targets
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return r.returncode, r.stdout
