#!/usr/bin/env python3
"""Builds one harness binary (and what it needs) from /repo's working tree.

usage: build.py BINARY...     the result is /verif/build/bin/BINARY

Everything is compiled from the sources in /repo into /verif/build; nothing is
written in /repo. A stored content hash of every source guards against stale
objects when time stamps go backwards.
"""
import hashlib, json, os, re, shutil, subprocess, sys, glob

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import schemagen

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
B = os.environ.get("VF_BUILD", os.path.join(VERIF, "build"))
SRC = REPO + "/src"
J = SRC + "/joedb"

CXX = "clang++"
DEFS = "-DJOEDB_HAS_ASIO -DJOEDB_HAS_BOOST -DJOEDB_HAS_BROTLI -DJOEDB_HAS_CURL -DJOEDB_HAS_SSH -DJOEDB_VERSION=100402 -D_FILE_OFFSET_BITS=64"
SAN = "-fsanitize=address"
_UB = "bounds,shift,signed-integer-overflow,float-cast-overflow,integer-divide-by-zero,return,bool"
UB = f" -fsanitize={_UB} -fno-sanitize-recover={_UB} -fsanitize-ignorelist={VERIF}/harness/ubsan.ignore"
BASE = f"-std=c++20 -w -pthread {DEFS} -I{B}/gen -I{SRC} -I{VERIF}/harness"
CXXFLAGS = f"-O1 -g1 {SAN}{UB} {BASE}"
PLAIN = f"-O0 {BASE}"
LIBS = "-lssh -lcurl -lbrotlidec -lbrotlienc -lsqlite3 -lpthread -ldl"


def rel(p):
    return os.path.relpath(p, SRC)


def has_main(p):
    return re.search(r"\bint\s+main\s*\(", open(p, errors="replace").read()) is not None


def sources(*dirs):
    r = []
    for d in dirs:
        r += sorted(glob.glob(f"{J}/{d}/*.cpp" if d else f"{J}/*.cpp"))
    return r


SKIP = {"Android_Logger.cpp", "Apple_Logger.cpp", "Windows_File.cpp", "Posix_File.cpp", "Portable_File.cpp",
        "minimal_runtime.cpp", "minimal_runtime_io.cpp", "write_lock.cpp", "base64_decode.cpp", "SFTP_stat.cpp"}
ASIO = {"concurrency/Server.cpp", "concurrency/Local_Channel.cpp", "asio/Server.cpp"}


def lib_sources():
    all_ = sources("", "error", "interpreted", "journal", "concurrency", "rpc", "ssh", "ui", "asio")
    all_ += sorted(glob.glob(SRC + "/external/*.cpp"))
    all_ += [f"{J}/compiler/nested_namespace.cpp", f"{J}/compiler/write_source_code.cpp"]
    return [p for p in all_ if os.path.basename(p) not in SKIP and os.path.exists(p) and not has_main(p)]


def classify(p):
    r = os.path.relpath(p, J)
    if r in ASIO:
        return "asio"
    if "encoded_file" in open(p, errors="replace").read() or re.search(r"(Encoded_File|Brotli_File|Readonly_Brotli|File_Parser|Parsed_Client)", os.path.basename(p)):
        return "enc"
    if r.startswith("ui/Connection_Parser") or r.startswith("ssh/") or r.endswith("Websocket_Channel.cpp"):
        return "net"
    return "core"


def scan_main_basename():
    return {os.path.basename(p)[:-4]: p for p in sources("ui") if has_main(p) and os.path.basename(p) not in SKIP}


class Ninja:
    def __init__(self):
        self.lines = [
            "rule cxx", "  command = " + CXX + " $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc", "  description = CXX $in",
            "rule ar", "  command = rm -f $out && ar rcs $out $in",
            "rule link", "  command = " + CXX + " $flags $in -o $out " + LIBS,
            "rule genrpc", "  command = mkdir -p $dir && rm -rf $dir/$ns $dir/$ns.rpc && cp -r $inputs $dir/ && cd $dir && $tool $ns && touch $stamp", "  restat = 1",
            "rule gen", "  command = mkdir -p $dir && cp $inputs $dir/ && cd $dir && rm -rf $ns && $tool $ns && touch $stamp", "  restat = 1",
        ]
        self.done = set()

    def obj(self, src, flags, kind, order=(), implicit=()):
        name = os.path.relpath(src, REPO) if src.startswith(REPO + "/") else "h/" + os.path.relpath(src, VERIF if src.startswith(VERIF + "/") else B)
        out = f"{B}/obj-{kind}/{name}.o"
        if out not in self.done:
            self.done.add(out)
            deps = ""
            if implicit:
                deps += " | " + " ".join(implicit)
            if order:
                deps += " || " + " ".join(order)
            self.lines += [f"build {out}: cxx {src}{deps}", f"  flags = {flags}"]
        return out

    def archive(self, name, objs):
        out = f"{B}/lib/{name}.a"
        if out not in self.done:
            self.done.add(out)
            self.lines.append(f"build {out}: ar " + " ".join(objs))
        return out

    def link(self, name, inputs, flags):
        out = f"{B}/bin/{name}"
        self.lines += [f"build {out}: link " + " ".join(inputs), f"  flags = {flags}", f"build {name}: phony {out}"]
        return out


def generate():
    n = Ninja()
    # joedbc, not sanitized: it is a code generator for us here
    joedbc_src = [f"{J}/compiler/joedbc.cpp", f"{J}/compiler/Compiler_Options_io.cpp"] + sorted(glob.glob(f"{J}/compiler/generator/*.cpp"))
    libs = {"core": [], "enc": [], "asio": [], "net": []}
    for p in lib_sources():
        libs[classify(p)].append(p)
    jl = [n.obj(p, PLAIN, "plain") for p in libs["core"] if not os.path.relpath(p, J).startswith(("concurrency/", "rpc/"))]
    jo = [n.obj(p, PLAIN, "plain") for p in joedbc_src]
    joedbc = n.link("joedbc", jo + [n.archive("plain", jl)], PLAIN)

    def gen(dir_, ns, inputs, subdir=""):
        d = f"{B}/gen/{dir_}"
        stamp = f"{d}/.{ns}.stamp"
        inp = " ".join(inputs)
        outs = f"{d}/{ns}/writable.cpp {d}/{ns}/readonly.cpp"
        n.lines += [f"build {stamp} | {outs}: gen {inp} | {joedbc}", f"  inputs = {inp}", f"  dir = {d}", f"  ns = {ns}", f"  tool = {joedbc}", f"  stamp = {stamp}"]
        return stamp

    def genrpc(ns):
        base = f"{VERIF}/harness/schemas/{ns}"
        d = f"{B}/gen/vfdb"
        stamp = f"{d}/.{ns}.stamp"
        msgs = sorted(os.path.basename(p)[:-7] for p in glob.glob(base + ".rpc/*.joedbi"))
        dep = [base + ".joedbi", base + ".joedbc"] + sorted(glob.glob(base + ".rpc/*"))
        cpp = [f"{d}/{ns}/writable.cpp"] + [f"{d}/{ns}/rpc/{m}/writable.cpp" for m in msgs]
        n.lines += [f"build {stamp} | {' '.join(cpp)}: genrpc {' '.join(dep)} | {joedbc}", f"  inputs = {base}.joedbi {base}.joedbc {base}.rpc", f"  dir = {d}", f"  ns = {ns}", f"  tool = {joedbc}", f"  stamp = {stamp}"]
        return stamp, [n.obj(p, CXXFLAGS, "asan", implicit=[stamp]) for p in cpp]

    enc_stamp = gen("joedb/db", "encoded_file", [f"{J}/db/encoded_file.joedbi", f"{J}/db/encoded_file.joedbc"])
    objs = {}
    for k, ps in libs.items():
        imp = [enc_stamp] if k in ("enc",) else []
        objs[k] = [n.obj(p, CXXFLAGS, "asan", implicit=imp) for p in ps]
    objs["enc"].append(n.obj(f"{B}/gen/joedb/db/encoded_file/writable.cpp", CXXFLAGS, "asan", implicit=[enc_stamp]))
    core = n.archive("core", objs["core"])
    enc = n.archive("enc", objs["enc"])
    net = n.archive("net", objs["net"])
    asio = n.archive("asio", objs["asio"])
    vf = n.archive("vf", [n.obj(f"{VERIF}/harness/vf.cpp", CXXFLAGS, "asan")])

    groups = {"core": [vf, core], "enc": [vf, enc, core], "asio": [vf, asio, net, enc, asio, core, net, core]}
    # harness binaries: first lines carry  // vf: libs=core gen=schema1,schema2 tools=...
    for h in sorted(glob.glob(f"{VERIF}/harness/h_*.cpp")):
        head = open(h).read(2000)
        m = re.search(r"// vf:(.*)", head)
        opt = dict(kv.split("=", 1) for kv in m.group(1).split()) if m else {}
        name = os.path.basename(h)[:-4]
        imp, extra = [], []
        for g in filter(None, opt.get("gen", "").split(",")):
            ns = os.path.basename(g)
            base = f"{VERIF}/harness/schemas/{g}"
            st = gen("vfdb", ns, [base + ".joedbi", base + ".joedbc"])
            imp.append(st)
            extra.append(n.obj(f"{B}/gen/vfdb/{ns}/writable.cpp", CXXFLAGS, "asan", implicit=[st]))
        for ns in filter(None, opt.get("rpc", "").split(",")):
            st, objs_ = genrpc(ns)
            imp.append(st)
            extra += objs_
        for k in range(int(opt.get("schemas", "0"))):
            ns = f"g{k}"
            schemagen.Schema("fixed", ns, plain_names=k < 4).write(f"{B}/schemas")
            base = f"{B}/schemas/{ns}"
            st = gen("vfdb", ns, [base + ".joedbi", base + ".joedbc"])
            imp.append(st)
            extra.append(n.obj(f"{B}/gen/vfdb/{ns}/writable.cpp", CXXFLAGS, "asan", implicit=[st]))
            extra.append(n.obj(base + ".adapter.cpp", CXXFLAGS, "asan", implicit=[st]))
        libs_ = opt.get("libs", "core")
        if libs_ in ("enc", "asio"):
            imp.append(enc_stamp)
        o = n.obj(h, CXXFLAGS, "asan", implicit=imp)
        out = n.link(name, [o] + extra + groups[libs_], CXXFLAGS)
        tools = [f"{B}/bin/{t}" for t in filter(None, opt.get("tools", "").split(","))]
        if tools:
            n.lines.append(f"build {name}.all: phony {out} " + " ".join(tools))
        else:
            n.lines.append(f"build {name}.all: phony {out}")
    # property D06: everything but the generated code, see tools/d06.py
    o = n.obj(f"{VERIF}/harness/h_compiled.cpp", CXXFLAGS, "asan")
    n.lines.append(f"build d06.base: phony {o} {vf} {core} {joedbc} {B}/bin/joedbc_asan")
    # the tools themselves, sanitized
    for t, p in scan_main_basename().items():
        if t.startswith("joedb"):
            o = n.obj(p, CXXFLAGS, "asan", implicit=[enc_stamp])
            n.link(t, [o, asio, net, enc, asio, core, net, core], CXXFLAGS)
    jo2 = [n.obj(p, CXXFLAGS, "asan") for p in joedbc_src]
    n.link("joedbc_asan", jo2 + [core], CXXFLAGS)
    return "\n".join(n.lines) + "\n"


def state():
    st = {}
    for root, dirs, files in os.walk(SRC):
        for f in files:
            p = os.path.join(root, f)
            try:
                st[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns]
            except OSError:
                pass
    for p in glob.glob(f"{VERIF}/harness/**/*", recursive=True):
        if os.path.isfile(p):
            st[p] = [hashlib.sha1(open(p, "rb").read()).hexdigest(), os.stat(p).st_mtime_ns]
    return st


def main():
    targets = sys.argv[1:]
    os.makedirs(B, exist_ok=True)
    new = state()
    sp = B + "/srcstate.json"
    if os.path.exists(sp):
        old = json.load(open(sp))
        stale = False
        for p, (h, t) in new.items():
            if p in old and old[p][0] != h and old[p][1] >= t:
                stale = True
        if stale:
            for d in glob.glob(B + "/obj-*") + [B + "/gen", B + "/bin", B + "/lib"]:
                shutil.rmtree(d, ignore_errors=True)
    elif os.path.isdir(B + "/bin"):
        for d in glob.glob(B + "/obj-*") + [B + "/gen", B + "/bin", B + "/lib"]:
            shutil.rmtree(d, ignore_errors=True)
    json.dump(new, open(sp, "w"))
    os.makedirs(B + "/bin", exist_ok=True)
    text = generate()
    np = B + "/build.ninja"
    if not os.path.exists(np) or open(np).read() != text:
        open(np, "w").write(text)
    ts = [t + ".all" if t.startswith("h_") else t for t in targets]
    r = subprocess.run(["ninja", "-k0", "-C", B, "-f", np] + (["-v"] if os.environ.get("VF_VERBOSE") else ["--quiet"]) + ts)
    sys.exit(1 if r.returncode else 0)


main()
