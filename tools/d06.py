#!/usr/bin/env python3
"""Property D06: the compiler produces correct code for any valid schema.

Random schemas are given to joedbc; the generated code must compile, and then
histories of operations run through it (harness/h_compiled.cpp). Mutated
inputs of the compiler must be refused, or give code that compiles.
"""
import concurrent.futures as cf
import json, os, random, re, resource, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
import schemagen
from checks import CHECKS
tier, seed = sys.argv[1], int(sys.argv[2])
REPO = os.environ.get("VF_REPO", "/repo")
B = os.environ.get("VF_BUILD", V + "/build")
W = B + "/d06"
CXX = "clang++"
BASE = f"-std=c++20 -w -pthread -DJOEDB_VERSION=100402 -D_FILE_OFFSET_BITS=64 -I{W}/gen -I{REPO}/src -I{V}/harness"
ASAN = "-O0 -g1 -fsanitize=address"
CPUS = os.cpu_count() or 4
t0 = time.time()


def run(cmd, timeout=120, cwd=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return 999, "timeout"


def joedbc(tool, d, name, joedbi, joedbc_):
    """writes the two files in d, runs the compiler there"""
    os.makedirs(d, exist_ok=True)
    open(f"{d}/{name}.joedbi", "wb").write(joedbi.encode("utf8", "surrogateescape"))
    open(f"{d}/{name}.joedbc", "wb").write(joedbc_.encode("utf8", "surrogateescape"))
    return run([tool, name], cwd=d)


def first_error(text):
    m = re.search(r"error: (.*)", text)
    e = m.group(1) if m else text[-300:]
    return e, re.sub(r"'[^']*'", "'x'", e)


def syntax(d, ns_dir, adapter=None):
    """the errors of the generated code in d/ns_dir, or None"""
    t = f"{d}/syntax.cpp"
    with open(t, "w") as f:
        for h in sorted(os.listdir(f"{d}/{ns_dir}")):
            if h.endswith(".h") and not h.startswith(("Procedure", "RPC_", "Signatures")):
                f.write(f'#include "{ns_dir}/{h}"\n')
        f.write(f'#include "{ns_dir}/writable.cpp"\n')
    c, o = run([CXX] + BASE.split() + [f"-I{d}", "-ferror-limit=3", "-fsyntax-only", t])
    return o if c else None


def violation(schema, kind, text, joedbi, joedbc_):
    os.makedirs(V + "/replays", exist_ok=True)
    p = f"{V}/replays/D06-{seed}-{schema}.txt"
    with open(p, "w", errors="surrogateescape") as f:
        f.write(f"property D06\n{kind}\n{text[:3000]}\n---- .joedbi\n{joedbi}\n---- .joedbc\n{joedbc_}\n---- to replay: put the two texts in x.joedbi and x.joedbc, run joedbc x, and compile the result\n")
    print(f"{kind}: {text[:1500]}")
    print(f"VIOLATION property=D06 replay={p}", flush=True)
    return p


def shrink(lines, options, fails, budget=60):
    end = time.time() + budget
    changed = True
    while changed and time.time() < end:
        changed = False
        for L in (options, lines):
            n = max(1, len(L) // 2)
            while n >= 1 and time.time() < end:
                i = 0
                while i < len(L) and time.time() < end:
                    old = L[i:i + n]
                    del L[i:i + n]
                    if fails(lines, options):
                        changed = True
                    else:
                        L[i:i] = old
                        i += n
                n //= 2
    return lines, options


def compile_failure(d, name, lines, options, signature):
    def fails(l, o):
        w = d + "/shrink"
        shutil.rmtree(w, ignore_errors=True)
        c, _ = joedbc(B + "/bin/joedbc", w, "x", "\n".join(l) + "\n", "\n".join(o) + "\n")
        dirs = [x for x in os.listdir(w) if os.path.isdir(w + "/" + x)]
        if c or not dirs:
            return False
        e = syntax(w, dirs[0])
        return e is not None and first_error(e)[1] == signature
    return shrink(list(lines), list(options), fails) if fails(lines, options) else (lines, options)


stats = dict(schemas=0, compiled=0, tables=0, fields=0, indexes=0, invalid=0, rejected=0, accepted=0, accepted_compiled=0, generated_lines=0)
samples = []
result = None


def make(name, s):
    """generated code and adapter of one schema -> objects, or a failure"""
    d = W + "/gen/vfdb"
    c, o = joedbc(B + "/bin/joedbc", d, name, s.joedbi(), s.joedbc())
    if c:
        return ("a valid schema was refused by joedbc (exit code %d)" % c, o, s)
    open(f"{W}/{name}.adapter.cpp", "w").write(s.adapter())
    objs = []
    for src, out in ((f"{d}/{name}/writable.cpp", f"{W}/{name}.w.o"), (f"{W}/{name}.adapter.cpp", f"{W}/{name}.a.o")):
        c, o = run([CXX] + ASAN.split() + BASE.split() + ["-ferror-limit=3", "-c", src, "-o", out], 300)
        if c:
            if c == 999 or "error:" not in o:
                raise RuntimeError("compiler: " + o[-500:])
            return ("generated code does not compile", o, s)
        objs.append(out)
    return objs


# --------------------------------------------------------------------------
WORDS = ["create_table", "drop_table", "rename_table", "add_field", "drop_field", "rename_field", "custom", "insert_into", "update", "delete_from",
         "namespace", "create_index", "create_unique_index", "set_single_row", "set_table_storage", "int32", "string", "blob", "references", "float64",
         "true", "false", "-1", "0", "99999999999999999999", "a,b", ",", "a,", "::", "a::b", "a::", "=", "\"", "\"x\"", "#", "", "x y", "é", "1a", "a__b", "\\", "class",
         "quit", "abort", "echo on", "dump", "insert_vector", "comment", "timestamp", "valid_data", "default"]


def mutate(rng, s):
    lines, options = list(s.lines), list(s.options)
    kinds = []
    for _ in range(rng.choice([1, 1, 2, 4])):
        L = rng.choice([lines, options, options])
        i = rng.randrange(len(L)) if L else 0
        k = rng.choice(["dup", "drop", "swap", "word", "token", "cut", "byte", "cross", "dupname", "fields"])
        kinds.append(k)
        if not L:
            continue
        if k == "dup":
            L.insert(rng.randrange(len(L) + 1), L[i])
        elif k == "drop":
            del L[i]
        elif k == "swap":
            j = rng.randrange(len(L))
            L[i], L[j] = L[j], L[i]
        elif k == "word":
            w = L[i].split(" ")
            w.insert(rng.randrange(len(w) + 1), rng.choice(WORDS))
            L[i] = " ".join(w)
        elif k == "token":
            w = L[i].split(" ")
            w[rng.randrange(len(w))] = rng.choice(WORDS + [x for y in lines[:20] for x in y.split()])
            L[i] = " ".join(w)
        elif k == "cut":
            w = L[i].split(" ")
            L[i] = " ".join(w[:rng.randrange(len(w) + 1)])
        elif k == "byte":
            b = list(L[i])
            if b:
                b[rng.randrange(len(b))] = chr(rng.choice([0, 9, 13, 34, 44, 92, 200, rng.randrange(32, 127)]))
            L[i] = "".join(b)
        elif k == "cross":
            L.insert(rng.randrange(len(L) + 1), rng.choice(lines or [""]) if L is options else rng.choice(options or [""]))
        elif k == "dupname" and s.indices:
            options.append(rng.choice([o for o in options if "index" in o] or ["#"]))
        elif k == "fields":
            ix = [j for j, o in enumerate(options) if "index" in o]
            if ix:
                j = rng.choice(ix)
                w = options[j].split(" ")
                f = w[-1].split(",")
                all_ = [x["name"] for t in s.tables.values() for x in t["fields"].values()] or ["x"]
                f.insert(rng.randrange(len(f) + 1), rng.choice(all_ + f))
                if rng.random() < .3:
                    f = f[1:]
                options[j] = " ".join(w[:-1] + [",".join(f)])
    return lines, options, kinds


def invalid_case(k, compile_it):
    rng = random.Random(f"{seed}/invalid/{k}")
    s = schemagen.Schema(f"{seed}/{k % 40}", "x")
    lines, options, kinds = mutate(rng, s)
    d = f"{W}/invalid/{k}"
    shutil.rmtree(d, ignore_errors=True)
    text = ("\n".join(lines) + "\n", "\n".join(options) + "\n")
    c, o = joedbc(B + "/bin/joedbc_asan", d, "x", *text)
    try:
        if c not in (0, 1) or "Sanitizer" in o:
            def fails(l, op):
                w = d + "/shrink"
                shutil.rmtree(w, ignore_errors=True)
                c, o = joedbc(B + "/bin/joedbc_asan", w, "x", "\n".join(l) + "\n", "\n".join(op) + "\n")
                return c not in (0, 1) or "Sanitizer" in o
            lines, options = shrink(lines, options, fails)
            return dict(bad=("the compiler crashed on an invalid input", o[:1500], "\n".join(lines), "\n".join(options)))
        if c == 1:
            if not o.strip():
                return dict(bad=("no error message", o, *text))
            return dict(rejected=1)
        r = dict(accepted=1)
        # a namespace named like a C++ keyword or a function of the C library is up to the user
        names = {n for l in options for n in l.split()[1:2] for n in n.split("::") if l.split()[0] == "namespace"}
        if compile_it and names <= set(s.ns) | {"a", "b"}:
            dirs = [x for x in os.listdir(d) if os.path.isdir(d + "/" + x) and not x.endswith(".procedures") and os.path.exists(f"{d}/{x}/writable.h")]
            if len(dirs) != 1:
                return dict(bad=(f"accepted, but {len(dirs)} outputs", o, *text))
            e = syntax(d, dirs[0])
            if e:
                sig = first_error(e)[1]
                lines, options = compile_failure(d, "x", lines, options, sig)
                return dict(bad=("accepted, but the generated code does not compile", e[:1500], "\n".join(lines), "\n".join(options)))
            r["accepted_compiled"] = 1
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def batch(k, n_schemas, cases, n_invalid, n_compile):
    global result
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W + "/gen/vfdb")
    S = {f"s{i}": schemagen.Schema(f"{seed}/{k}", f"s{i}") for i in range(n_schemas)}
    bad = None
    objs = []
    with cf.ThreadPoolExecutor(CPUS) as ex:
        made = {ex.submit(make, n, s): n for n, s in S.items()}
        for f in cf.as_completed(made):
            r = f.result()
            if isinstance(r, list):
                objs += r
                stats["compiled"] += 1
            elif bad is None:
                bad = (made[f],) + r
                for g in made:
                    g.cancel()
                break
    stats["schemas"] += n_schemas
    for n, s in S.items():
        stats["tables"] += len(s.tables)
        stats["fields"] += sum(len(t["fields"]) for t in s.tables.values())
        stats["indexes"] += len(s.indices)
    if not samples:
        s = S["s0"]
        samples.append("schema: " + "; ".join(s.lines)[:700] + " // " + "; ".join(s.options)[:300])
    if bad:
        n, kind, text, s = bad
        lines, options = s.lines, s.options
        if "does not compile" in kind:
            lines, options = compile_failure(W, n, lines, options, first_error(text)[1])
        else:
            def fails(l, o):
                w = W + "/shrink"
                shutil.rmtree(w, ignore_errors=True)
                c, t = joedbc(B + "/bin/joedbc", w, "x", "\n".join(l) + "\n", "\n".join(o) + "\n")
                return c != 0 and t.strip().split("\n")[-1][:60] == text.strip().split("\n")[-1][:60]
            lines, options = list(lines), list(options)
            # dropping lines of the schema would make it invalid: only options are dropped
            o2 = shrink([], options, lambda l, o: fails(lines, o), 20)[1]
            options = o2
        violation(n, kind, text, "\n".join(lines), "\n".join(options))
        return 1
    lib = f"{B}/lib"
    exe = f"{W}/h_d06"
    c, o = run([CXX, "-fsanitize=address", f"{B}/obj-asan/h/harness/h_compiled.cpp.o"] + sorted(objs) + [f"{lib}/vf.a", f"{lib}/core.a", "-o", exe, "-lssh", "-lcurl", "-lbrotlidec", "-lbrotlienc", "-lpthread", "-ldl"] + ["-fsanitize=bounds,shift,integer-divide-by-zero,return,bool"], 300)
    if c:
        print(o[-3000:])
        print("link failed")
        return 2
    ev = f"{V}/evidence/D06.json"
    r = subprocess.run([exe, "--property", "D06", "--tier", tier, "--seed", str(seed + k * 1000), "--verif", V, "--cases", str(cases)], cwd=V)
    e = json.load(open(ev)) if os.path.exists(ev) else None
    if e:
        if result is None:
            result = e
        else:
            a, d = result["coverage"], e["coverage"]
            for q in ("evaluations", "distinct_nontrivial", "discarded", "planned_cases"):
                a[q] = a.get(q, 0) + d.get(q, 0)
            result["violations"] += e["violations"]
    if r.returncode:
        keep = V + f"/replays/D06-{seed}-schemas"
        shutil.rmtree(keep, ignore_errors=True)
        shutil.copytree(W + "/gen/vfdb", keep, ignore=lambda d, fs: [f for f in fs if not f.endswith((".joedbi", ".joedbc"))])
        print(f"the schemas are in {keep}; to replay: {exe} --property D06 --replay FILE")
        return r.returncode if r.returncode in (1, 2) else 2
    with cf.ThreadPoolExecutor(CPUS) as ex:
        rs = [ex.submit(invalid_case, k * n_invalid + i, i < n_compile) for i in range(n_invalid)]
        for i, f in enumerate(rs):
            r = f.result()
            stats["invalid"] += 1
            for q in ("rejected", "accepted", "accepted_compiled"):
                stats[q] += r.get(q, 0)
            if "bad" in r:
                for g in rs:
                    g.cancel()
                violation(f"invalid-{k * n_invalid + i}", *r["bad"])
                return 1
    return 0


def main():
    global result
    b = subprocess.run([sys.executable, V + "/harness/build.py", "d06.base"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if b.returncode:
        print(b.stdout[-6000:])
        print("build failed")
        return 2
    if tier == "quick":
        batches, n, cases, inv, comp = 1, 16, 8000, 300, 100
    else:
        batches, n, cases, inv, comp = 40, 24, 20000, 2000, 300
    code = 0
    for k in range(batches):
        code = batch(k, n, cases, inv, comp)
        if code or time.time() - t0 > (600 if tier == "quick" else 5400):
            break
    if code == 2:
        return 2
    if not code:
        shutil.rmtree(W, ignore_errors=True)
    if result is None:
        result = {"property": "D06", "tier": tier, "seed": seed, "level": "exploration", "violations": 1 if code == 1 else 0, "assumptions": [],
                  "coverage": {"rule": "a schema whose generated code compiled", "evaluations": stats["schemas"], "distinct_nontrivial": stats["compiled"], "labels": {}, "samples": []}}
    c = result["coverage"]
    c["method"] = CHECKS["D06"]["technique"]
    c["schemas"] = stats
    c["samples"] = samples + c.get("samples", [])[:8]
    c["rule"] += "; for schemas: generated code compiled; for invalid inputs: refused with a message, or accepted and the code compiled"
    if code == 1:
        result["violations"] = max(1, result["violations"] if isinstance(result["violations"], int) else 1)
    result["wall_s"] = round(time.time() - t0, 1)
    json.dump(result, open(f"{V}/evidence/D06.json", "w"), indent=1)
    print("D06:", json.dumps(stats))
    return code


try:
    r = main()
except Exception as e:
    print("error:", e)
    r = 2
sys.exit(r)
