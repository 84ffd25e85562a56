"""Random schemas for the compiler, with the adapter that gives generated code a uniform interface.

A schema is a pure function of (seed, name). It comes with:
 NAME.joedbi, NAME.joedbc   input of joedbc
 NAME.adapter.cpp           uses the generated code through harness/compiled.h
"""
import os, random, sys

TYPES = ["string", "int32", "int64", "references", "boolean", "float32", "float64", "int8", "int16", "blob"]
KEYWORDS = ["class", "default", "delete", "new", "return", "while", "int", "namespace", "template", "operator", "this", "auto", "union"]
LOCALS = ["range", "db", "id", "record", "size", "position", "journal", "value", "result", "out", "index", "iterator", "name", "comment",
          "table", "type", "std", "joedb", "detail", "file", "key", "first", "last", "end", "begin", "target", "span", "freedom_keeper",
          "map_iterator", "i", "fk", "data", "E", "s", "message", "string", "Record_Id", "Database", "Client", "NULL", "errno", "linux", "test", "timestamp",
          "checkpoint", "blob", "schema", "max", "min", "x", "resize", "storage", "field", "field_value", "vector", "row", "into", "from", "schema_checkpoint", "own", "of", "the", "multi", "free", "custom", "journal"]


class Schema:
    def __init__(self, seed, name, plain_names=False):
        self.name = name
        self.rng = rng = random.Random(f"{seed}/{name}")
        self.plain = plain_names
        self.lines, self.events = [], []
        self.tables = {}       # id -> dict(name, fields{id: dict(name,type,ref)}, last, default)
        self.last = 0
        self.customs = []      # (name, table or 0, field or 0)
        self.dropped_names = []
        # what a table will be: decided first, so that defaults avoid unique indexes
        for _ in range(rng.randint(14, 45) if rng.random() < .7 else rng.randint(0, 60)):
            self.step()
        # references to dropped tables must not remain in the final schema
        for tid, t in sorted(self.tables.items()):
            for fid, f in sorted(t["fields"].items()):
                if f["type"] == "references" and f["ref"] not in self.tables:
                    self.drop_field(tid, fid)
        if rng.random() < .1:
            self.lines.append("")
        self.make_options()

    # names
    def fresh(self, used):
        rng = self.rng
        while True:
            k = rng.random()
            if self.plain or k < .45:
                n = "".join(rng.choice("abcdefgh") for _ in range(rng.randint(1, 5)))
            elif k < .6:
                n = rng.choice(KEYWORDS)
            elif k < .85:
                n = rng.choice(LOCALS)
            elif k < .95 and self.dropped_names:
                n = rng.choice(self.dropped_names)
            else:
                n = rng.choice(["_", "", "A"]) + rng.choice("abXYZ") + "_" + rng.choice(["1", "b", "Long_Name_2", "x_y_z9"])
            if n not in used:
                return n

    def default_value(self, f):
        rng = self.rng
        t = f["type"]
        if t == "string":
            b = bytes(rng.choice([rng.randrange(256), 65 + rng.randrange(26), rng.choice(b'"\\?\n09aF')]) for _ in range(rng.choice([0, 1, 3, 12])))
            return '"' + "".join(chr(c) if c < 128 and chr(c).isalnum() and rng.random() < .7 else "\\x%02x" % c for c in b) + '"', "S(std::string(" + ('"' + "".join("\\%03o" % c for c in b) + '"' if b else '""') + f",{len(b)}))"
        if t in ("int8", "int16", "int32", "int64"):
            n = int(t[3:])
            v = rng.choice([0, 1, -1, 7, 2 ** (n - 1) - 1, -2 ** (n - 1), rng.randrange(-2 ** (n - 1), 2 ** (n - 1))])
            return str(v), f"I({t}_t_, std::string(\"{v}\"))"
        if t == "boolean":
            v = rng.random() < .5
            return str(v).lower(), f"I(boolean_t_, \"{int(v)}\")"
        if t == "blob":
            p, n = rng.choice([(0, 0), (41, 3), (1000, 0)])
            return f"{p},{n}", f"BL({p}, {n})"
        if t == "references":
            v = rng.choice([-1, 0, 5])
            return str(v), f"I(reference_t_, \"{v}\")"
        v = rng.choice([0.0, 0.5, -1.25, 1e10, 3.0, 0.1, 1.0 / 3, 123456789.125, 1e-30, 2.5e38 if t == "float32" else 1.7976931348623157e308, rng.uniform(-1000, 1000)])
        if t == "float32":
            return repr(v), f"F32(\"{v!r}\")"
        return repr(v), f"F64(\"{v!r}\")"

    def drop_field(self, tid, fid):
        t = self.tables[tid]
        self.lines.append(f"drop_field {t['name']} {t['fields'][fid]['name']}")
        self.events.append(f'df({tid}, {fid})')
        self.customs = [(c, a, b) if (a, b) != (tid, fid) else (c, a, 0) for c, a, b in self.customs]
        del t["fields"][fid]

    def step(self):
        rng = self.rng
        ops = ["table"] * 3 + ["field"] * 14 + ["rename_table", "rename_field", "drop_field", "drop_table", "custom", "noise"]
        op = rng.choice(ops)
        if not self.tables:
            op = rng.choice(["table", "table", "table", "custom", "noise"])
        tid = rng.choice(sorted(self.tables)) if self.tables else 0
        t = self.tables.get(tid)
        names = {x["name"] for x in self.tables.values()}
        if op == "table":
            n = self.fresh(names)
            self.last += 1
            self.tables[self.last] = t = dict(name=n, fields={}, last=0, default=False)
            self.lines.append(f"create_table {n}")
            self.events.append(f'ct("{n}")')
            if rng.random() < .25:
                self.lines.append(f"insert_into {n} {rng.choice([0, 0, 3])}")
                t["default"] = True
        elif op == "field":
            typ = rng.choice(TYPES)
            n = self.fresh({f["name"] for f in t["fields"].values()})
            t["last"] += 1
            f = dict(name=n, type=typ, ref=0, default=None)
            l = f"add_field {t['name']} {n} {typ}"
            if typ == "references":
                f["ref"] = rng.choice(sorted(self.tables))
                l += " " + self.tables[f["ref"]]["name"]
            if t["default"]:
                if rng.random() < .8:
                    txt, f["default"] = self.default_value(f)
                    l += " = " + txt
                else:
                    f["default"] = "D"
            t["fields"][t["last"]] = f
            self.lines.append(l)
            ct = "reference" if typ == "references" else typ
            self.events.append(f'af({tid}, "{n}", model::t_{ct}, {f["ref"]})')
        elif op == "rename_table":
            n = self.fresh(names)
            self.lines.append(f"rename_table {t['name']} {n}")
            self.events.append(f'rt({tid}, "{n}")')
            self.dropped_names.append(t["name"])
            t["name"] = n
        elif op == "rename_field" and t["fields"]:
            fid = rng.choice(sorted(t["fields"]))
            n = self.fresh({f["name"] for f in t["fields"].values()})
            self.lines.append(f"rename_field {t['name']} {t['fields'][fid]['name']} {n}")
            self.events.append(f'rf({tid}, {fid}, "{n}")')
            t["fields"][fid]["name"] = n
        elif op == "drop_field" and t["fields"]:
            fid = rng.choice(sorted(t["fields"]))
            self.drop_field(tid, fid)
        elif op == "drop_table" and (rng.random() < .3 or not any(f["ref"] == tid for u, x in self.tables.items() if u != tid for f in x["fields"].values())):
            self.lines.append(f"drop_table {t['name']}")
            self.events.append(f'dt({tid})')
            self.dropped_names.append(t["name"])
            self.customs = [(c, a, b) if a != tid else (c, 0, 0) for c, a, b in self.customs]
            del self.tables[tid]
        elif op == "custom":
            n = f"custom_{len(self.customs)}"
            if self.customs and rng.random() < .15:
                n = rng.choice(self.customs)[0]
                self.lines.append(f"custom {n}")
                self.events.append(f'cu("{n}")')
                return
            self.lines.append(f"custom {n}")
            self.events.append(f'cu("{n}")')
            fid = 0
            if t:
                c = [i for i, f in t["fields"].items() if f["type"] == "int32"]
                fid = rng.choice(c) if c and rng.random() < .8 else 0
            self.customs.append((n, tid if rng.random() < .8 else 0, fid))
        elif op == "noise":
            self.lines.append(rng.choice(["# a comment", "", 'comment "hello"', "timestamp 123", "valid_data"]))

    def make_options(self):
        rng = self.rng
        self.ns = ["vfdb_" + rng.choice("abc")] * rng.choice([0, 0, 1]) + (["nested"] if rng.random() < .3 else []) + [self.name]
        o = ["namespace " + "::".join(self.ns)]
        self.single, self.indices = set(), []
        used = set()
        for tid, t in sorted(self.tables.items()):
            if rng.random() < .15 and not any(f["name"] in ("journal", "schema_checkpoint") for f in t["fields"].values()):
                self.single.add(tid)
                o.append(f"set_single_row {t['name']} true")
            elif rng.random() < .05:
                o.append(f"set_single_row {t['name']} false")
            fs = [i for i, f in t["fields"].items() if f["type"] != "blob"]
            while fs and rng.random() < (.2 if tid in self.single else .6):
                k = rng.sample(fs, min(len(fs), rng.choice([1, 1, 2, 2, 3])))
                n = self.fresh(used)
                used.add(n)
                u = rng.random() < .5 and not t["default"]
                self.indices.append(dict(name=n, unique=u, table=tid, fields=k))
                o.append(f"create_{'unique_' if u else ''}index {n} {t['name']} " + ",".join(t["fields"][i]["name"] for i in k))
        if rng.random() < .3:
            o.insert(rng.randrange(1, len(o) + 1), "# comment")
        self.options = o
        # effects of customs: not on single rows, not on a field of a unique index
        r = []
        for c, a, b in self.customs:
            if a in self.single:
                a = b = 0
            if any(i["unique"] and b in i["fields"] and i["table"] == a for i in self.indices):
                b = 0
            r.append((c, a, b))
        self.customs = r

    # output
    def joedbi(self):
        return "\n".join(self.lines) + "\n"

    def joedbc(self):
        return "\n".join(self.options) + "\n"

    def adapter(self):
        ns = "::".join(self.ns)
        T = self.tables
        o = []
        w = o.append
        w(f'#include "vfdb/{self.name}/writable.h"')
        w(f'#include "vfdb/{self.name}/Readable.h"\n#include "vfdb/{self.name}/print_table.h"\n#include "vfdb/{self.name}/Memory_Database.h"\n#include "vfdb/{self.name}/Interpreted_File_Database.h"\n#include "vfdb/{self.name}/Readonly_Interpreted_File_Database.h"\n#include "vfdb/{self.name}/Multiplexer.h"\n#include "vfdb/{self.name}/Client.h"\n#include "vfdb/{self.name}/File_Client.h"\n#include "vfdb/{self.name}/Readonly_Client.h"\n#include "vfdb/{self.name}/Readonly_Database.h"\n#include "compiled.h"')
        w("using namespace vfc;\nnamespace\n{")
        w(f"struct A_{self.name}\n{{")
        w(f"using Database = {ns}::Database; using Writable_Database = {ns}::Writable_Database; using File_Database = {ns}::File_Database; using Memory_Database = {ns}::Memory_Database; using Readonly_Database = {ns}::Readonly_Database; using Client = {ns}::Client; using Client_Lock = {ns}::Client_Lock; using File_Client = {ns}::File_Client; using Readonly_Client = {ns}::Readonly_Client; using Multiplexer = {ns}::Multiplexer; using Readable = {ns}::Readable; using Readonly_Interpreted_File_Database = {ns}::Readonly_Interpreted_File_Database; using Interpreted_File_Database = {ns}::Interpreted_File_Database;")

        def tcase(fn):
            for tid, t in sorted(T.items()):
                s = fn(tid, t)
                if s:
                    w(f" case {tid}: {s}")

        def idt(t):
            return f"{ns}::id_of_{t['name']}"
        I = "int64_t"
        w("template<class F> static void table(const Database &db, int t, F f)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"f(db.get_{t['name']}_table()); return;")
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static bool valid(const Database &db, int t, int64_t r)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.is_valid({idt(t)}(r));")
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static int64_t next(const Database &db, int t, int64_t r)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.next({idt(t)}(r)).get_id();")
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static int64_t previous(const Database &db, int t, int64_t r)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.previous({idt(t)}(r)).get_id();")
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static int64_t null(int t)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return Database::null_{t['name']}().get_id();")
        w(" }\n throw std::logic_error(\"table\");\n}")

        def fcase(ind, fn):
            for tid, t in sorted(T.items()):
                rows = [(fid, fn(tid, t, fid, f)) for fid, f in sorted(t["fields"].items())]
                rows = [(a, b) for a, b in rows if b]
                if rows:
                    w(f" case {tid}: switch (f)\n {{")
                    for fid, s in rows:
                        w(f"  case {fid}: {s}")
                    w(" }\n break;")

        def mt(f):
            return "model::t_" + ("reference" if f["type"] == "references" else f["type"])
        end = " }\n throw std::logic_error(\"field\");\n}"
        # as const Database
        w("static Value get(const Database &db, int t, int f, int64_t r)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"return V({mt(f)}, db.get_{f['name']}({idt(t)}(r)));")
        w(end)
        # as Writable_Database, what users have in a transaction
        w("static Value wget(const Writable_Database &db, int t, int f, int64_t r)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"return V({mt(f)}, db.get_{f['name']}({idt(t)}(r)));")
        w(end)
        w("static Value get_single(const Database &db, int t, int f)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"return V({mt(f)}, db.get_{f['name']}(db.the_{t['name']}()));" if ti in self.single else None)
        w(end)

        def arg(f, v):
            if f["type"] == "references":
                return f"{ns}::id_of_{T[f['ref']]['name']}({v}.i)"
            if f["type"] == "string":
                return f"{v}.s"
            if f["type"] == "blob":
                return f"joedb::Blob({v}.i, {v}.n)"
            if f["type"] == "boolean":
                return f"bool({v}.i)"
            if f["type"] == "float32":
                return f"{v}.f"
            if f["type"] == "float64":
                return f"{v}.d"
            return f"{f['type']}_t({v}.i)"
        w("static void set(Writable_Database &db, int t, int f, int64_t r, const Value &v)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"db.set_{f['name']}({idt(t)}(r), {arg(f, 'v')}); return;")
        w(end)
        names = [f["name"] for t in T.values() for f in t["fields"].values()]
        w("static bool set_single(Writable_Database &db, int t, int f, const Value &v)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"db.set_{f['name']}({arg(f, 'v')}); return true;" if ti in self.single and names.count(f["name"]) == 1 else "return false;")
        w(" }\n return false;\n}")
        w("static void update_vector(Writable_Database &db, int t, int f, int64_t r, const std::vector<Value> &v)\n{\n switch (t)\n {")
        fcase(0, lambda ti, t, fi, f: f"db.update_vector_of_{f['name']}({idt(t)}(r), v.size(), [&](auto span) {{size_t i = 0; for (auto &x: span) {{const Value &y = v[i++]; x = {arg(f, 'y')};}}}}); return;" if ti not in self.single else None)
        w(end)
        w("static int64_t create(Writable_Database &db, int t)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.new_{t['name']}().get_id();" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static int64_t create_with(Writable_Database &db, int t, const std::vector<Value> &v)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.new_{t['name']}(" + ", ".join(arg(f, f"v[{k}]") for k, (fi, f) in enumerate(sorted(t["fields"].items()))) + ").get_id();" if i not in self.single and t["fields"] else None)
        w(" }\n return create(db, t);\n}")
        w("static void insert(Writable_Database &db, int t, int64_t r)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"db.insert_{t['name']}({idt(t)}(r)); return;" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static int64_t create_vector(Writable_Database &db, int t, size_t n)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"return db.new_vector_of_{t['name']}(n).get_id();" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static void erase(Writable_Database &db, int t, int64_t r)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"db.delete_{t['name']}({idt(t)}(r)); return;" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static void erase_vector(Writable_Database &db, int t, int64_t r, size_t n)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"db.delete_vector_of_{t['name']}({idt(t)}(r), n); return;" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("static void clear(Writable_Database &db, int t)\n{\n switch (t)\n {")
        tcase(lambda i, t: f"db.clear_{t['name']}_table(); return;" if i not in self.single else None)
        w(" }\n throw std::logic_error(\"table\");\n}")
        w("template<class L> static std::vector<int64_t> sorted(const Database &db, int t, L less)\n{\n std::vector<int64_t> result;\n switch (t)\n {")
        tcase(lambda i, t: f"for (auto x: db.sorted_{t['name']}([&](auto a, auto b) {{return less(a.get_id(), b.get_id());}})) result.push_back(x.get_id()); return result;" if i not in self.single else None)
        w(" }\n return result;\n}")
        w("static std::string print(const Database &db, int t)\n{\n std::ostringstream out;\n switch (t)\n {")
        tcase(lambda i, t: f"{ns}::print_{t['name']}_table(out, db); break;")
        w(" }\n return out.str();\n}")
        # indexes
        w("static Index_Content index(Database &db, int i)\n{\n Index_Content result;\n switch (i)\n {")
        for k, ix in enumerate(self.indices):
            t = T[ix["table"]]
            fs = [t["fields"][x] for x in ix["fields"]]
            tys = ", ".join(mt(f) for f in fs)
            w(f"  case {k}: for (auto &x: db.get_index_of_{ix['name']}()) result.emplace_back(key<{tys}>(x.first), x.second.get_id()); break;")
        w(" }\n return result;\n}")
        w("static std::vector<int64_t> find(const Database &db, int i, const std::vector<Value> &v)\n{\n std::vector<int64_t> result;\n switch (i)\n {")
        for k, ix in enumerate(self.indices):
            t = T[ix["table"]]
            fs = [t["fields"][x] for x in ix["fields"]]
            a = ", ".join(arg(f, f"v[{j}]") for j, f in enumerate(fs))
            if ix["unique"]:
                w(f"  case {k}: {{const auto x = db.find_{ix['name']}({a}); if (x.is_not_null()) result.push_back(x.get_id());}} break;")
            else:
                w(f"  case {k}: {{const auto range = db.find_{ix['name']}({a}); for (const auto x: range) result.push_back(x.get_id()); if (range.size() != result.size() || range.empty() != result.empty()) throw std::logic_error(\"range size\");}} break;")
        w(" }\n return result;\n}")
        for fn in ("next", "previous"):
            w(f"static int64_t {fn}_unique(Database &db, int i, int64_t r)\n{{\n switch (i)\n {{")
            for k, ix in enumerate(self.indices):
                if ix["unique"]:
                    w(f"  case {k}: return db.{fn}_{ix['name']}({idt(T[ix['table']])}(r)).get_id();")
            w(" }\n return -1;\n}")
        w("};")
        w(f"static std::vector<model::Event> events() {{return {{{', '.join(self.events)}}};}}")
        w("static std::vector<Index> indices() {return {" + ", ".join(
            f'{{"{ix["name"]}", {str(ix["unique"]).lower()}, {ix["table"]}, {{{", ".join(map(str, ix["fields"]))}}}}}' for ix in self.indices) + "};}")
        w("static std::set<int> single() {return {" + ", ".join(map(str, sorted(self.single))) + "};}")
        d = [f"{{{{{ti}, {fi}}}, {('Value::def(' + mt(f) + ')') if f['default'] == 'D' else f['default']}}}" for ti, t in sorted(T.items()) if t["default"] for fi, f in sorted(t["fields"].items())]
        w("static std::map<std::pair<int, int>, Value> defaults() {return {" + ", ".join(d) + "};}")
        w("static std::map<std::string, Custom_Effect> customs() {return {" + ", ".join(f'{{"{c}", {{{a}, {b}, {k * 7 + 1}}}}}' for k, (c, a, b) in enumerate(self.customs)) + "};}")
        w(f'static Registered<A_{self.name}> registered("{self.name}", events(), indices(), single(), defaults(), customs());')
        w("}")
        for k, (c, a, b) in enumerate(self.customs):
            body = f'vfc::custom_log.push_back("{c}");'
            if a:
                body += f" auto r = db.new_{T[a]['name']}();"
                if b:
                    body += f" db.set_{T[a]['fields'][b]['name']}(r, {k * 7 + 1});"
            w(f"void {ns}::Writable_Database::{c}(Writable_Database &db) {{{body}}}")
        return "\n".join(o) + "\n"

    def write(self, d):
        os.makedirs(d, exist_ok=True)
        for ext, text in ((".joedbi", self.joedbi()), (".joedbc", self.joedbc()), (".adapter.cpp", self.adapter())):
            p = f"{d}/{self.name}{ext}"
            if not os.path.exists(p) or open(p).read() != text:
                open(p, "w").write(text)


if __name__ == "__main__":
    s = Schema(sys.argv[1], sys.argv[2])
    if len(sys.argv) > 3:
        s.write(sys.argv[3])
    else:
        print(s.joedbi(), "----", s.joedbc(), "----", s.adapter(), sep="\n")
