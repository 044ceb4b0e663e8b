"""C18: what the generated bindings name, against what the library exports."""
import json, os, random, re, shutil, subprocess
from . import common
from .common import VERIF, REPO

CAPI = os.path.join(VERIF, "harness", "capi")
WORK = os.path.join(CAPI, "target", "c18")
CT = dict(U8="uint8_t", U16="uint16_t", U32="uint32_t", U64="uint64_t", I8="int8_t", I16="int16_t", I32="int32_t",
          I64="int64_t", Bool="bool", F32="float", F64="double")
CS = dict(U8="byte", U16="ushort", U32="uint", U64="ulong", I8="sbyte", I16="short", I32="int", I64="long", Bool="bool",
          F32="float", F64="double")
TYPES = list(CT) + ["String", "ObjectHandle", "ContractDataHandle"]
PLATFORM = ["rsharp", "tp_client", "tp_contract_example"]
CH = "tp_client__contract__properties__channels__"
ST = "tp_client__contract__properties__states__"


class Out:
    def __init__(self):
        self.v, self.n, self.samples, self.counters, self.distinct = [], 0, [], {}, set()

    def bad(self, key, what, detail=()):
        if len(self.v) < 20:
            self.v.append(dict(key=key, what=what, detail=[str(d)[:400] for d in detail][:60]))

    def saw(self, what, n=1, sig=None):
        self.n += n
        self.counters[what] = self.counters.get(what, 0) + n
        self.distinct.add((what, sig))


def declarations(header, lang, o):
    """name -> list of types, as the compiler reads the header."""
    src = os.path.join(WORK, "include." + ("c" if lang == "c" else "cc"))
    with open(src, "w") as f:
        f.write(f'#include "{header}"\n')
    rc, out, err = common.sh(["clang" if lang == "c" else "clang++", "-fsyntax-only", "-Xclang", "-ast-dump=json", src], env_=common.env())
    d = {}

    def walk(nodes):
        for n in nodes:
            if n.get("kind") == "FunctionDecl" and not n.get("isImplicit") and "__" in n["name"]:
                ps = [p["type"]["qualType"] for p in n.get("inner", []) if p.get("kind") == "ParmVarDecl"]
                d.setdefault(n["name"], []).append((n["type"]["qualType"], tuple(ps)))
            elif n.get("kind") == "LinkageSpecDecl":
                walk(n.get("inner", []))
    walk(json.loads(out)["inner"])
    # what the system headers declare is not part of the interface
    text = open(header).read()
    return {k: v for k, v in d.items() if re.search(r"\b%s\s*\(" % re.escape(k), text)}, rc, err


def compile_header(header, name, o):
    for cc, std in [("gcc", "c99"), ("gcc", "c11"), ("clang", "c99"), ("clang", "c11"), ("g++", "c++11"), ("g++", "c++17"), ("clang++", "c++11"), ("clang++", "c++17")]:
        ext = "cc" if "++" in cc else "c"
        src = os.path.join(WORK, f"once.{ext}")
        with open(src, "w") as f:
            # twice: it must guard itself
            f.write(f'#include "{header}"\n#include "{header}"\nint used;\n')
        rc, out, err = common.sh([cc, f"-std={std}", "-Wall", "-Wextra", "-Werror", "-fsyntax-only", src])
        o.saw("header compilations", sig=(name, cc, std))
        if rc:
            o.bad(f"the header does not compile as {'C++' if '++' in cc else 'C'}", f"the header of {name} does not compile with {cc} -std={std}", (out + err).splitlines())


def nm(path, dynamic):
    rc, out, err = common.sh(["nm"] + (["-D"] if dynamic else []) + ["--defined-only", "--extern-only", path])
    return {l.split()[-1] for l in out.splitlines() if len(l.split()) == 3 and l.split()[1] in "TWi"}


def is_rust(s):
    return s.startswith(("_ZN", "_R", "rust_", "__rust", "__rg", "_init", "_fini", "__rdl"))


def norm(s):
    return s.replace("_", "").lower()


def client(rng, decl):
    """A C program that uses the header only, and checks values that come back."""
    def num(t):
        if t == "Bool":
            return rng.choice(["true", "false"])
        if t in ("F32", "F64"):
            return repr(float(rng.choice([0.0, 1.5, -2.25, 1e10, 0.125 * rng.randint(-1000, 1000)])))
        bits = int(t[1:])
        lo, hi = (0, 2 ** bits - 1) if t[0] == "U" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
        v = rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)])
        if v == -2 ** 63:
            return "INT64_MIN"
        return f"{v}{'u' if t[0] == 'U' else ''}{'ll' if bits == 64 else ''}"
    L = ['#include <stdio.h>', '#include <string.h>', '#include "interface.h"',
         'static int checks; static int bad;',
         '#define CHECK(c) do { checks++; if (!(c)) { bad++; printf("FAILED line %d: %s\\n", __LINE__, #c); } } while (0)',
         'static String_t *str(char const *s) { slice_ref_uint8_t r; r.ptr = (uint8_t const *)s; r.len = strlen(s); return rsharp__String__copy_utf8(r); }',
         'static int streq(String_t const *a, char const *s) { slice_ref_uint8_t r = rsharp__String__value(a); return r.len == strlen(s) && memcmp(r.ptr, s, r.len) == 0; }']
    calls = []
    for t in list(CT) + ["String"]:
        K = f"{CH}Keyframe_{t}"
        V = f"Vec_{CH}Keyframe_{t}_t"
        if t == "String":
            vals = ['"' + "".join(rng.choice("abcXYZ 0123") for _ in range(rng.randint(0, 30))) + '"' for _ in range(6)]
            own, eq = (lambda v: f"str({v})"), (lambda p, v: f"streq({p}, {v})")
        else:
            vals = [num(t) for _ in range(6)]
            own, eq = (lambda v: f"rsharp__Box_{t}__new(({CT[t]}){v})"), (lambda p, v: f"*({p}) == ({CT[t]}){v}")
        a, b, c, d, e, f = vals
        L.append(f"static void t_{t}(void) {{")
        if t != "String":
            L.append(f"  {{ {CT[t]} *p = {own(a)}; CHECK({eq('p', a)}); rsharp__Box_{t}__drop(p); }}")
        L += [
            f"  {ST}State_{t}_t *s = {ST}State_{t}__new({own(a)});",
            f"  CHECK({eq(f'{ST}State_{t}__value(s)', a)});",
            f"  {ST}State_{t}__value_set(s, {own(b)}); CHECK({eq(f'{ST}State_{t}__value(s)', b)});",
            f"  {ST}State_{t}__drop(s);",
            f"  {V} v = {CH}RVec_Keyframe{t}__new(); CHECK(v.len == 0);",
            f"  {CH}RVec_Keyframe{t}__push(&v, {K}__new({own(c)}, 3.0));",
            f"  {CH}RVec_Keyframe{t}__push(&v, {K}__new({own(d)}, 1.0));",
            f"  {CH}RVec_Keyframe{t}__push(&v, {K}__new({own(e)}, 2.0)); CHECK(v.len == 3);",
            f"  {CH}RVec_Keyframe{t}__set(&v, 2, {K}__new({own(f)}, 2.5));",
            f"  CHECK({eq(f'{K}__value({CH}RVec_Keyframe{t}__get(&v, 2))', f)}); CHECK({K}__time({CH}RVec_Keyframe{t}__get(&v, 0)) == 3.0);",
            f"  {CH}Channel_{t}_t *ch = {CH}Channel_{t}__new(v);",
            f"  Vec_{CH}Keyframe_{t}_const_ptr_t k = {CH}Channel_{t}__keyframes(ch); CHECK(k.len == 3);",
            f"  if (k.len == 3) {{ CHECK({K}__time(k.ptr[0]) == 1.0); CHECK({eq(f'{K}__value(k.ptr[0])', d)}); CHECK({K}__time(k.ptr[1]) == 2.5);"
            f" CHECK({eq(f'{K}__value(k.ptr[1])', f)}); CHECK({eq(f'{K}__value(k.ptr[2])', c)}); }}",
            f"  {CH}Channel_{t}__keyframes_drop(k);",
            f"  Vec_{CH}Keyframe_{t}_ptr_t m = {CH}Channel_{t}__keyframes_mut(ch); CHECK(m.len == 3); {CH}Channel_{t}__keyframes_mut_drop(m);",
            f"  {CH}Channel_{t}__drop(ch);",
            f"  {{ {K}_t *one = {K}__new({own(a)}, 7.5); CHECK({K}__time(one) == 7.5); CHECK({eq(f'{K}__value(one)', a)}); {K}__drop(one); }}",
            f"  {{ {V} e = {CH}RVec_Keyframe{t}__new(); {CH}RVec_Keyframe{t}__drop(e); }}",
            "}"]
        calls.append(f"t_{t}();")
    # the example contract: every argument reaches the field of its name
    fields = [("u8_0", "U8"), ("u8_1", "U8"), ("i8_0", "I8"), ("i8_1", "I8"), ("f32_0", "F32"), ("f32_1", "F32")]
    E = "tp_contract_example__Example"
    B = "tp_client__baseline__Baseline__"
    val = {n: num(t) for n, t in fields}
    val["u8_0"], val["u8_1"], val["i8_0"], val["i8_1"], val["f32_0"], val["f32_1"] = "11", "22", "-3", "44", "0.5", "-8.25"
    L += ["static void example(void) {",
          f"  Baseline_t *b = {B}new(BASELINE_KIND_MAIN);" if "BASELINE_KIND_MAIN" in decl["text"] else f"  Baseline_t *b = {B}new(({{BaselineKind_t k; memset(&k, 0, sizeof k); k;}}));",
          f"  CHECK({B}kind(b) == 0);",
          f"  {E}Contract_t *c = {E}Contract__register(b);",
          f"  {E}States_t const *s = {E}Contract__states(c);",
          # the first object needs another: there is one of the ball contract
          "  BallContract_t *ball = BallContract__register(b);",
          "  tp_client__object__ObjectHandle_t *bo = BallContract__object_create(b, ball, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);",
          f"  tp_client__object__ObjectHandle_t *o = {E}Contract__object_create(c, b, {', '.join(val[n] for n, _ in fields)}, str(\"text\"), bo, {E}Contract__handle(c));"
          ]

    def read(pre, s, n, t, cond, obj="o"):
        return (f"  {{ {ST}StateId_{t}_t *id = {pre}States__{n}({s}); {ST}StateHandle_{t}_t *h = {B}bind_state_{t}(b, id, {obj});"
                f" CHECK({cond(f'{ST}State_{t}__value({B}state_{t}(b, h))')}); CHECK({B}state_mut_{t}(b, h) != NULL);"
                f" tp_client__contract__ContractDataHandle_t *ch = {ST}StateId_{t}__contract(id); CHECK({B}contract_data(b, ch) != NULL); tp_client__contract__ContractDataHandle__drop(ch);"
                f" {ST}StateHandle_{t}__drop(h); {ST}StateId_{t}__drop(id); }}")
    for n, t in fields:
        L.append(read(E, "s", n, t, lambda p, n=n, t=t: f"*({p}) == ({CT[t]}){val[n]}"))
    L.append(read(E, "s", "str_0", "String", lambda p: f'streq({p}, "text")'))
    L.append(read(E, "s", "oh_0", "ObjectHandle", lambda p: f"{B}object(b, {p}) != NULL"))
    L.append(read(E, "s", "ch_0", "ContractDataHandle", lambda p: f"{B}contract_data(b, {p}) == {B}contract_data(b, {p})"))
    L += [f"  tp_client__contract__ContractDataHandle_t *h = {E}Contract__handle(c);",
          f"  tp_client__contract__ContractData_t const *cd = {B}contract_data(b, h);",
          "  Vec_tp_client__object__ObjectHandle_t objs = tp_client__contract__ContractData__objects(cd); CHECK(objs.len == 1);",
          "  tp_client__contract__ContractData__objects_drop(objs);",
          "  { slice_ref_uint8_t n = tp_client__contract__ContractId__name(tp_client__contract__ContractData__id(cd)); CHECK(n.len > 0); }",
          "  tp_client__contract__ContractDataHandle__drop(h);",
          f"  {E}Contract__object_remove(b, o); {E}Contract__drop(c);",
          "  BallStates_t const *bs = BallContract__states(ball);",
          "  tp_client__object__ObjectHandle_t *p = BallContract__object_create(b, ball, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10);"]
    for i, (n, t) in enumerate([("pos_x", "F32"), ("pos_y", "F32"), ("pos_z", "F32"), ("euler_x", "I16"), ("euler_y", "I16"), ("euler_z", "I16"), ("scale_x", "F32"), ("scale_y", "F32"), ("scale_z", "F32"), ("color", "U64")]):
        L.append(read("Ball", "bs", n, t, lambda q, i=i: f"*({q}) == {i + 1}", "p"))
    L += ["  BallContract__object_remove(b, p); BallContract__unregister(b, BallContract__handle(ball)); BallContract__drop(ball);",
          f"  {B}drop(b);", "}",
          "int main(void) {", "  " + " ".join(calls), "  example();", '  printf("checks %d bad %d\\n", checks, bad);', "  return bad ? 3 : 0;", "}"]
    return "\n".join(L) + "\n"


def exports(ctx, o):
    common.build(["cargo", "build", "--offline", "-q", "--bin", "headers", "--bin", "headers_client", "--bin", "headers_example"], CAPI)
    deps = os.path.join(CAPI, "target", "debug", "deps")
    so = os.path.join(deps, "libunity_states.so")
    sym = {s for s in nm(so, True) if not is_rust(s)}
    return so, sym


def header(ctx, binary, o):
    path = os.path.join(WORK, f"{binary}.h")
    for k in range(2):
        if os.path.exists(path):
            os.unlink(path)
        rc, out, err = common.sh([os.path.join(CAPI, "target", "debug", binary), path], env_=common.env(CARGO_PKG_NAME="constellation"))
        if rc == 0 and os.path.exists(path):
            return path
    o.bad("header generation fails", f"the C header cannot be generated ({binary})", (out + err).splitlines()[-20:])


def origin(o):
    """Exported name -> crate that defines it, from the libraries just built."""
    rc, out, err = common.sh(["cargo", "build", "--offline", "--bin", "headers", "--message-format=json"], cwd=CAPI)
    libs = {}
    for l in out.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            for f in m.get("filenames", []):
                if f.endswith(".rlib"):
                    libs[m["target"]["name"].replace("-", "_")] = f
    org = {}
    for c in PLATFORM + ["unity_states", "arena", "better_borrow"]:
        if c not in libs:
            continue
        for s in nm(libs[c], False):
            if not is_rust(s) and "__" in s and not s.startswith("_"):
                org.setdefault(s, []).append(c)
    return org


def module_paths(names, o):
    """Prefixes that are not the path of a public module (or type), found by compiling `use` items."""
    paths = {}
    for n in names:
        seg = n.split("__")
        mods = []
        while len(seg) > 1 and re.fullmatch(r"[a-z][a-z0-9_]*", seg[0]):
            mods.append(seg.pop(0))
        t = re.sub(r"_(%s)$" % "|".join(TYPES), "", seg[0])
        if not mods:
            continue
        paths.setdefault("::".join(mods), n)
        own = t in ("Box", "String") or t.startswith("RVec_")
        if not own and len(seg) > 1:
            paths.setdefault("::".join(mods) + "::" + t, n)
    src = os.path.join(WORK, "paths.rs")
    items = sorted(paths)
    with open(src, "w") as f:
        f.write("".join(f"use {p} as _p{i};\n" for i, p in enumerate(items)) + "fn main() {}\n")
    rc, out, err = common.sh(["cargo", "build", "--offline", "--bin", "paths", "--message-format=json"], cwd=CAPI, env_=common.env(VERIF_PATHS=src))
    wrong = set()
    if rc:
        for l in out.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                for s in m["message"]["spans"]:
                    if s["file_name"].endswith("paths.rs") and s["line_start"] >= 1 and s["line_start"] - 1 < len(items):
                        wrong.add(items[s["line_start"] - 1])
        if not wrong:
            raise common.Inconclusive("the path probe does not build: " + err[-800:])
    o.saw("module and type paths resolved", len(items), tuple(items))
    return [(p, paths[p]) for p in sorted(wrong)]


def codegen(o):
    """Runs the C# generators in a scratch copy; returns {file name: text}."""
    root = os.path.join(WORK, "cs")
    common.rmtree(root)
    files = {}
    for crate, outdir in [("client/codegen_wrapped", "client/cs/src/generated/wrapped"), ("crates/rsharp/codegen", "crates/rsharp/cs/src/generated")]:
        dst = os.path.join(root, crate)
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        shutil.copytree(os.path.join(REPO, crate), dst, ignore=shutil.ignore_patterns("target"))
        with open(os.path.join(dst, "Cargo.toml"), "a") as f:
            f.write("\n[workspace]\n")
        shutil.copy(os.path.join(VERIF, "harness", "capi", "Cargo.codegen.lock"), os.path.join(dst, "Cargo.lock"))
        e = common.env(CARGO_TARGET_DIR=os.path.join(WORK, "cs-target"))
        common.build(["cargo", "build", "--offline", "-q", "--bins"], dst, e)
        name = re.search(r'^name\s*=\s*"([^"]+)"', open(os.path.join(dst, "Cargo.toml")).read(), re.M).group(1)
        exe = os.path.join(WORK, "cs-target", "debug", name)
        for args in (["-f"], ["-f"]):  # the second run overwrites the first
            rc, out, err = common.sh([exe] + args, cwd=dst)
            if rc:
                o.bad("C# generation fails", f"{crate} fails to generate the wrappers", (out + err).splitlines()[-20:])
                return files
        d = os.path.join(root, outdir)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            files[f] = open(os.path.join(d, f), encoding="utf-8-sig").read()
    return files


REF = re.compile(r"\b(?:ffi|__Internal)\s*\.\s*([A-Za-z_][A-Za-z_0-9]*)")
EXT = re.compile(r"\bextern\b[^;(]*?\b([A-Za-z_][A-Za-z_0-9]*)\s*\(")
PRIM = re.compile(r"\b(byte|sbyte|ushort|short|uint|int|ulong|long|bool|float|double)\b")


def strip(text):
    text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
    text = re.sub(r"^\s*using\b[^;]*;", "", text, flags=re.M)
    return re.sub(r"//[^\n]*", "", text)


def refs(text):
    return set(REF.findall(text)) | set(EXT.findall(text))


def wrappers(files, sym, o):
    by = {}
    for s in sym:
        by.setdefault(norm(s), set()).add(s)
    want = {f"{k}_{t}.cs": (k, t) for t in TYPES for k in ("Keyframe", "State", "StateId", "StateHandle")}
    want.update({f"RBox_{t}.cs": ("RBox", t) for t in CT})
    need = {"Keyframe": ["new", "drop", "value", "time"], "State": ["new", "drop", "value", "value_set"],
            "StateId": ["drop", "contract"], "StateHandle": ["drop"], "RBox": ["new", "drop"]}
    pre = {"Keyframe": CH + "Keyframe_", "State": ST + "State_", "StateId": ST + "StateId_", "StateHandle": ST + "StateHandle_", "RBox": "rsharp__Box_"}
    for f in sorted(want):
        k, t = want[f]
        o.saw("C# wrapper files", sig=f)
        if f not in files:
            o.bad(f"no C# wrapper {f}", f"the generators make no wrapper of {k} for {t}")
            continue
        text = strip(files[f])
        if not re.search(r"\bclass\s+%s\b" % re.escape(f[:-3]), text):
            o.bad(f"C# class missing in {f}", f"{f} does not define class {f[:-3]}", text.splitlines()[:20])
        used = refs(text)
        own = {norm(pre[k] + t + "__" + n): n for n in need[k]}
        for u in sorted(used):
            o.saw("names imported by generated C#", sig=u)
            if norm(u) not in by:
                o.bad(f"C# imports what is not exported: {f}", f"{f} imports {u}, which the library does not export")
            elif not norm(u).startswith(norm(pre[k] + t)) or norm(u) not in {norm(s) for s in sym if s.startswith(pre[k] + t + "__")}:
                o.bad(f"C# imports a function of another type: {f}", f"{f} imports {u}, which is not a function of {pre[k]}{t}")
        missing = [n for h, n in own.items() if h not in {norm(u) for u in used}]
        if missing:
            o.bad(f"C# wrapper incomplete: {f}", f"{f} does not import {', '.join(missing)} of {k}_{t}")
        # the value type: of the same width and kind as in the C header
        prims = set(PRIM.findall(text))
        allowed = {CS.get(t)} | ({"double"} if k == "Keyframe" else set())
        if k in ("Keyframe", "State", "RBox"):
            if prims - allowed:
                o.bad(f"C# value type: {f}", f"{f} uses {sorted(prims - allowed)} where the library has {CT.get(t, t)}")
            if t in CT and CS[t] not in prims:
                o.bad(f"C# value type: {f}", f"{f} never uses {CS[t]}, the type of its values")
            boxes = set(re.findall(r"\b(RBox_\w+|RString)\b", text))
            if boxes - ({f"RBox_{t}"} if t in CT else {"RString"} if t == "String" else set()):
                o.bad(f"C# owner type: {f}", f"{f} uses {sorted(boxes)} for values of {t}")
            if k != "RBox" and t in ("ObjectHandle", "ContractDataHandle") and t not in text:
                o.bad(f"C# owner type: {f}", f"{f} never uses {t}")
    for f in sorted(set(files) - set(want)):
        for u in sorted(refs(strip(files[f]))):
            if norm(u) not in by:
                o.bad(f"C# imports what is not exported: {f}", f"{f} imports {u}, which the library does not export")
    # what is written by hand
    hand = []
    for d in ("client/cs/src", "client/contract_example/cs", "demos/unity_states/cs", "crates/rsharp/cs/src"):
        for root, dirs, fs in os.walk(os.path.join(REPO, d)):
            dirs[:] = sorted(x for x in dirs if x not in ("generated", "obj", "bin"))
            hand += [os.path.join(root, f) for f in sorted(fs) if f.endswith(".cs")]
    for p in hand:
        text = strip(open(p, encoding="utf-8-sig", errors="replace").read())
        rel = os.path.relpath(p, REPO)
        for u in sorted(refs(text)):
            o.saw("names imported by hand-written C#", sig=u)
            if norm(u) not in by:
                o.bad(f"C# imports what is not exported: {rel}", f"{rel} imports {u}, which the library does not export")
        for w, k, t in re.findall(r"new\s+Ptr<[\w.]*?\b((?:StateHandle|State)_\w+)>\s*\(\s*ffi\.TpClientBaselineBaseline(State|StateMut|BindState)((?:%s))\s*\(" % "|".join(TYPES), text):
            o.saw("typed pointers in hand-written C#", sig=(w, k, t))
            if w != ("StateHandle_" if k == "BindState" else "State_") + t:
                o.bad(f"C# takes one type for another: {rel}", f"{rel} takes what ffi.TpClientBaselineBaseline{k}{t} returns for a {w}")


def run(ctx):
    o = Out()
    os.makedirs(WORK, exist_ok=True)
    so, sym = exports(ctx, o)
    o.saw("exported functions", len(sym), tuple(sorted(sym)))
    h = header(ctx, "headers", o)
    org = origin(o)
    if h:
        compile_header(h, "all crates", o)
        decl, rc, err = declarations(h, "c", o)
        declxx, _, _ = declarations(h, "c++", o)
        o.saw("declared functions", len(decl), tuple(sorted(decl)))
        for n in sorted(set(decl) - sym):
            o.bad(f"declared but not exported: {n}", f"the header declares {n}, which the library does not export")
        for n in sorted(sym - set(decl)):
            o.bad(f"exported but not declared: {n}", f"the library exports {n}, which the header does not declare")
        for n, ds in sorted(decl.items()):
            if len(ds) != 1:
                o.bad(f"declared {len(ds)} times: {n}", f"the header declares {n} {len(ds)} times", ds)
        if set(declxx) != set(decl):
            o.bad("C and C++ see different functions", "the header declares different functions to C and to C++", sorted(set(decl) ^ set(declxx)))
        # the same function in the name of another type
        text = open(h).read()
        guard = os.path.join(WORK, "interface.h")
        shutil.copy(h, guard)
        for k in range(20 if ctx.thorough else 4):
            rng = random.Random(ctx.seed * 1000 + k)
            src = os.path.join(WORK, "client.c")
            with open(src, "w") as f:
                f.write(client(rng, dict(text=text)))
            exe = os.path.join(WORK, "client")
            rc, out, err = common.sh(["gcc" if k % 2 else "clang", "-std=gnu11", "-g", "-O1", "-Wall", "-Werror", "-o", exe, src, so, f"-Wl,-rpath,{os.path.dirname(so)}"])
            if rc:
                o.bad("a C client does not build", "a C program written against the header does not compile or link with the library", [l for l in (out + err).splitlines() if "error" in l or "undefined" in l])
                break
            rc, out, err = common.sh([exe], timeout=120)
            m = re.search(r"checks (\d+) bad (\d+)", out)
            if common.died(rc):
                rc2, out, err = common.sh([exe], timeout=120)
                if common.died(rc2):
                    o.bad("a C client dies", f"a C program written against the header ends with {common.died(rc2)}", (out + err).splitlines()[-20:])
                    break
            elif not m:
                raise common.Inconclusive(f"C client exited with {rc}: {(out + err)[-500:]}")
            elif int(m.group(2)):
                o.bad("a C client reads other values", "values that cross the interface as the header declares it come back different", out.splitlines()[:20])
                break
            if m:
                o.saw("checks in compiled C clients", int(m.group(1)), k)
    for b, crates in [("headers_client", {"rsharp", "tp_client"}), ("headers_example", {"rsharp", "tp_client", "tp_contract_example"})]:
        h1 = header(ctx, b, o)
        if h1:
            if ctx.thorough:
                compile_header(h1, b, o)
            d1, _, _ = declarations(h1, "c", o)
            part = {n for n, c in org.items() if set(c) & crates}
            o.saw("declared functions of part of the crates", len(d1), b)
            for n in sorted(set(d1) ^ part):
                o.bad(f"header of {b[8:]} and its library differ: {n}", f"{n} is {'declared but not defined' if n in d1 else 'defined but not declared'} in {sorted(crates)}")
    for n, c in sorted(org.items()):
        o.saw("exported names of each crate", sig=n)
        if len(c) > 1:
            o.bad(f"two crates export {n}", f"{n} is exported by {c}")
        for p in PLATFORM:
            if (p in c) != n.startswith(p + "__"):
                o.bad(f"not prefixed by its crate: {n}", f"{n} is exported by {', '.join(c)}")
    for p, n in module_paths(sorted(n for n, c in org.items() if c[0] in PLATFORM), o):
        o.bad(f"prefix that is no module path: {p}", f"{n} is prefixed by {p}, which is not the path of a module or type")
    files = codegen(o)
    if files:
        wrappers(files, sym, o)
    o.samples = [f"{n}: {d[0][0]}" for n, d in sorted(decl.items())[:: max(1, len(decl) // 8)]] if h else []
    return common.result(o.n, len(o.distinct), "a case is one name, path, file or value; distinct by what it names", o.samples, o.counters, o.v)
