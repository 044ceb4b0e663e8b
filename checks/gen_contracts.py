"""Random contract declarations in Rust, with a table of what was declared."""
import random

TYPES = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool", "f32", "f64", "String",
         "ObjectHandle", "ContractDataHandle"]
NAMES = ["a", "b", "x", "y1", "value", "id", "idx", "handle", "contract", "states", "channels", "state_id",
         "chan_iter", "self_", "_hidden", "__x", "field_name", "types", "len", "next", "default", "clone",
         "S", "CamelCase", "UPPER", "i", "f", "t", "data", "name", "version", "snake_case_name_that_is_long",
         "é", "ids", "prop_type", "pos", "phantom", "names", "inner", "result", "string", "vec", "u8_", "union", "auto"]
SPELL = {"String": ["String", "::std::string::String", "std::string::String", "Text"], "u8": ["u8", "Byte", "::core::primitive::u8"],
         "ObjectHandle": ["ObjectHandle", "tp_client::object::ObjectHandle", "::tp_client::object::ObjectHandle"]}
VEC = ["Vec<%s>", "::std::vec::Vec<%s>", "std::vec::Vec<%s>", "List<%s>"]


def fields(r, n, types=None):
    names = r.sample(NAMES, min(n, len(NAMES))) + [f"z{i}" for i in range(n - len(NAMES))]
    out = []
    for k, nm in enumerate(names):
        t, lst = types[k] if types else (r.choice(TYPES), r.random() < 0.4)
        s = r.choice(SPELL.get(t, [t]))
        if lst:
            s = r.choice(VEC) % s
        real = f"Vec<{t}>" if lst else t
        out.append((nm, s, real))
    return out


def struct(r, macro, name, fs):
    lines = [f"#[{macro}]"] if r.random() < 0.8 else [f"#[tp_client::contract::{macro}]"]
    if r.random() < 0.2:
        lines.append("#[derive(Debug, Clone)]")
    lines.append("/// documented")
    lines.append(f"pub struct {name} {{")
    for i, (nm, s, _) in enumerate(fs):
        if r.random() < 0.1:
            lines.append("    /// a field")
        if r.random() < 0.1:
            lines.append("    #[allow(unused)]")
        vis = r.choice(["", "", "pub ", "pub(crate) "])
        comma = "," if i + 1 < len(fs) or r.random() < 0.7 else ""
        lines.append(f"    {vis}{nm}: {s}{comma}")
    lines.append("}")
    return "\n".join(lines)


def contract(r, k, s, c, unit_s=False, unit_c=False):
    name = r.choice([f"gen.c{k}", f"gen-{k}", f"{k}", f"Gen {k} ✓"])
    ver = tuple(r.choice([0, 1, 2, 65535, r.randrange(65536)]) for _ in range(3))
    st, ct = ("()" if unit_s else "S"), ("()" if unit_c else "Ch")
    rd = lambda fn, acc, fs: "{ let mut v = vec![]; " + " ".join(f"v.push({fn}(b, c.{acc}().{n}(), o)?);" for n, _, _ in fs) + " v }"
    ids = lambda fn, acc, fs: "{ let mut v = vec![]; " + " ".join(f"v.push({fn}(c.{acc}().{n}()));" for n, _, _ in fs) + " v }"
    tab = lambda fs: "{ let mut v = vec![]; " + " ".join(f'v.push(field::<{t}>("{n}"));' for n, _, t in fs) + " v }"
    return f"""
#[allow(non_snake_case, dead_code, uncommon_codepoints, unused)]
mod c{k} {{
    use super::*;
    use tp_client::contract::{{states, channels}};
    use tp_client::object::ObjectHandle;
    type Byte = u8;
    type Text = String;
    type List<T> = Vec<T>;
    {"" if unit_s else struct(r, "states", "S", s)}
    {"" if unit_c else struct(r, "channels", "Ch", c)}
    pub struct C {{ h: ContractDataHandle, s: {st}, c: {ct} }}
    impl Contract for C {{
        type States = {st};
        type Channels = {ct};
        const ID: ContractId = ContractId {{ name: "{name}", version: {ver} }};
        fn new(handle: ContractDataHandle) -> Self {{
            Self {{ h: handle, s: {"()" if unit_s else "S::new(handle)"}, c: {"()" if unit_c else "Ch::new(handle)"} }}
        }}
        fn states(&self) -> &{st} {{ &self.s }}
        fn channels(&self) -> &{ct} {{ &self.c }}
        fn handle(&self) -> ContractDataHandle {{ self.h }}
    }}
    pub fn check(rep: &mut Report) {{
        run::<C>(rep, Decl {{
            s: {tab(s)},
            c: {tab(c)},
            acc_s: |c| {ids("sid", "states", s)},
            acc_c: |c| {ids("cid", "channels", c)},
            read: |c, b, o| Ok(({rd("rd_s", "states", s)}, {rd("rd_c", "channels", c)})),
            name: "{name}",
            version: {ver},
        }});
    }}
}}
"""


def control():
    """The least a contract needs; if this does not build, the harness does not."""
    r = random.Random(0)
    f = [("a", "u8", "u8")]
    return contract(r, 0, f, f) + "fn all(rep: &mut Report) { c0::check(rep) }\n"


def generate(seed, count):
    r = random.Random(seed)
    out = []
    allt = [(t, l) for l in (False, True) for t in TYPES]
    # every type as a state and as a channel
    out.append(contract(r, 0, fields(r, 28, allt), fields(r, 28, allt)))
    out.append(contract(r, 1, [], []))
    out.append(contract(r, 2, [], [], unit_s=True, unit_c=True))
    out.append(contract(r, 3, fields(r, 3), [], unit_c=True))
    out.append(contract(r, 4, [], fields(r, 2), unit_s=True))
    # more fields than a byte counts
    out.append(contract(r, 5, fields(r, 300), fields(r, 270)))
    for k in range(6, count):
        ns, nc = (r.choice([0, 1, 1, 2, 3, 4, 5, 7, 12, r.randrange(46)]) for _ in range(2))
        out.append(contract(r, k, fields(r, ns), fields(r, nc)))
    out.append("fn all(rep: &mut Report) {\n" + "".join(f"    c{k}::check(rep);\n" for k in range(count)) + "}\n")
    return "".join(out)
