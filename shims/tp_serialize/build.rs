//! Does what `flatc --rust --gen-all --rust-module-root-file` does, for the
//! part of the schema language that client/serialize/flatbuffers uses.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};

#[derive(Clone, Debug)]
enum Decl {
    Table(Vec<(String, String, bool, String)>), // name, type, is a vector, default
    Union(Vec<(String, String)>),               // name, full type
    Enum(String, Vec<(String, i64)>),           // underlying type
}

fn strip(src: &str) -> String {
    src.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n")
}

fn tokens(src: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    let mut quoted = false;
    for c in src.chars() {
        if quoted {
            cur.push(c);
            if c == '"' {
                quoted = false;
                out.push(std::mem::take(&mut cur));
            }
        } else if c.is_alphanumeric() || c == '_' || c == '.' || c == '-' {
            cur.push(c);
        } else {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            if c == '"' {
                cur.push(c);
                quoted = true;
            } else if !c.is_whitespace() {
                out.push(c.to_string());
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

struct Schema {
    decls: Vec<(String, String, Decl)>, // namespace, name, what
    seen: Vec<PathBuf>,
}
impl Schema {
    fn read(&mut self, path: &Path) {
        let path = path.canonicalize().unwrap_or_else(|e| panic!("{}: {e}", path.display()));
        if self.seen.contains(&path) {
            return;
        }
        println!("cargo:rerun-if-changed={}", path.display());
        self.seen.push(path.clone());
        let t = tokens(&strip(&std::fs::read_to_string(&path).unwrap()));
        let mut ns = String::new();
        let mut i = 0;
        let expect = |i: &mut usize, what: &str| {
            assert_eq!(t[*i], what, "{} token {}", path.display(), *i);
            *i += 1;
        };
        while i < t.len() {
            match t[i].as_str() {
                "include" => {
                    let f = t[i + 1].trim_matches('"');
                    self.read(&path.parent().unwrap().join(f));
                    i += 2;
                    expect(&mut i, ";");
                }
                "namespace" => {
                    ns = t[i + 1].clone();
                    i += 2;
                    expect(&mut i, ";");
                }
                "table" => {
                    let name = t[i + 1].clone();
                    i += 2;
                    expect(&mut i, "{");
                    let mut fields = vec![];
                    while t[i] != "}" {
                        let f = t[i].clone();
                        i += 1;
                        expect(&mut i, ":");
                        let vector = t[i] == "[";
                        if vector {
                            i += 1;
                        }
                        let ty = t[i].clone();
                        i += 1;
                        if vector {
                            expect(&mut i, "]");
                        }
                        let mut default = String::new();
                        if t[i] == "=" {
                            default = t[i + 1].clone();
                            i += 2;
                        }
                        expect(&mut i, ";");
                        fields.push((f, ty, vector, default));
                    }
                    i += 1;
                    self.decls.push((ns.clone(), name, Decl::Table(fields)));
                }
                "union" => {
                    let name = t[i + 1].clone();
                    i += 2;
                    expect(&mut i, "{");
                    let mut vs = vec![];
                    while t[i] != "}" {
                        let full = if t[i].contains('.') { t[i].clone() } else { format!("{ns}.{}", t[i]) };
                        vs.push((t[i].replace('.', "_"), full));
                        i += 1;
                        if t[i] == "," {
                            i += 1;
                        }
                    }
                    i += 1;
                    self.decls.push((ns.clone(), name, Decl::Union(vs)));
                }
                "enum" => {
                    let name = t[i + 1].clone();
                    i += 2;
                    expect(&mut i, ":");
                    let under = t[i].clone();
                    i += 1;
                    expect(&mut i, "{");
                    let mut next = 0;
                    let mut vs = vec![];
                    while t[i] != "}" {
                        let v = t[i].clone();
                        i += 1;
                        if t[i] == "=" {
                            next = t[i + 1].parse().unwrap();
                            i += 2;
                        }
                        vs.push((v, next));
                        next += 1;
                        if t[i] == "," {
                            i += 1;
                        }
                    }
                    i += 1;
                    self.decls.push((ns.clone(), name, Decl::Enum(under, vs)));
                }
                x => panic!("{}: {x:?} is not understood", path.display()),
            }
        }
    }
    fn find(&self, ns: &str, ty: &str) -> (String, &Decl) {
        let full = if ty.contains('.') { ty.to_string() } else { format!("{ns}.{ty}") };
        let d = self.decls.iter().find(|d| format!("{}.{}", d.0, d.1) == full).unwrap_or_else(|| panic!("no type {full}"));
        (format!("crate::generated::{}", full.replace('.', "::")), &d.2)
    }
}

fn scalar(ty: &str) -> Option<&'static str> {
    Some(match ty {
        "ubyte" | "uint8" => "u8",
        "byte" | "int8" => "i8",
        "ushort" | "uint16" => "u16",
        "short" | "int16" => "i16",
        "uint" | "uint32" => "u32",
        "int" | "int32" => "i32",
        "ulong" | "uint64" => "u64",
        "long" | "int64" => "i64",
        "float" | "float32" => "f32",
        "double" | "float64" => "f64",
        "bool" => "bool",
        _ => return None,
    })
}

fn snake(name: &str) -> String {
    // flatc: an underscore before each capital that starts a word
    let mut out = String::new();
    let c: Vec<char> = name.chars().collect();
    for i in 0..c.len() {
        if c[i].is_uppercase() && i > 0 && c[i - 1] != '_' {
            out.push('_');
        }
        out.extend(c[i].to_lowercase());
    }
    out
}

fn enumeration(out: &mut String, name: &str, under: &str, vs: &[(String, i64)]) {
    let (min, max) = (vs.iter().map(|v| v.1).min().unwrap(), vs.iter().map(|v| v.1).max().unwrap());
    writeln!(out, "#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]\n#[repr(transparent)]\npub struct {name}(pub {under});").unwrap();
    writeln!(out, "#[allow(non_upper_case_globals)]\nimpl {name} {{").unwrap();
    for (v, n) in vs {
        writeln!(out, "    pub const {v}: Self = Self({n});").unwrap();
    }
    writeln!(out, "    pub const ENUM_MIN: {under} = {min};\n    pub const ENUM_MAX: {under} = {max};").unwrap();
    writeln!(out, "    pub const ENUM_VALUES: &'static [Self] = &[{}];", vs.iter().map(|v| format!("Self::{}", v.0)).collect::<Vec<_>>().join(", ")).unwrap();
    writeln!(out, "    pub fn variant_name(self) -> Option<&'static str> {{ match self {{").unwrap();
    for (v, _) in vs {
        writeln!(out, "        Self::{v} => Some(\"{v}\"),").unwrap();
    }
    writeln!(out, "        _ => None,\n    }} }}\n}}").unwrap();
    writeln!(
        out,
        "impl std::fmt::Debug for {name} {{ fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {{
            match self.variant_name() {{ Some(n) => f.write_str(n), None => f.write_fmt(format_args!(\"<UNKNOWN {{:?}}>\", self.0)) }} }} }}
impl<'a> flatbuffers::Follow<'a> for {name} {{ type Inner = Self; fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self(<{under} as flatbuffers::Follow>::follow(buf, loc)) }} }}
impl flatbuffers::Push for {name} {{ type Output = {name}; const SIZE: usize = {size}; fn push(&self, b: &mut flatbuffers::FlatBufferBuilder<'_>) {{ flatbuffers::Push::push(&self.0, b) }} }}
impl flatbuffers::Element for {name} {{ const BYTES: usize = {size}; }}
impl flatbuffers::Verifiable for {name} {{ fn run_verifier(v: &mut flatbuffers::Verifier, pos: usize) -> Result<(), flatbuffers::InvalidFlatbuffer> {{ <{under} as flatbuffers::Verifiable>::run_verifier(v, pos) }} }}",
        size = match under { "u8" | "i8" => 1, "u16" | "i16" => 2, "u32" | "i32" => 4, _ => 8 }
    )
    .unwrap();
}

fn table(s: &Schema, ns: &str, out: &mut String, name: &str, fields: &[(String, String, bool, String)]) {
    let (mut accessors, mut args, mut defaults, mut adds, mut verify, mut vts) = Default::default();
    let (accessors, args, defaults, adds, verify, vts): (&mut String, &mut String, &mut String, &mut String, &mut String, &mut String) =
        (&mut accessors, &mut args, &mut defaults, &mut adds, &mut verify, &mut vts);
    let mut borrows = false;
    let mut slot = 4;
    for (f, ty, vector, default) in fields {
        let up = f.to_uppercase();
        if !vector {
            if let Some(t) = scalar(ty) {
                let d = match (t, default.as_str()) {
                    ("bool", "") => "false".into(),
                    ("f32" | "f64", d) => format!("{:?}{t}", d.parse::<f64>().unwrap_or(0.0)),
                    (_, "") => "0".into(),
                    (_, d) => d.to_string(),
                };
                writeln!(accessors, "    pub fn {f}(&self) -> {t} {{ self._tab.get::<{t}>(Self::VT_{up}, Some({d})).unwrap() }}").unwrap();
                writeln!(args, "    pub {f}: {t},").unwrap();
                writeln!(defaults, "            {f}: {d},").unwrap();
                writeln!(adds, "        b.push_slot::<{t}>({name}::VT_{up}, args.{f}, {d});").unwrap();
                writeln!(verify, "            .visit_field::<{t}>(\"{f}\", Self::VT_{up}, false)?").unwrap();
                writeln!(vts, "    pub const VT_{up}: flatbuffers::VOffsetT = {slot};").unwrap();
                slot += 2;
                continue;
            }
            if ty != "string" {
                match s.find(ns, ty) {
                    (p, Decl::Union(vs)) => {
                        writeln!(vts, "    pub const VT_{up}_TYPE: flatbuffers::VOffsetT = {slot};\n    pub const VT_{up}: flatbuffers::VOffsetT = {};", slot + 2).unwrap();
                        slot += 4;
                        writeln!(accessors, "    pub fn {f}_type(&self) -> {p} {{ self._tab.get::<{p}>(Self::VT_{up}_TYPE, Some({p}::NONE)).unwrap() }}").unwrap();
                        writeln!(accessors, "    pub fn {f}(&self) -> Option<flatbuffers::Table<'a>> {{ self._tab.get::<flatbuffers::ForwardsUOffset<flatbuffers::Table<'a>>>(Self::VT_{up}, None) }}").unwrap();
                        let mut arms = String::new();
                        for (v, full) in vs {
                            let (q, _) = s.find("", full);
                            writeln!(
                                accessors,
                                "    pub fn {f}_as_{}(&self) -> Option<{q}<'a>> {{ if self.{f}_type() == {p}::{v} {{ self.{f}().map(|t| {q}::init_from_table(t)) }} else {{ None }} }}",
                                snake(v)
                            )
                            .unwrap();
                            write!(arms, "{p}::{v} => <flatbuffers::ForwardsUOffset<{q}> as flatbuffers::Verifiable>::run_verifier(v, pos), ").unwrap();
                        }
                        writeln!(args, "    pub {f}_type: {p},\n    pub {f}: Option<flatbuffers::WIPOffset<flatbuffers::UnionWIPOffset>>,").unwrap();
                        writeln!(defaults, "            {f}_type: {p}::NONE, {f}: None,").unwrap();
                        writeln!(adds, "        if let Some(x) = args.{f} {{ b.push_slot_always({name}::VT_{up}, x); }}").unwrap();
                        writeln!(adds, "        b.push_slot::<{p}>({name}::VT_{up}_TYPE, args.{f}_type, {p}::NONE);").unwrap();
                        writeln!(verify, "            .visit_union::<{p}, _>(\"{f}_type\", Self::VT_{up}_TYPE, \"{f}\", Self::VT_{up}, false, |key, v, pos| match key {{ {arms} _ => Ok(()) }})?").unwrap();
                        continue;
                    }
                    (p, Decl::Enum(_, vs)) => {
                        let d = format!("{p}::{}", if default.is_empty() { &vs[0].0 } else { default });
                        writeln!(accessors, "    pub fn {f}(&self) -> {p} {{ self._tab.get::<{p}>(Self::VT_{up}, Some({d})).unwrap() }}").unwrap();
                        writeln!(args, "    pub {f}: {p},").unwrap();
                        writeln!(defaults, "            {f}: {d},").unwrap();
                        writeln!(adds, "        b.push_slot::<{p}>({name}::VT_{up}, args.{f}, {d});").unwrap();
                        writeln!(verify, "            .visit_field::<{p}>(\"{f}\", Self::VT_{up}, false)?").unwrap();
                        writeln!(vts, "    pub const VT_{up}: flatbuffers::VOffsetT = {slot};").unwrap();
                        slot += 2;
                        continue;
                    }
                    (_, Decl::Table(_)) => {}
                }
            }
        }
        let element = |lt: &str| match ty.as_str() {
            "string" => format!("flatbuffers::ForwardsUOffset<&{lt} str>"),
            t => match scalar(t) {
                Some(t) => t.to_string(),
                None => match s.find(ns, t) {
                    (p, Decl::Table(_)) => format!("flatbuffers::ForwardsUOffset<{p}<{lt}>>"),
                    (p, _) => p,
                },
            },
        };
        borrows = true;
        let (get, inner, arg): (String, String, String) = if *vector {
            let v = format!("flatbuffers::Vector<'a, {}>", element("'a"));
            (format!("flatbuffers::ForwardsUOffset<{v}>"), v.clone(), v)
        } else if ty == "string" {
            ("flatbuffers::ForwardsUOffset<&'a str>".into(), "&'a str".into(), "&'a str".into())
        } else {
            let (p, _) = s.find(ns, ty);
            (format!("flatbuffers::ForwardsUOffset<{p}<'a>>"), format!("{p}<'a>"), format!("{p}<'a>"))
        };
        writeln!(accessors, "    pub fn {f}(&self) -> Option<{inner}> {{ self._tab.get::<{get}>(Self::VT_{up}, None) }}").unwrap();
        writeln!(args, "    pub {f}: Option<flatbuffers::WIPOffset<{arg}>>,").unwrap();
        writeln!(defaults, "            {f}: None,").unwrap();
        writeln!(adds, "        if let Some(x) = args.{f} {{ b.push_slot_always({name}::VT_{up}, x); }}").unwrap();
        writeln!(verify, "            .visit_field::<{}>(\"{f}\", Self::VT_{up}, false)?", get.replace("'a", "'_")).unwrap();
        writeln!(vts, "    pub const VT_{up}: flatbuffers::VOffsetT = {slot};").unwrap();
        slot += 2;
    }
    let (la, lx) = if borrows { ("<'a>", "<'args>") } else { ("", "") };
    writeln!(
        out,
        "#[derive(Copy, Clone, PartialEq)]
pub struct {name}<'a> {{ pub _tab: flatbuffers::Table<'a> }}
impl<'a> flatbuffers::Follow<'a> for {name}<'a> {{ type Inner = {name}<'a>; fn follow(buf: &'a [u8], loc: usize) -> Self {{ Self {{ _tab: flatbuffers::Table::new(buf, loc) }} }} }}
impl<'a> {name}<'a> {{
{vts}
    pub fn init_from_table(table: flatbuffers::Table<'a>) -> Self {{ {name} {{ _tab: table }} }}
    pub fn create<'bldr: 'args, 'args: 'mut_bldr, 'mut_bldr>(b: &'mut_bldr mut flatbuffers::FlatBufferBuilder<'bldr>, args: &'args {name}Args{lx}) -> flatbuffers::WIPOffset<{name}<'bldr>> {{
        let start = b.start_table();
{adds}
        flatbuffers::WIPOffset::new(b.end_table(start).value())
    }}
{accessors}
}}
impl flatbuffers::Verifiable for {name}<'_> {{
    fn run_verifier(v: &mut flatbuffers::Verifier, pos: usize) -> Result<(), flatbuffers::InvalidFlatbuffer> {{
        v.visit_table(pos)?
{verify}            .finish();
        Ok(())
    }}
}}
pub struct {name}Args{la} {{
{args}}}
impl{la} Default for {name}Args{la} {{ fn default() -> Self {{ {name}Args {{
{defaults}        }} }} }}"
    )
    .unwrap();
    write!(out, "impl std::fmt::Debug for {name}<'_> {{ fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{ f.debug_struct(\"{name}\")").unwrap();
    for (f, ..) in fields {
        write!(out, ".field(\"{f}\", &self.{f}().clone())").unwrap();
    }
    writeln!(out, ".finish() }} }}").unwrap();
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let mut s = Schema { decls: vec![], seen: vec![] };
    s.read(Path::new("/repo/client/serialize/flatbuffers/all.fbs"));
    let mut by_ns: BTreeMap<String, String> = BTreeMap::new();
    for (ns, name, d) in s.decls.clone() {
        let mut out = String::new();
        match d {
            Decl::Table(f) => table(&s, &ns, &mut out, &name, &f),
            Decl::Union(vs) => {
                let mut all = vec![("NONE".to_string(), 0)];
                all.extend(vs.iter().enumerate().map(|(i, v)| (v.0.clone(), i as i64 + 1)));
                enumeration(&mut out, &name, "u8", &all);
            }
            Decl::Enum(u, vs) => enumeration(&mut out, &name, scalar(&u).unwrap(), &vs),
        }
        by_ns.entry(ns).or_default().push_str(&out);
    }
    // nested modules
    #[derive(Default)]
    struct Module(BTreeMap<String, Module>, String);
    let mut root = Module::default();
    for (ns, text) in by_ns {
        let mut m = &mut root;
        for p in ns.split('.') {
            m = m.0.entry(p.to_string()).or_default();
        }
        m.1 = text;
    }
    fn print(m: &Module, out: &mut String) {
        out.push_str(&m.1);
        for (n, m) in &m.0 {
            writeln!(out, "pub mod {n} {{").unwrap();
            print(m, out);
            out.push_str("}\n");
        }
    }
    let mut out = String::new();
    print(&root, &mut out);
    std::fs::write(PathBuf::from(std::env::var("OUT_DIR").unwrap()).join("mod.rs"), out).unwrap();
}
