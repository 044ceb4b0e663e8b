"""C19: generated uses of remangle and substitute, compiled with the real macros."""
import json, os, random, re
from . import common
from .common import VERIF

CAPI = os.path.join(VERIF, "harness", "capi")
WORK = os.path.join(CAPI, "target", "c19")
M = "\u00a7"  # stands for a placeholder

VALUES = ["7", '"tp_client::baseline"', "x", "a::b::C", "f(1, x)", "x.y(2)[0]", "(1 + 2)", "1 + 2", "-1", "&x", "[1, 2, 3]", "vec![1, 2]",
          "'c'", 'b"bytes"', "1.5e3", "true", "(1, 'a', \"s\")", "(|q: u8| q + 1)", "Default", "Vec::<u8>::new()", "!x", 'r#"raw "quoted" text"#',
          '"substitute!()"', '"substitute! ()"', "x.a.b", "(if a { 1 } else { 2 })", "concat!(\"a\", \"b\")", "0xffu8", "a < b", "f()?"]


class Gen:
    """Random items; each placeholder that must be replaced is written as M."""

    def __init__(self, rng):
        self.r = rng
        self.n = 0
        self.holes = {}

    def hole(self, where):
        self.holes[where] = self.holes.get(where, 0) + 1
        return M

    def ident(self):
        return self.r.choice(["x", "y", "alpha", "b_2", "r#type", "substitute", "substitute_", "_0", "Zed"])

    def note(self, where):
        """An attribute with placeholders in it, or look-alikes of them."""
        if self.r.random() < 0.72:
            return ""
        h = lambda: self.hole("attribute on " + where)
        c = self.r.randrange(13)
        return [lambda: f"#[note({h()})] ", lambda: f"#[note = {h()}] ", lambda: f"#[note(a, b({h()}), c = {h()})] ",
                lambda: f"#[note([{h()}], {{ k: {h()} }}, (({h()})))] ", lambda: "/// about substitute! () and substitute ! () and substitute!()\n ",
                lambda: '#[note = "substitute! ()"] ', lambda: f'#[note("a substitute ! () b", {h()})] ', lambda: "#[note(not_substitute!(), substitutes!(), substitute)] ",
                lambda: "#[note(substitute(), substitute ! , ! ())] ", lambda: f"#[note({h()} {h()} , {h()})] ", lambda: "#[note(substitute![], substitute!{}, substitute!(x))] ",
                lambda: f"#[note(a::b, -1, 'l', 'c', {h()}::d)] ", lambda: f"#[note(\"{{}}\", x = #{h()})] "][c]()

    def inner(self, where):
        """The same as an inner attribute."""
        n = self.note("inside of " + where)
        return n.replace("#[", "#![", 1) if n.startswith("#[") else ""

    def expr(self, d, pos="expression"):
        r = self.r
        if d <= 0 or r.random() < 0.12:
            c = r.randrange(8)
            if c < 4:
                return self.hole(pos)
            return r.choice(["1", "x", '"substitute! ()"', "'s'", "y.z", "substitute()", "x.substitute()", "self::k", "substitute", '"substitute!()"', "not_substitute!()", "vec![substitute!()]",
                             'format!("{}", substitute!())', "other!(substitute ! ())"])
        e = lambda p: self.expr(d - 1, p)
        c = r.randrange(30)
        return [
            lambda: f"({e('paren')})", lambda: f"f({e('argument')}, {e('argument')})", lambda: f"({e('receiver')}).m({e('argument')})",
            lambda: f"[{e('array')}, {e('array')}]", lambda: f"[{e('repeat')}; {e('length')}]", lambda: f"({e('tuple')}, {e('tuple')},)",
            lambda: f"S {{ a: {e('field')}, {self.note('field value')}b: {e('field')}, ..{e('base')} }}", lambda: f"{{ {self.stmts(d - 1)} {e('tail')} }}",
            lambda: f"if ({e('condition')}) {{ {e('tail')} }} else if ({e('condition')}) {{ {self.stmts(d - 1)} }} else {{ {e('tail')} }}",
            lambda: f"match ({e('scrutinee')}) {{ {self.note('arm')}Some(q) if ({e('guard')}) => {e('arm')}, None => {{ {e('tail')} }} _ => ({e('arm')}) }}",
            lambda: f"({e('operand')}) + ({e('operand')})", lambda: f"-({e('operand')})", lambda: f"&mut ({e('operand')})", lambda: f"*({e('operand')})",
            lambda: f"(|q, w: u8| {e('closure')})", lambda: f"move |z| {{ {self.stmts(d - 1)} {e('tail')} }}", lambda: f"({e('range')})..({e('range')})", lambda: f"(..=({e('range')}))",
            lambda: f"x[{e('index')}]", lambda: f"({e('index base')})[{e('index')}]", lambda: f"({e('cast')}) as u64", lambda: f"loop {{ {self.stmts(d - 1)} break ({e('break')}) }}",
            lambda: f"while ({e('condition')}) {{ {self.stmts(d - 1)} }}", lambda: f"for q in ({e('iterator')}) {{ {self.stmts(d - 1)} }}", lambda: f"(return {e('return')})",
            lambda: f"unsafe {{ {e('tail')} }}", lambda: f"if let Some(q) = ({e('condition')}) {{ {e('tail')} }} else {{ {e('tail')} }}", lambda: f"(x = {e('assign')})", lambda: f"(x += {e('assign')})",
            lambda: f"g::<{{ {e('const argument')} }}>({e('argument')})",
        ][c]()

    def stmts(self, d):
        out = []
        for _ in range(self.r.randrange(0, 3)):
            c = self.r.randrange(6)
            e = lambda p: self.expr(d, p)
            out.append([lambda: f"{self.note('let')}let mut q: u8 = {e('let')};", lambda: f"let (a, [b, ..]) = {e('let')};", lambda: f"f({e('argument')});",
                        lambda: f"const K: usize = {e('const')};", lambda: f"let q: [u8; {e('array type')}];", lambda: self.item(d - 1) if d > 1 else "struct L;"][c]())
        return " ".join(out)

    def item(self, d=3):
        self.n += 1
        i = self.n
        r = self.r
        e = lambda p: self.expr(d, p)
        t = self.note
        c = r.randrange(11)
        return [
            lambda: f"{t('function')}pub fn f{i}<T: Copy, const N: usize>({t('parameter')}a: [u8; {e('array type')}], b: &'static str) -> u8 where T: Into<u8> {{ {self.inner('function')}{self.stmts(d)} {e('tail')} }}",
            lambda: f"{t('const')}pub const C{i}: u8 = {e('const')};", lambda: f"pub static mut S{i}: [u8; {e('array type')}] = {e('static')};",
            lambda: f"{t('struct')}pub struct T{i}<'a, Q = u8> {{ {t('field')}pub a: [Q; {e('array type')}], {t('field')}b: &'a str }}",
            lambda: f"{t('tuple struct')}pub struct U{i}({t('field')}pub u8, [u8; {e('array type')}]);",
            lambda: f"{t('enum')}pub enum E{i} {{ {t('variant')}A = {e('discriminant')}, {t('variant')}B {{ {t('field')}a: u8 }}, C(u8) }}",
            lambda: f"{t('impl')}impl<Q> Trait for T{i}<Q> {{ {self.inner('impl')}{t('method')}fn m(&self) -> u8 {{ {self.stmts(d)} {e('tail')} }} const K: u8 = {e('const')}; }}",
            lambda: f"{t('trait')}pub trait R{i} {{ {t('method')}fn m(&self) -> u8 {{ {e('tail')} }} const K: u8 = {e('default')}; fn n(self); }}",
            lambda: f"{t('module')}pub mod m{i} {{ {self.inner('module')}{self.item(d - 1) if d > 1 else 'struct L;'} {self.item(d - 1) if d > 1 else ''} }}",
            lambda: f"impl T{i}<[u8; {e('array type')}]> {{ pub fn new() -> Self {{ {e('tail')} }} }}",
            lambda: f"pub unsafe extern \"C\" fn x{i}(a: *const u8, mut b: i64) {{ {self.stmts(d)} }}",
        ][c]()


def spell(rng, text, value):
    a = "".join(p + (rng.choice(["substitute!()", "substitute ! ()", "substitute!( )", "substitute! ()"]) if k else "") for p, k in zip(text.split(M), [1] * text.count(M) + [0]))
    return a, text.replace(M, value)


PATHS = ["a", "a::b", "::a::b::c", "tp_client::contract::properties::states", " a :: b2 ", "a::::b", "_x::y_z", "crate_::Ab", "a::b::", "u8x"]


def some_path(rng):
    """Paths of one to six segments, repeated ones included, with what is ignored: outer separators, empty segments, spaces."""
    if rng.random() < 0.3:
        return rng.choice(PATHS)
    segs = [rng.choice(["a", "a", "b", "a_", "_a", "__", "x1", "crate", "Self_", "rsharp", "tp_client", "a" * 40, "\u00fcber"]) for _ in range(rng.randint(1, 6))]
    path = segs[0]
    for s in segs[1:]:
        path += rng.choice(["::", "::", "::", " :: ", "::::"]) + s
    return rng.choice(["", "", "::"]) + path + rng.choice(["", "", "::"])


def mangled(path):
    return "".join(m.strip() + "__" for m in path.split("::") if m)


def remangle_part(rng, n, control):
    """Modules of renamed items, and checks of what they do under both names."""
    mods, checks, seen = [], [], set()
    for i in range(n):
        path = some_path(rng)
        pre = mangled(path)
        k = rng.randint(-100, 100)
        kind = rng.randrange(10)
        if kind in (2, 8) and not pre.isascii():
            kind = 0  # an exported symbol must be ASCII
        attr = "" if control else f'#[rsharp::remangle("{path}")] '
        name = {0: f"fun{i}", 1: f"gen_fun{i}", 2: f"cfun{i}", 3: f"Unit{i}", 4: f"Tup{i}", 5: f"Named{i}", 6: f"Gen{i}", 7: f"En{i}", 8: f"exp{i}", 9: f"Rec{i}"}[kind]
        m = pre + name
        keep = "" if control else f"#[tokdump::dump_keep(TOKENS)] "
        # control: the name is written out by hand
        nm = m if control else name
        alias = f"pub use {m} as {name};" if control else ""
        plain = lambda item: item
        if kind == 0:
            item = f"pub fn {nm}(a: i64, b: &str) -> i64 {{ a * {k} + b.len() as i64 }}"
            tests = [f"assert_eq!(r{i}::{x}(3, \"abcd\"), {3 * k + 4});" for x in (name, m)]
        elif kind == 1:
            item = f"pub fn {nm}<T: Clone + std::fmt::Debug, const N: usize>(a: [T; N]) -> (usize, Vec<T>) where T: PartialEq {{ (N, a.to_vec()) }}"
            tests = [f"assert_eq!(r{i}::{x}([1u8, 2]), (2, vec![1, 2]));" for x in (name, m)]
        elif kind == 2:
            item = f"#[no_mangle] pub extern \"C\" fn {nm}(a: i32) -> i32 {{ a.wrapping_mul({k}) }}"
            tests = [f"assert_eq!(r{i}::{name}(5), {5 * k});", f"{{ extern \"C\" {{ fn {m}(a: i32) -> i32; }} assert_eq!(unsafe {{ {m}(5) }}, {5 * k}); }}", f"{{ extern \"C\" {{ fn {name}() -> i32; }} assert_eq!(unsafe {{ {name}() }}, -7); }}"]
        elif kind == 3:
            item = f"#[derive(Clone, Copy, Default, PartialEq)] pub struct {nm};"
            tests = [f"let u: r{i}::{m} = r{i}::{name}; assert!(u == r{i}::{m});", f"tname::<r{i}::{name}>(\"{m}\");"]
        elif kind == 4:
            item = f"#[derive(Clone, PartialEq)] pub struct {nm}(pub i64, pub String);"
            tests = [f"let u: r{i}::{m} = r{i}::{name}({k}, \"t\".into()); let r{i}::{m}(a, b) = u.clone(); assert_eq!((a, &b[..]), ({k}, \"t\"));", f"tname::<r{i}::{name}>(\"{m}\");"]
        elif kind == 5:
            item = f"#[derive(Clone, PartialEq)] #[repr(C)] pub struct {nm} {{ pub a: u8, pub b: u32, pub c: u8 }}"
            extra = f"impl {name} {{ pub fn sum(&self) -> u32 {{ self.a as u32 + self.b + self.c as u32 }} pub fn new() -> Self {{ Self {{ a: 1, b: 2, c: 3 }} }} }} impl Drop for {name} {{ fn drop(&mut self) {{ super::DROPS.with(|d| d.set(d.get() + 1)); }} }}"
            alias += extra
            tests = [f"{{ let u: r{i}::{m} = r{i}::{name}::new(); assert_eq!(u.sum(), 6); assert_eq!(std::mem::size_of::<r{i}::{m}>(), 12); }} drops += 1; assert_eq!(DROPS.with(|d| d.get()), drops);", f"tname::<r{i}::{name}>(\"{m}\");"]
        elif kind == 6:
            item = f"#[derive(Clone, PartialEq)] pub struct {nm}<'a, T: Copy, const N: usize = 3>(pub &'a [T; N]) where T: PartialEq;"
            tests = [f"let z = [1u8, 2, 3]; let u: r{i}::{m}<u8> = r{i}::{name}(&z); assert!(u == r{i}::{m}(&[1, 2, 3]));"]
        elif kind == 7:
            item = f"#[derive(Clone, Copy, PartialEq)] #[repr(u8)] pub enum {nm} {{ A = 3, B, C = {abs(k) + 10} }}"
            tests = [f"let u: r{i}::{m} = r{i}::{name}::B; assert_eq!(u as u8, 4); assert_eq!(r{i}::{m}::C as u8, {abs(k) + 10}); assert_eq!(std::mem::size_of::<r{i}::{name}>(), 1);", f"tname::<r{i}::{name}>(\"{m}\");"]
        elif kind == 8:
            item = f"#[safer_ffi::ffi_export] pub fn {nm}(a: u16, b: u8) -> u64 {{ a as u64 * {abs(k)} + b as u64 }}"
            tests = [f"assert_eq!(r{i}::{name}(300, 9), {300 * abs(k) + 9});", f"{{ extern \"C\" {{ fn {m}(a: u16, b: u8) -> u64; }} assert_eq!(unsafe {{ {m}(300, 9) }}, {300 * abs(k) + 9}); }}", f"{{ extern \"C\" {{ fn {name}() -> i32; }} assert_eq!(unsafe {{ {name}() }}, -7); }}"]
            keep = ""
        else:
            item = f"pub fn {nm}(a: u32) -> u32 {{ if a == 0 {{ 1 }} else {{ a * {name}(a - 1) }} }}"
            tests = [f"assert_eq!(r{i}::{x}(6), 720);" for x in (name, m)]
        tok = ""
        if keep:
            tok = f"#[tokdump::dump(EXPECTED)] {item.replace(name, m, 1)}"
            tests.append(f"same(\"remangle {path}\", r{i}::TOKENS, r{i}::EXPECTED);")
        if kind in (2, 8):
            # its own name must be free for another function
            mods.append(f"pub mod q{i} {{ #[no_mangle] pub extern \"C\" fn {name}() -> i32 {{ -7 }} }}")
        mods.append(f"#[allow(non_camel_case_types, non_snake_case, dead_code, unused_imports)] pub mod r{i} {{ {attr}{keep}{item} {alias} {tok} }}")
        checks.append("{ " + " ".join(tests) + " count += 1; }")
        seen.add((path, kind))
    return mods, checks, seen


def program(seed, n_sub, n_re, control=False):
    rng = random.Random(seed)
    mods, checks, seen = remangle_part(rng, n_re, control)
    holes = {}
    kinds = set()
    texts = []
    for i in range(0 if control else n_sub):
        g = Gen(rng)
        text = g.item(rng.choice([1, 2, 2, 3]))
        value = rng.choice(VALUES)
        if M not in text and rng.random() < 0.7:
            text = g.item(2)
        if len(text) > 6000:
            continue
        a, b = spell(rng, text, value)
        for k, v in g.holes.items():
            holes[k] = holes.get(k, 0) + v
            kinds.add((k, value))
        mods.append(f"pub mod s{i} {{ #[rsharp::substitute({value})] #[tokdump::dump(TOKENS)] {a}\n #[tokdump::dump(EXPECTED)] {b}\n }}")
        checks.append(f"same({json.dumps(value)}, s{i}::TOKENS, s{i}::EXPECTED); count += 1;")
        texts.append(a)
    src = "\n".join(mods) + r'''
thread_local! { static DROPS: std::cell::Cell<u32> = std::cell::Cell::new(0); }
static BAD: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
fn same(what: &str, got: &str, want: &str) {
    if got != want {
        BAD.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        println!("DIFFERENT {what}\n got  {got}\n want {want}");
    }
}
fn tname<T>(name: &str) {
    let t = std::any::type_name::<T>();
    same("type name", t.rsplit("::").next().unwrap(), name);
}
fn run() -> u32 {
    #[allow(unused_mut)] let mut count = 0u32; #[allow(unused_mut, unused_variables)] let mut drops = 0u32;
''' + "\n    ".join(checks) + r'''
    count
}
fn main() {
    let n = std::panic::catch_unwind(run);
    match n {
        Ok(n) => println!("DONE {n} {}", BAD.load(std::sync::atomic::Ordering::SeqCst)),
        Err(_) => println!("PANICKED"),
    }
}
'''
    return src, holes, kinds | seen, texts


# (malformed use, the same with the fault mended)
BAD = [
    ('#[remangle("a")] impl S { pub fn f() {} } pub struct S;', '#[remangle("a")] pub struct S; impl S { pub fn f() {} }'),
    ('#[remangle("a")] pub use std::mem; ', '#[remangle("a")] pub fn mem() {}'),
    ('#[remangle("a")] extern "C" { fn strlen(p: *const i8) -> usize; }', '#[remangle("a")] pub extern "C" fn q(p: *const i8) -> usize { 0 }'),
    ('#[remangle("a")] macro_rules! q { () => {} }', '#[remangle("a")] pub fn q() {}'),
    ('#[remangle("a")] impl Clone for S { fn clone(&self) -> S { S } } pub struct S;', '#[remangle("a")] #[derive(Clone)] pub struct S;'),
    ('#[remangle(a)] pub fn q() {}', '#[remangle("a")] pub fn q() {}'),
    ('#[remangle] pub fn q() {}', '#[remangle("a")] pub fn q() {}'),
    ('#[remangle()] pub struct Q;', '#[remangle("a")] pub struct Q;'),
    ('#[remangle("a", "b")] pub struct Q;', '#[remangle("a::b")] pub struct Q;'),
    ('#[remangle("a" "b")] pub enum Q { A }', '#[remangle("a::b")] pub enum Q { A }'),
    ('#[remangle(1)] pub fn q() {}', '#[remangle("a")] pub fn q() {}'),
    ('#[remangle(b"a")] pub fn q() {}', '#[remangle("a")] pub fn q() {}'),
    ("#[remangle('a')] pub fn q() {}", '#[remangle("a")] pub fn q() {}'),
    ('#[remangle(path = "a")] pub fn q() {}', '#[remangle("a")] pub fn q() {}'),
    ('#[remangle(concat!("a", "b"))] pub fn q() {}', '#[remangle("ab")] pub fn q() {}'),
    ('#[remangle("a-b")] pub fn q() {}', '#[remangle("a_b")] pub fn q() {}'),
    ('#[remangle("a.b")] pub struct Q;', '#[remangle("a::b")] pub struct Q;'),
    ('#[remangle("1a")] pub fn q() {}', '#[remangle("a1")] pub fn q() {}'),
    ('#[remangle("a:b")] pub fn q() {}', '#[remangle("a::b")] pub fn q() {}'),
    ('#[remangle("a b")] pub fn q() {}', '#[remangle(" a ")] pub fn q() {}'),
    ('#[remangle("a<b>")] pub enum Q { A }', '#[remangle("a::b")] pub enum Q { A }'),
    ('#[substitute] pub fn q() -> u8 { 1 }', '#[substitute(1)] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute()] pub fn q() -> u8 { 1 }', '#[substitute(1)] pub fn q() -> u8 { 1 }'),
    ('#[substitute(1 2)] pub fn q() -> u8 { 1 }', '#[substitute(1 + 2)] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute(let x = 1)] pub fn q() -> u8 { substitute!() }', '#[substitute({ let x = 1; x })] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute(1, 2)] pub fn q() -> u8 { 1 }', '#[substitute((1, 2))] pub fn q() -> (u8, u8) { substitute!() }'),
    ('#[substitute(fn)] pub fn q() -> u8 { 1 }', '#[substitute(1)] pub fn q() -> u8 { 1 }'),
    ('#[substitute(1)] pub fn q(a: u8) -> u8 { match a { substitute!() => 1, _ => 2 } }', '#[substitute(1)] pub fn q(a: u8) -> u8 { match a { 1 => substitute!(), _ => 2 } }'),
    ('#[substitute(u8)] pub fn q(a: substitute!()) -> u8 { a }', '#[substitute(1)] pub fn q(a: [u8; substitute!()]) -> u8 { a[0] }'),
    ('#[substitute(1)] pub fn q() -> Vec<u8> { vec![substitute!()] }', '#[substitute(1)] pub fn q() -> Vec<u8> { Vec::from([substitute!()]) }'),
    ('#[substitute(1)] pub fn q() -> String { format!("{}", substitute!()) }', '#[substitute("a")] pub fn q() -> String { String::from(substitute!()) }'),
    ('#[substitute(1)] pub mod m { substitute!(); }', '#[substitute(1)] pub mod m { pub const A: u8 = substitute!(); }'),
    ('#[substitute(1)] pub fn q() -> u8 { substitute!(2) }', '#[substitute(1)] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute(1)] pub fn q() -> u8 { substitut!() }', '#[substitute(1)] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute(substitute!())] pub fn q() -> u8 { substitute!() }', '#[substitute(1)] pub fn q() -> u8 { substitute!() }'),
    ('pub fn q() -> u8 { substitute!() }', '#[substitute(1)] pub fn q() -> u8 { substitute!() }'),
    ('#[substitute(1)] pub fn p() {} pub fn q() -> u8 { substitute!() }', '#[substitute(1)] pub mod m { pub fn p() {} pub fn q() -> u8 { substitute!() } }'),
    ('#[substitute("a")] pub mod m { #[rsharp::remangle(substitute!(x))] pub fn q() {} }', '#[substitute("a")] pub mod m { #[rsharp::remangle(substitute!())] pub fn q() {} }'),
    ('#[substitute(a)] pub mod m { #[rsharp::remangle(substitute!())] pub fn q() {} }', '#[substitute("a")] pub mod m { #[rsharp::remangle(substitute!())] pub fn q() {} }'),
    ('#[substitute(Nothing)] #[derive(substitute!())] pub struct S;', '#[substitute(Clone)] #[derive(substitute!())] pub struct S;'),
]


def rejected(o, rlib, deps):
    """Malformed uses must not compile; the mended ones must."""
    n = 0
    for i, (bad, good) in enumerate(BAD):
        for which, text in (("malformed", bad), ("mended", good)):
            src = os.path.join(WORK, "one.rs")
            with open(src, "w") as f:
                f.write("#![allow(unused)]\nuse rsharp::{remangle, substitute};\n" + text + "\n")
            rc, out, err = common.sh(["rustc", "--edition=2021", "--crate-type=lib", "--emit=metadata", "-o", os.path.join(WORK, "one.rmeta"),
                                      "-L", f"dependency={deps}", "--extern", f"rsharp={rlib}", src], timeout=120)
            n += 1
            if which == "malformed" and rc == 0:
                o.append(dict(key=f"malformed use accepted: {bad[:80]}", what=f"this must not compile: {bad}", detail=[]))
            if which == "mended" and rc != 0:
                o.append(dict(key=f"valid use rejected: {good[:80]}", what=f"this must compile: {good}", detail=[l[:300] for l in err.splitlines() if l.startswith("error")][:10]))
    return n


def run(ctx):
    os.makedirs(WORK, exist_ok=True)
    v, counters, distinct, samples, n = [], {}, set(), [], 0

    def build(src):
        path = os.path.join(WORK, "uses.rs")
        with open(path, "w") as f:
            f.write(src)
        return common.sh(["cargo", "build", "--offline", "--bin", "c19", "--message-format=json"], cwd=CAPI, env_=common.env(VERIF_C19=path), timeout=500)
    # the same items, renamed by hand: the harness itself works
    src, _, _, _ = program(ctx.seed * 100, 0, 60, control=True)
    rc, out, err = build(src)
    if rc:
        raise common.Inconclusive("the control does not build: " + err[-1500:])
    libs = {}
    for l in out.splitlines():
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-artifact" and m["target"]["name"] == "rsharp":
                libs["rsharp"] = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    exe = os.path.join(CAPI, "target", "debug", "c19")
    for k in range(8 if ctx.thorough else 2):
        src, holes, kinds, texts = program(ctx.seed * 100 + k, 500 if ctx.thorough else 300, 100)
        rc, out, err = build(src)
        if rc:
            lines = []
            for l in out.splitlines():
                if l.startswith("{"):
                    m = json.loads(l)
                    if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                        lines += m["message"]["rendered"].splitlines()[:8]
            if not lines:
                lines = err.splitlines()[-10:]
            v.append(dict(key="valid uses do not compile", what="valid uses of the macros are not accepted: " + " ".join(lines[:2])[:400], detail=[l[:400] for l in lines[:40]]))
            break
        rc, out, err = common.sh([exe], timeout=300)
        m = re.search(r"^DONE (\d+) (\d+)", out, re.M)
        if m is None and "PANICKED" not in out:
            raise common.Inconclusive(f"the generated program exited with {rc}: {(out + err)[-500:]}")
        if m is None:
            v.append(dict(key="a renamed item does something else", what="a renamed item does not do what it did: " + " ".join(err.splitlines()[:2])[:300], detail=err.splitlines()[:20]))
            break
        if int(m.group(2)):
            lines = out.splitlines()
            at = [i for i, l in enumerate(lines) if l.startswith("DIFFERENT")]
            v.append(dict(key="other tokens than asked for", what=f"{m.group(2)} items come out with other tokens: {lines[at[0]][:200]}", detail=[l[:1500] for i in at[:4] for l in lines[i:i + 3]]))
            break
        n += int(m.group(1))
        counters["items whose tokens or behaviour were checked"] = counters.get("items whose tokens or behaviour were checked", 0) + int(m.group(1))
        for h, c in holes.items():
            counters["placeholders: " + h] = counters.get("placeholders: " + h, 0) + c
        distinct |= kinds
        samples += [t[:400] for t in texts[:3]]
    k = rejected(v, libs["rsharp"], os.path.dirname(libs["rsharp"]) if os.path.basename(os.path.dirname(libs["rsharp"])) == "deps" else os.path.join(CAPI, "target", "debug", "deps"))
    counters["compilations of malformed and mended uses"] = k
    return common.result(n + k, len(distinct), "a case is one generated or malformed use; distinct by kind of place and value, or kind of item and path", samples, counters, v)
