//! C21 customisation of the generated items; no_std.
use super::env::judge_machine;
use super::err::{err_grammar, noisy, plain_grammar};
use super::typ::in_domain;
use super::*;
use crate::choice::Src;
use crate::gen;

const PUB: [&str; 6] = ["pub", "pub(crate)", "pub(super)", "pub(in super)", "pub(self)", ""];
fn private(v: &str) -> bool {
    v.is_empty() || v == "pub(self)"
}
/// (id, items, statements of the check)
const INCLUDES: [(&str, &str); 12] = [
    ("pub const ANSWER: u64 = 42;", "if @::ANSWER != 42 { panic!(\"CHECK:const\") }"),
    ("pub fn helper(x: u64) -> u64 { x + 1 } fn private_helper() {}", "if @::helper(4) != 5 { panic!(\"CHECK:fn\") }"),
    ("/// documented\npub mod inner { pub struct S; impl S { pub const Z: u64 = 9; } pub mod deep { pub fn f() -> u64 { 3 } } }", "if @::inner::S::Z + @::inner::deep::f() != 12 { panic!(\"CHECK:mod\") }"),
    ("pub use ::rt::W as Wide; #[allow(unused_imports)] use ::core::mem;", "{ let _w: @::Wide<5> = ::rt::W(1); }"),
    ("pub trait Tr { fn tr(&self) -> u64 { 5 } } impl Tr for u64 {} impl Tr for u8 { fn tr(&self) -> u64 { 6 } }", "if @::Tr::tr(&0u64) + @::Tr::tr(&0u8) != 11 { panic!(\"CHECK:impl\") }"),
    ("macro_rules! seven { () => { 7 } } pub fn seven() -> u64 { seven!() }", "if @::seven() != 7 { panic!(\"CHECK:macro\") }"),
    ("", ""),
    ("#[derive(Debug, Clone, Copy, PartialEq)] pub enum Kind { A, B(u8), C { d: u16 } } impl Default for Kind { fn default() -> Kind { Kind::B(3) } } pub type Kinds = [Kind; 3];", "{ let k: @::Kinds = [@::Kind::default(); 3]; if k[1] != @::Kind::B(3) { panic!(\"CHECK:enum\") } }"),
    ("pub static TABLE: [u8; 4] = [1, 2, 3, 4]; pub const fn sum() -> u8 { TABLE_C[0] + TABLE_C[3] } const TABLE_C: [u8; 4] = [1, 2, 3, 4];", "if @::TABLE[2] + @::sum() != 8 { panic!(\"CHECK:static\") }"),
    ("pub union Un { pub a: u8, b: i8 } #[inline] pub fn generic<T: Clone>(t: &T) -> T where T: Sized { t.clone() }", "{ let u = @::Un { a: @::generic(&7u8) }; if unsafe { u.a } != 7 { panic!(\"CHECK:union\") } }"),
    ("macro_rules! mk_fn { ($n:ident, $v:expr) => { pub fn $n() -> u64 { $v } } } mk_fn! { made, 8 } mk_fn!(also, 9);", "if @::made() + @::also() != 17 { panic!(\"CHECK:macro-item\") }"),
    ("use super::*; pub const OUTER2: u64 = OUTER + 1;", "if @::OUTER2 != 12 { panic!(\"CHECK:use-super\") }"),
];

/// Fills in what the choices in Custom::opts stand for.
fn fill(spec: &Spec) -> Spec {
    let mut sp = spec.clone();
    let Some(mut c) = sp.cust.take() else { return sp };
    let opts = std::mem::take(&mut c.opts);
    let has = |o: &str| opts.iter().any(|x| x == o);
    let tys: Vec<Ty> = (0..spec.terms.len()).map(|t| spec.tty(t)).collect();
    let nt = tys.len();
    let path = |a: &str| format!("@::{}", a);
    if let Some((_, attrs)) = &mut c.tok {
        let simple = tys.iter().all(|t| matches!(t, Ty::Unset | Ty::Unit | Ty::G));
        let generic = tys.contains(&Ty::G);
        let tu8 = path(if generic { "Token::<u8>" } else { "Token" });
        let mut der = vec![];
        if has("t:debug") {
            der.push("Debug");
            for i in 0..nt {
                let n = &spec.terms[i].name;
                let want = if tys[i].set() { format!("{}({})", n, debug(&tys[i], 3, 4)) } else { n.clone() };
                c.checks.push(format!("if format!(\"{{:?}}\", mk({}, 3, 4)) != {:?} {{ panic!(\"CHECK:Debug\") }}", i, want));
            }
        }
        if has("t:eq") {
            der.push("PartialEq, Eq");
            for i in 0..nt {
                c.checks.push(format!("if mk({i}, 3, 4) != mk({i}, 3, 4) {{ panic!(\"CHECK:PartialEq\") }}"));
                if i > 0 {
                    c.checks.push(format!("if mk({i}, 3, 4) == mk({}, 3, 4) {{ panic!(\"CHECK:PartialEq\") }}", i - 1));
                }
            }
        }
        if simple {
            let mut probe = |tr: &str| c.checks.push(format!("{{ fn probe<Q: {}>() {{}} probe::<{}>(); }}", tr, tu8));
            if has("t:clone") {
                der.push("Clone");
                probe("Clone");
                if has("t:copy") {
                    der.push("Copy");
                    probe("Copy");
                }
            }
            if has("t:hash") {
                der.push("Hash");
                probe("::core::hash::Hash");
            }
            if has("t:eq") && has("t:ord") {
                der.push("PartialOrd, Ord");
                probe("Ord");
            }
        }
        if let Some(d) = opts.iter().find_map(|o| o.strip_prefix("t:default:")) {
            if (0..nt).any(|i| spec.terms[i].name == d && !tys[i].set()) {
                der.push("Default");
                c.attrs.push((d.to_string(), "#[default]".into()));
                c.checks.push(format!("if !matches!(<K as Default>::default(), K::{}) {{ panic!(\"CHECK:Default\") }}", d));
            }
        }
        if has("t:doc") {
            attrs.push("#[doc = \"The token.\"]\n/// documented\n".into());
        }
        if !der.is_empty() {
            // in one attribute or several
            if has("t:split") {
                attrs.extend(der.iter().map(|d| format!("#[derive({})]", d)));
            } else if has("t:cfg") {
                attrs.push(format!("#[cfg_attr(all(), derive({}))]", der.join(", ")));
            } else {
                attrs.push(format!("#[derive({})]", der.join(", ")));
            }
        }
        if has("t:nonex") {
            attrs.push("#[non_exhaustive]".into());
        }
        if let Some(a) = opts.iter().find_map(|o| o.strip_prefix("t:align:")) {
            if nt > 0 {
                attrs.push(format!("#[repr(align({}))]", a));
                c.checks.push(format!("if ::std::mem::align_of::<K>() != {} {{ panic!(\"CHECK:align\") }}", a));
            }
        }
    }
    for o in &opts {
        let Some(r) = o.strip_prefix("d:") else { continue };
        if spec.terms.iter().any(|t| t.name == r) {
            c.attrs.push((r.to_string(), "#[doc = \"variant\"] #[allow(dead_code)]".into()));
        }
    }
    if let Some((_, attrs)) = &mut c.par {
        if has("p:doc") {
            attrs.push("/// The parser.\n#[must_use]".into());
        }
        if let Some(a) = opts.iter().find_map(|o| o.strip_prefix("p:align:")) {
            attrs.push(format!("#[repr(align({}))]", a));
            c.checks.push(format!("if ::std::mem::align_of::<P>() != {} {{ panic!(\"CHECK:parser-align\") }}", a));
        }
    }
    // what the derive macro VInfo sees
    for (par, tag, con) in [(false, "t:info", "VINFO"), (true, "p:info", "PINFO")] {
        let d = if par { &mut c.par } else { &mut c.tok };
        let Some((vis, attrs)) = d else { continue };
        if !has(tag) {
            continue;
        }
        let vis = vis.clone();
        attrs.push("#[derive(::vattr::VInfo)]".into());
        let mut va: Vec<String> = opts.iter().filter_map(|o| o.strip_prefix(if par { "p:va:" } else { "t:va:" })).map(|w| format!("va({})", w)).collect();
        attrs.extend(va.iter().map(|a| format!("#[{}]", a)));
        va.sort();
        let mut vars = vec![];
        if !par {
            for t in &spec.terms {
                let mut w: Vec<String> = vec![];
                for o in &opts {
                    if let Some((n, x)) = o.strip_prefix("v:").and_then(|r| r.split_once(':')) {
                        if n == t.name {
                            w.push(format!("va({})", x));
                        }
                    }
                }
                c.attrs.extend(w.iter().map(|a| (t.name.clone(), format!("#[{}]", a))));
                w.sort();
                vars.push(format!("{}:{}", t.name, w.join("+")));
            }
            vars.sort();
        }
        let mut tmp = sp.clone();
        tmp.cust = Some(c.clone());
        let (g, w) = tmp.gdecl(par, true);
        let dense = |s: String| s.split_whitespace().collect::<String>();
        let mut gen = dense(format!("{}{}", g, w));
        if c.alias {
            gen = gen.replace("::rt::W<0>", "Wz").replace("::rt::", "rr::");
        }
        let want = format!("{}|{}|{}|{}", dense(vis), va.join("+"), gen, vars.join(";"));
        // (escaped so that nothing replaces it on the way)
        let want = format!("{:?}", want).replace("::rt::W", "::rt\\x3a:W");
        c.checks.push(format!("if @::{} != {} {{ panic!(\"CHECK:{}:{{}}\", @::{}) }}", con, want, con, con));
    }
    for o in &opts {
        let Some(k) = o.strip_prefix("i:").and_then(|k| k.parse::<usize>().ok()) else { continue };
        let (i, check) = INCLUDES[k];
        if c.wrap && i.contains('$') || c.includes.iter().any(|x| x == i && !i.is_empty()) {
            continue;
        }
        if i.contains("OUTER") {
            c.items.push("pub const OUTER: u64 = 11;".into());
        }
        c.includes.push(i.into());
        c.checks.push(check.into());
    }
    if c.methods {
        if nt > 0 {
            c.checks.push("if mk(0, 1, 1).tag() != 40 { panic!(\"CHECK:Token-method\") }".into());
        }
        c.checks.push(format!("if P::new({}).tag() != 41 {{ panic!(\"CHECK:Parser-method\") }}", if spec.extra_arg { "::rt::IsEx::mk(1)" } else { "" }));
    }
    if c.dfl && !spec.terms.is_empty() && tys.iter().any(|t| t.has(&Ty::G) || t.has(&Ty::C)) && !tys.iter().any(|t| t.has(&Ty::R)) {
        c.checks.push("{ let _f: fn(@::Token) -> K = |t| t; }".into());
    }
    sp.cust = Some(c);
    sp
}
fn debug(t: &Ty, v: u64, x: u64) -> String {
    match t {
        Ty::Unset | Ty::Unit => "()".into(),
        Ty::W(_) | Ty::G | Ty::C | Ty::R => format!("W({})", v),
        Ty::X => format!("X({})", x),
        Ty::Opt(t) => format!("Some({})", debug(t, v, x)),
        Ty::Pair(t) => format!("(X({}), {})", x, debug(t, v, x)),
        Ty::Sh(_, t) => debug(t, v, x),
    }
}
/// what must not compile: uses of the items from where they are not visible
fn probes(spec: &Spec) -> Vec<(String, String)> {
    let Some(c) = &spec.cust else { return vec![] };
    let m = spec.module_name();
    let mut v = vec![];
    for (d, n) in [(&c.tok, "Token"), (&c.par, "Parser")] {
        let Some((vis, _)) = d else { continue };
        let line = if private(vis) {
            format!("use self::{}::{} as Probe;", m, n)
        } else if vis == "pub(super)" || vis == "pub(in super)" {
            format!("pub(crate) use self::{}::{} as Probe;", m, n)
        } else if vis == "pub(crate)" {
            format!("pub use self::{}::{} as Probe;", m, n)
        } else {
            continue;
        };
        let mut f = fill(spec);
        let fc = f.cust.as_mut().unwrap();
        fc.items.push(line);
        v.push((format!("{} declared with visibility {:?} is visible outside of it", n, vis), f.unit()));
    }
    // the module is private to the module of the macro call
    let mut f = fill(spec);
    f.cust.as_mut().unwrap().items.push(format!("pub(crate) use self::{} as probe_mod;", m));
    v.push(("the generated module is visible outside of the module of the macro call".into(), f.unit()));
    v
}
/// choices that are in the documented domain (the shrinker may leave it)
fn sound(spec: &Spec) -> bool {
    let Some(c) = &spec.cust else { return true };
    let tys: Vec<Ty> = (0..spec.terms.len()).map(|t| spec.tty(t)).collect();
    let mut own: Vec<Ty> = (0..spec.nts.len()).map(|n| spec.nty(n)).collect();
    own.push(spec.ety());
    for x in [Ty::G, Ty::C, Ty::R] {
        if own.iter().any(|t| t.has(&x)) && !tys.iter().any(|t| t.has(&x)) && c.par.is_none() {
            return false;
        }
        // a parameter that only the default type mentions, and nothing has the default type
        if spec.default_ty.as_ref().map_or(false, |d| d.has(&x)) && !own.iter().chain(&tys).any(|t| t.has(&x)) {
            return false;
        }
    }
    let pv = |d: &Option<(String, Vec<String>)>| d.as_ref().map_or(false, |d| private(&d.0));
    // more than what the module re-exports cannot be used through it
    c.inside || !(pv(&c.tok) || pv(&c.par))
}
fn edition(spec: &Spec) -> u8 {
    [18, 21, 24][(spec.rules.len() + spec.terms.len()) % 3]
}
fn nostd(spec: &Spec) -> Spec {
    let mut f = fill(spec);
    let c = f.cust.as_mut().unwrap();
    c.min = true;
    c.checks.clear();
    let n = match f.stack {
        Some((n, _)) => n,
        None => 100,
    };
    f.stack = Some((n, if n == 0 || spec.rules.len() % 2 == 0 { StackTy::V } else { StackTy::F }));
    f
}

pub struct C21;
impl Prop for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "one specification = random grammar (plain, `error`, fallback, wildcard, %extra_token, %extra_argument, stacks) with random customisation: module name, %include items (also giving names the declarations use), visibility, attributes and generics (lifetime, type, const; bounds inline or in a where clause; defaults) of Token and Parser, variant attributes, macro_rules wrapping. The unit's program first checks the items themselves (derives, alignment, what a derive macro sees of visibility, attributes, generics and variants, inherent methods, included items), then the cases (token strings with noise) are compared with the reference machine; the same specification is compiled in a no_std crate of edition 2018/2021/2024, and uses of the module, Token and Parser from where they are not visible must not compile. Non-trivial case: at least one action ran with a typed argument or the result is typed, under a specification that customises something."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1000, thorough: 30000, shard: 25, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = match s.weighted(&[25, 20, 40, 15]) {
            0 => plain_grammar(s, idx)?,
            1 => err_grammar(s, idx)?,
            3 => super::tok::fallback_grammar(s, idx)?,
            _ => {
                let p = gen::GenP { sugar: *s.pick(&[0, 15, 30]), ..Default::default() };
                gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?
            }
        };
        match s.weighted(&[60, 10, 15, 15]) {
            1 => spec.default_ty = Some(Ty::Unit),
            2 => spec.default_ty = Some(Ty::W(s.below(3) as u32)),
            3 if spec.wildcard.is_none() => spec.extra_tok = true,
            _ => {}
        }
        spec.extra_arg = s.chance(40);
        spec.handlers = s.chance(90);
        if s.chance(30) {
            spec.stack = Some((if s.chance(30) { 0 } else { s.range(4, 60) }, *s.pick(&[StackTy::Vec, StackTy::V])));
        }
        let d = gen::Deco { typed: *s.pick(&[100, 70, 40, 0]), units: *s.pick(&[0, 10, 40]), aliases: *s.pick(&[100, 60]), nocode: *s.pick(&[0, 30]), order: 40 };
        gen::decorate(s, &mut spec, &d);
        // parameters for some of the types
        let pm = [s.chance(45), s.chance(30), s.chance(30)];
        let f = |t: &mut Ty| {
            if let Ty::W(k @ 0..=2) = *t {
                if pm[k as usize] {
                    *t = [Ty::G, Ty::C, Ty::R][k as usize].clone();
                }
            }
        };
        spec.terms.iter_mut().for_each(|t| f(&mut t.ty));
        spec.nts.iter_mut().for_each(|t| f(&mut t.ty));
        f(&mut spec.err_ty);
        if let Some(t) = &mut spec.default_ty {
            f(t);
        }
        if let Some(d) = spec.default_ty.clone().filter(|d| [Ty::G, Ty::C, Ty::R].contains(d)) {
            if !(0..spec.terms.len()).any(|t| spec.tty(t) == d) && !(0..spec.nts.len()).any(|n| spec.nty(n) == d) {
                spec.default_ty = None;
            }
        }
        gen::aliases_and_code(s, &mut spec, &d);
        if s.chance(60) {
            spec.module = Some(s.pick(&["my_parser", "token", "r#match", "core", "Parser", "Token", "yy", "p", "alloc", "parser", "módulo", "r#yield"]).to_string());
        }
        let mut c = Custom { swap: s.chance(30), wh: s.chance(35), dfl: s.chance(30), pwh: s.chance(30), pdfl: s.chance(30), pe: s.below(3) as u8, wrap: s.chance(12), methods: s.chance(30), alias: s.chance(20), ..Default::default() };
        let vis = |s: &mut Src| PUB[s.weighted(&[30, 15, 10, 10, 5, 15])].to_string();
        if s.chance(75) {
            c.tok = Some((vis(s), vec![]));
        }
        if s.chance(55) {
            c.par = Some((vis(s), vec![]));
        }
        spec.cust = Some(c.clone());
        if !sound(&Spec { cust: Some(Custom { inside: true, ..c.clone() }), ..spec.clone() }) {
            c.par = Some((vis(s), vec![]));
        }
        for (o, p) in [("t:debug", 45), ("t:eq", 35), ("t:clone", 40), ("t:copy", 30), ("t:hash", 30), ("t:ord", 30), ("t:doc", 20), ("t:split", 30), ("t:cfg", 15), ("t:nonex", 10), ("t:info", 60), ("p:info", 60), ("p:doc", 20)] {
            if s.chance(p) {
                c.opts.push(o.into());
            }
        }
        let words = ["x", "y = \"z\"", "a::b", "1 + 2", "x", "#", "{ % }"];
        for p in ["t:va:", "p:va:"] {
            for _ in 0..s.weighted(&[50, 30, 20]) {
                c.opts.push(format!("{}{}", p, s.pick(&words)).replace(' ', ""));
            }
        }
        if s.chance(30) {
            c.opts.push(format!("t:align:{}", s.pick(&[16, 32, 64])));
        }
        if s.chance(30) {
            c.opts.push(format!("p:align:{}", s.pick(&[16, 64, 128])));
        }
        let names: Vec<String> = spec.terms.iter().map(|t| t.name.clone()).collect();
        if !names.is_empty() {
            if s.chance(50) {
                c.opts.push(format!("t:default:{}", s.pick(&names)));
            }
            for n in &names {
                if s.chance(25) {
                    c.opts.push(format!("d:{}", n));
                }
                for _ in 0..s.weighted(&[60, 30, 10]) {
                    c.opts.push(format!("v:{}:{}", n, s.pick(&words)).replace(' ', ""));
                }
            }
        }
        for _ in 0..s.weighted(&[20, 30, 25, 15, 10]) {
            c.opts.push(format!("i:{}", s.below(INCLUDES.len())));
        }
        spec.cust = Some(c.clone());
        c.inside = !sound(&spec) || s.chance(20);
        spec.cust = Some(c);
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 12) {
            let mut k = Case::toks(0, &v, true, *s.pick(&["O", "O", "", "s1"]));
            if spec.extra_arg && s.chance(30) {
                k.ops.insert(s.range(1, k.ops.len() - 1), Op::new('X', &[s.below(100) as u64]));
            }
            cases.push(k);
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let spec = &job.specs[0];
        if spec.cust.is_none() || !sound(spec) || !in_domain(spec) {
            return vec![unit(spec)];
        }
        let mut v = vec![unit(&fill(spec)), Unit { src: nostd(spec).unit(), mode: Mode::NoStd(edition(spec)) }];
        v.extend(probes(spec).into_iter().map(|p| Unit { src: p.1, mode: Mode::Check }));
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let Some(c) = &spec.cust else { return Ok(()) };
        if !in_domain(spec) || !sound(spec) {
            return Ok(());
        }
        accepted(obs, 0)?;
        let no = |m: String| Err(Fail { msg: m, case: None });
        match &obs.units[1] {
            St::Ok => t.count(&format!("compiled without std, edition 20{}", edition(spec))),
            st => {
                let m = match st {
                    St::Rejected(m) | St::Panicked(m) | St::TypeErr(m) | St::Died(m) => m.clone(),
                    _ => String::new(),
                };
                return no(format!("does not compile in a no_std crate of edition 20{} with a custom stack: {}", edition(spec), m));
            }
        }
        for (i, p) in probes(spec).iter().enumerate() {
            match &obs.units[2 + i] {
                St::TypeErr(m) if m.contains("private") || m.contains("only public within the crate") || m.contains("re-exported") => t.count("uses from outside rejected"),
                St::Ok => return no(p.0.clone()),
                st => return no(format!("unexpected outcome of a use of the generated items from outside: {:?}", st)),
            }
        }
        for ci in 0..job.cases.len() {
            if let Some(tr) = obs.cases[ci].as_deref() {
                if let Some(p) = tr.find("CHECK:") {
                    return fail(ci, format!("the generated items are not as declared: check {} failed", &tr[p + 6..].split('>').next().unwrap_or("")));
                }
            }
        }
        let f = fill(spec);
        let fc = f.cust.as_ref().unwrap();
        if !spec.gargs(false, false).is_empty() {
            t.count(if c.par.is_some() { "generic Token, Parser declared" } else { "generic Token, default Parser" });
        } else if !spec.gargs(true, false).is_empty() {
            t.count("generic Parser only");
        }
        t.add("checks of the generated items", fc.checks.len() as u64);
        t.add("include directives", fc.includes.len() as u64);
        t.add("variant attributes", fc.attrs.len() as u64);
        if c.wrap {
            t.count("out of macro_rules");
        }
        if c.alias {
            t.count("declarations using included names");
        }
        if c.tok.as_ref().map_or(false, |x| private(&x.0)) || c.par.as_ref().map_or(false, |x| private(&x.0)) {
            t.count("private items");
        }
        let some = spec.module.is_some() || c.tok.is_some() || c.par.is_some() || !fc.includes.is_empty();
        judge_machine(job, obs, t, &|tr, _, _| {
            let args = tr.iter().any(|e| matches!(e, Ev::R { args, .. } if args.iter().any(|a| a != "u")));
            let res = tr.iter().any(|e| matches!(e, Ev::Ret(r) if r.starts_with("acc") && !r.starts_with("accu")));
            some && (args || res)
        })
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 3_000), ("checks of the generated items", 5_000), ("compiled without std, edition 2018", 150), ("compiled without std, edition 2021", 150), ("compiled without std, edition 2024", 150), ("generic Token, default Parser", 60), ("generic Token, Parser declared", 80), ("generic Parser only", 50), ("include directives", 800), ("variant attributes", 2_000), ("private items", 120), ("uses from outside rejected", 800), ("out of macro_rules", 40)]
    }
}
