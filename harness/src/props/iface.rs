//! C28: the documented interface, and nothing else; no warnings.
use super::*;
use crate::choice::Src;
use std::collections::BTreeSet;
use std::fmt::Write;

pub struct C28;

fn etype(sp: &Spec) -> &'static str {
    match sp.dflt {
        _ if sp.err_unit() => "()",
        d if d & 8 != 0 => "::rt::En",
        d => ["::rt::E", "Box<::rt::E>", "(::rt::E,)", "[::rt::E; 1]"][d as usize >> 6],
    }
}
/// A caller that names the type of everything it uses, next to the macro call.
fn caller(sp: &Spec, unit_extra: bool) -> String {
    let m = sp.module_name();
    let mut s = call(sp, unit_extra);
    // the code in the specification needs `ti`
    let glue = sp.glue();
    let (a, b) = (glue.find("type P ").unwrap_or(0), glue.find("pub fn ti").unwrap_or(0));
    let c = b + glue[b..].find("} }\n").unwrap_or(0) + 4;
    let glue = format!("{}{}", &glue[..a], &glue[b..c]).replace(&format!("self::{}::", m), &format!("super::{}::", m));
    writeln!(s, "#[allow(warnings)] pub mod glue_ {{\n{}}}\n#[allow(unused_imports)] use self::glue_::ti;", glue).unwrap();
    writeln!(s, "type K = self::{}::Token{};\ntype P = self::{}::Parser{};", m, sp.gargs(false, true), m, sp.gargs(true, true)).unwrap();
    s.push_str("pub struct No;\npub trait Absent { fn extra(&self) -> No { No } fn extra_mut(&mut self) -> No { No } fn into_extra(self) -> No where Self: Sized { No } }\nimpl<Q> Absent for Q {}\n");
    let root = sp.nty(sp.start_nt()).conc().rust().replace("'a", "'static");
    let arg = sp.extra_arg || unit_extra;
    let (e, x) = (etype(sp), if sp.extra_arg { sp.extra_ty(true) } else { "()".into() });
    s.push_str("pub fn each(k: K) { match k {\n");
    for (i, t) in sp.terms.iter().enumerate() {
        let ty = sp.tty(i);
        if ty.set() {
            writeln!(s, "K::{}(a) => {{ let _a: {} = a; }}", t.name, ty.conc().rust().replace("'a", "'static")).unwrap();
        } else {
            writeln!(s, "K::{} => {{}}", t.name).unwrap();
        }
    }
    s.push_str("} }\npub fn go() {\n");
    let mut f = |ty: String, at: &str| writeln!(s, "{{ let _f: {} = {}; }}", ty, at).unwrap();
    f(if arg { format!("fn({}) -> P", x) } else { "fn() -> P".into() }, "P::new");
    f(format!("fn(&mut P, K) -> Result<(), {}>", e), "P::parse");
    f(format!("fn(P) -> Result<{}, {}>", if arg { format!("({}, {})", root, x) } else { root }, e), "P::end_of_input");
    for (n, has, x) in [("P", arg, x.as_str()), ("K", sp.extra_tok, "::rt::X")] {
        let r = |r: &str| if has { format!("{}{}", r, x) } else { "No".into() };
        f(format!("for<'z> fn(&'z {}) -> {}", n, r("&'z ")), &format!("{}::extra", n));
        f(format!("for<'z> fn(&'z mut {}) -> {}", n, r("&'z mut ")), &format!("{}::extra_mut", n));
        f(format!("fn({}) -> {}", n, r("")), &format!("{}::into_extra", n));
    }
    s.push_str("}\n");
    s
}
/// the macro call; with an extra argument of type () for a specification that has none
fn call(sp: &Spec, unit_extra: bool) -> String {
    let s = sp.invocation();
    if unit_extra { s.replacen("pomelo::pomelo! {\n", "pomelo::pomelo! {\n%extra_argument ();\n", 1) } else { s }
}
fn unit_extra(job: &Job) -> bool {
    !job.specs[0].extra_arg && job.nums.first() == Some(&1)
}
fn edition(sp: &Spec) -> u8 {
    [18, 21, 24][(sp.rules.len() + sp.terms.len()) % 3]
}
/// what the printed module shows: public items, public methods
fn shown(text: &str, m: &str) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut items, mut fns) = (BTreeSet::new(), BTreeSet::new());
    let (mut inside, mut of) = (false, String::new());
    for l in text.lines() {
        if l == format!("    mod {} {{", m) {
            inside = true;
        } else if l == "    }" {
            inside = false;
        }
        if !inside {
            continue;
        }
        let name = |x: &str| x.split(|c: char| !(c.is_alphanumeric() || c == '_' || c == '#')).next().unwrap_or("").to_string();
        if let Some(r) = l.strip_prefix("        ").filter(|r| !r.starts_with(' ')) {
            if r.starts_with("impl") {
                of = if r.contains(" for ") { String::new() } else if r.contains(" Token") { "Token".into() } else if r.contains(" Parser") { "Parser".into() } else { String::new() };
            } else if r.starts_with('}') {
                of.clear();
            } else if let Some(p) = r.strip_prefix("pub ") {
                let mut w = p.splitn(2, ' ');
                let kind = w.next().unwrap_or("");
                items.insert(format!("{} {}", kind, name(w.next().unwrap_or(""))));
            }
        } else if let Some(p) = l.strip_prefix("            pub ").filter(|_| !of.is_empty()) {
            fns.insert(format!("{}::{}", of, name(p.strip_prefix("fn ").unwrap_or(p))));
        }
    }
    (items, fns)
}

impl Prop for C28 {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "one case = one specification (typed, generic, with extra argument or token, error types, stacks, fallback, wildcard, `error`), expanded (a) next to a caller that states the type of every variant and every function, and that `extra`, `extra_mut`, `into_extra` are absent from Parser and Token where they should be, in a crate of edition 2018/2021/2024 that denies all warnings and forbids unsafe code: it must compile; some with an extra argument of type (); (b) printed: no unsafe code, and the public items and the public methods of the module must be exactly the documented ones. Non-trivial: something is typed, generic or extra. Distinct by specification."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1500, thorough: 40000, shard: 25, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let k = s.weighted(&[30, 15, 15, 10, 15, 10, 10, 10]);
        let mut sp = match k {
            0 => super::custom::C21.gen(s, idx)?,
            1 => super::env::C19.gen(s, idx)?,
            2 => super::env::C20.gen(s, idx)?,
            3 => super::env::C09.gen(s, idx)?,
            4 => super::err::C22.gen(s, idx)?,
            5 => super::typ::C13.gen(s, idx)?,
            6 => super::tok::C12.gen(s, idx)?,
            _ => super::env::C16.gen(s, idx)?,
        }
        .specs
        .into_iter()
        .next()?;
        if let Some(c) = &mut sp.cust {
            c.inside = false;
            c.opts.clear();
            c.methods = false;
            c.alias = false;
            for d in [&mut c.tok, &mut c.par].into_iter().flatten() {
                d.0 = "pub".into();
            }
        }
        // an error type that has no Default, where one is needed
        if sp.dflt & 8 != 0 {
            sp.dflt &= !15;
        }
        let mut job = Job::of(&k.to_string(), sp, vec![]);
        job.nums.push(s.chance(10) as u64);
        Some(job)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let sp = &job.specs[0];
        vec![Unit { src: caller(sp, unit_extra(job)), mode: Mode::Strict(edition(sp)) }, Unit { src: call(sp, unit_extra(job)), mode: Mode::Print }]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let sp = &job.specs[0];
        // whether it is accepted is the matter of other properties
        match &obs.units[1] {
            St::Ok => {}
            _ => {
                t.count("not accepted");
                return Ok(());
            }
        }
        match &obs.units[0] {
            St::Ok => t.count(&format!("callers in edition 20{}", edition(sp))),
            St::TypeErr(m) | St::Rejected(m) => return fail(None, format!("a caller of the documented interface, in a crate of edition 20{} that denies warnings and unsafe code: {}", edition(sp), m)),
            st => return fail(None, format!("a caller of the documented interface: {:?}", st)),
        }
        // the specifications have none, and lints are silent about code made by macros
        if obs.outs[1].split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == "unsafe") {
            return fail(None, "the expansion has unsafe code");
        }
        let (mut items, fns) = shown(&obs.outs[1], sp.module_name());
        // the user's own
        let text = sp.macro_input();
        items.retain(|i| matches!(i.as_str(), "enum Token" | "struct Parser") || !text.contains(&format!("pub {}", i)));
        let want: BTreeSet<String> = ["enum Token", "struct Parser"].iter().map(|x| x.to_string()).collect();
        if items != want {
            return fail(None, format!("the public items of the module are {:?}", items));
        }
        let mut want: BTreeSet<String> = ["new", "parse", "end_of_input"].iter().map(|x| format!("Parser::{}", x)).collect();
        for (n, has) in [("Parser", sp.extra_arg || unit_extra(job)), ("Token", sp.extra_tok)] {
            if has {
                want.extend(["extra", "extra_mut", "into_extra"].iter().map(|x| format!("{}::{}", n, x)));
                t.count(&format!("{} with extra", n));
            }
        }
        if unit_extra(job) {
            t.count("extra argument of type ()");
        }
        if fns != want {
            return fail(None, format!("the public methods are {:?}, documented are {:?}", fns, want));
        }
        let gen = !sp.gargs(true, false).is_empty();
        if gen {
            t.count("generic");
        }
        let typed = sp.nty(sp.start_nt()).set() || (0..sp.terms.len()).any(|i| sp.tty(i).set());
        if typed && sp.rules.len() < 8 {
            t.sample(|| format!("edition 20{}, methods {:?}: {}", edition(sp), fns, sp.macro_input().replace('\n', " ")));
        }
        t.eval(typed || gen || sp.extra_arg || sp.extra_tok, &sp.macro_input());
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 900), ("callers in edition 2018", 200), ("callers in edition 2021", 200), ("callers in edition 2024", 200), ("Parser with extra", 200), ("Token with extra", 150), ("generic", 100), ("extra argument of type ()", 40)]
    }
}
