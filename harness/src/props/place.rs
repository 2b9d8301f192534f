//! C25: errors point at the declaration at fault.
use super::bad::{base, located};
use super::*;
use crate::choice::Src;

/// A valid specification with one mistake in the user's own Rust code or types. Declarations whose
/// text begins with '!' are at fault.
fn slip(s: &mut Src, sp: &Spec) -> Option<(&'static str, Vec<String>, Vec<String>)> {
    let st = sp.nts[sp.start_nt()].name.clone();
    let n = s.below(1000);
    let no = format!("Zno{}", n);
    let v = |a: &[&str]| -> Vec<String> { a.iter().map(|x| x.replace("@S", &st).replace("@N", &no).replace("@U", "::core::unreachable!()")).collect() };
    let q = |name, a: &[&str], b: &[&str]| Some((name, v(a), v(b)));
    match s.below(23) {
        0 => q("unknown name in an action", &["@S ::= Zq { @U }"], &["!@S ::= Zq { let x = @N; @U }"]),
        1 => q("unknown name after a block", &["@S ::= Zq { { 1 }; @U }"], &["!@S ::= Zq { { 1 }; @N(); @U }"]),
        2 => q("action of another type", &["@S ::= Zq zt { @U }", "%type zt u8;", "zt ::= Zx { 1 }"], &["@S ::= Zq zt { @U }", "%type zt u8;", "!zt ::= Zx { \"text\" }"]),
        3 => q("action without a value", &["@S ::= Zq zt { @U }", "%type zt u8;", "zt ::= Zx { 1 }"], &["@S ::= Zq zt { @U }", "%type zt u8;", "!zt ::= Zx { let _ = 1; }"]),
        4 => q("alias of another type", &["@S ::= Zq Zt(x) { let _y: u8 = x; @U }", "%type Zt u8;"], &["!@S ::= Zq Zt(x) { let _y: u16 = x; @U }", "%type Zt u8;"]),
        5 => q("alias that is not bound", &["@S ::= Zq Zt(x) { let _y: u8 = x; @U }", "%type Zt u8;"], &["!@S ::= Zq Zt(x) { let _y: u8 = y; @U }", "%type Zt u8;"]),
        6 => q("refutable alias", &["@S ::= Zq Zt(_) { @U }", "%type Zt Option<u8>;"], &["!@S ::= Zq Zt(Some(x)) { let _: u8 = x; @U }", "%type Zt Option<u8>;"]),
        7 => q("use of a moved alias", &["@S ::= Zq Zt(x) { drop(x); @U }", "%type Zt Vec<u8>;"], &["!@S ::= Zq Zt(x) { drop(x); drop(x); @U }", "%type Zt Vec<u8>;"]),
        8 => q("alias not declared mut", &["@S ::= Zq Zt(mut x) { x.push(1); @U }", "%type Zt Vec<u8>;"], &["!@S ::= Zq Zt(x) { x.push(1); @U }", "%type Zt Vec<u8>;"]),
        9 => q("unknown type of a token", &["@S ::= Zq Zt { @U }", "%type Zt u8;"], &["@S ::= Zq Zt { @U }", "!%type Zt @N;"]),
        10 => q("unknown type of a nonterminal", &["@S ::= Zq zt { @U }", "%type zt u8;", "zt ::= Zx { 1 }"], &["@S ::= Zq zt { @U }", "!%type zt Vec<@N>;", "zt ::= Zx { @U }"]),
        11 if !sp.extra_arg => q("unknown type of the extra argument", &["%extra_argument u8;"], &["!%extra_argument @N;"]),
        12 => q("unknown error type", &["%error ();"], &["!%error @N;"]),
        13 => q("unknown name in an include", &["%include { use ::core::mem as _zm; }"], &["!%include { use ::core::@N as _zm; }"]),
        14 => q("type error in an include", &["%include { fn _zf() -> u8 { 1 } }"], &["!%include { fn _zf() -> u8 { \"text\" } }"]),
        15 => q("unknown name in %syntax_error", &["%syntax_error { Err(()) }"], &["!%syntax_error { let _ = @N; Err(()) }"]),
        16 => q("unknown name in %parse_fail", &["%parse_fail { }"], &["!%parse_fail { @N() }"]),
        17 if !matches!(sp.stack, Some((0, _))) => q("unknown name in %stack_overflow", &["%stack_overflow { }"], &["!%stack_overflow { @N() }"]),
        18 => q("unknown derive of Token", &["%token #[derive()] pub enum Token {};"], &["!%token #[derive(@N)] pub enum Token {};"]),
        19 => q("unknown error value", &["%parse_fail { () }"], &["!%parse_fail { \"text\" }"]),
        20 => {
            // the same text is right in one rule and wrong in another
            let (a, b) = ("@S ::= Zq Zt(x) { let _y: u8 = x; @U }", "@S ::= Zr Zu(x) { let _y: u8 = x; @U }");
            q("action text that is right elsewhere", &[a, b, "%type Zt u8;", "%type Zu u8;"], &[a, &format!("!{}", b), "%type Zt u8;", "!%type Zu u16;"])
        }
        21 => {
            let (a, b) = ("@S ::= Zq zt zu { @U }", "zt ::= Zx { 1 }");
            q("value that is right elsewhere", &[a, b, "zu ::= Zx { 1 }", "%type zt u8;", "%type zu u8;"], &[a, b, "!zu ::= Zx { 1 }", "%type zt u8;", "!%type zu &'static str;"])
        }
        22 => q("alias pattern of another type", &["@S ::= Zq Zt((_a, _b)) { @U }", "%type Zt (u8, u8);"], &["!@S ::= Zq Zt((_a, _b, _c)) { @U }", "%type Zt (u8, u8);"]),
        _ => None,
    }
}
fn mix(s: &mut Src, sp: &Spec, extra: &[String]) -> (String, Vec<(isize, isize)>) {
    let mut d: Vec<(String, bool)> = sp.decls().into_iter().map(|x| (x, false)).collect();
    let end = d.len();
    for e in extra {
        let (t, b) = match e.strip_prefix('!') {
            Some(t) => (t, true),
            None => (&e[..], false),
        };
        // the first rule of the base stays first: it may determine the start symbol
        let p = if t.starts_with('%') { s.below(d.len() + 1) } else { s.range(end.min(d.len()), d.len()) };
        d.insert(p, (t.to_string(), b));
    }
    layout(&d)
}
/// the macro call, and the lines of the marked declarations
pub(super) fn layout(d: &[(String, bool)]) -> (String, Vec<(isize, isize)>) {
    let mut src = String::from("pomelo::pomelo! {\n");
    let mut line = 1;
    let mut at = vec![];
    for (t, b) in d {
        let n = t.matches('\n').count() as isize;
        if *b {
            at.push((line, line + n));
        }
        line += n + 1;
        src.push_str(t);
        src.push('\n');
    }
    src.push('}');
    (src, at)
}
struct Built {
    name: &'static str,
    good: String,
    bad: String,
    at: Vec<(isize, isize)>,
    expand: bool,
}
fn built(sp: &Spec, kind: u64, seed: u64) -> Option<Built> {
    if kind != u64::MAX {
        let (name, good, bad, at) = located(sp, kind, seed)?;
        return Some(Built { name, good, bad, at, expand: true });
    }
    let mut s = Src::new("C25", seed, 1);
    let (name, g, b) = slip(&mut s, sp)?;
    let (good, _) = mix(&mut s, sp, &g);
    let (bad, at) = mix(&mut s, sp, &b);
    Some(Built { name, good, bad, at, expand: false })
}

pub struct C25;
impl Prop for C25 {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "one case = one specification with one mistake in a known declaration (control accepted): a documented rule broken, or an error in the user's Rust code or types; at least one of the compiler's errors must have its primary span within the declaration at fault. Non-trivial: every such case whose specification has at least four declarations. Distinct by text."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 500, thorough: 12000, shard: 20, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut job = Job { kind: String::new(), specs: vec![], texts: vec![], nums: vec![], cases: vec![] };
        let rust = s.chance(30);
        job.kind = if rust { "rust" } else { "rule" }.into();
        let mut sp = base(s, idx)?;
        if rust {
            sp.handlers = false;
            sp.stack = None;
        }
        job.specs.push(sp);
        for k in 0..12 {
            job.nums.push(if rust { u64::MAX } else { idx * 12 + k });
            job.nums.push(s.u32() as u64);
        }
        Some(job)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let mut v = vec![];
        for p in job.nums.chunks(2) {
            if let Some(b) = built(&job.specs[0], p[0], p[1]) {
                for src in [b.good, b.bad] {
                    v.push(Unit { src, mode: if b.expand { Mode::Expand } else { Mode::Check } });
                }
            }
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let sp = &job.specs[0];
        if sp.rules.is_empty() || !super::typ::in_domain(sp) || !sp.fallback.is_empty() || sp.wildcard.is_some() || sp.default_ty.is_some() || sp.extra_tok {
            return Ok(());
        }
        if super::drive::determined(sp, 2000).is_none() {
            return Ok(());
        }
        let mut k = 0;
        for p in job.nums.chunks(2) {
            let Some(b) = built(sp, p[0], p[1]) else { continue };
            let (sg, sb, at) = (&obs.units[k], &obs.units[k + 1], &obs.lines[k + 1]);
            k += 2;
            if *sg != St::Ok {
                return fail(None, format!("`{}`: the valid control is {:?}\n{}", b.name, sg, b.good));
            }
            match sb {
                St::Rejected(_) | St::TypeErr(_) => {}
                st => return fail(None, format!("`{}` is not reported ({:?}):\n{}", b.name, st, b.bad)),
            }
            let hit = at.iter().any(|(x, y)| b.at.iter().any(|(u, v)| u <= x && y <= v));
            if !hit {
                let lines: Vec<&str> = b.bad.lines().collect();
                let show = |v: &[(isize, isize)]| v.iter().map(|(x, y)| if x == y { lines.get(*x as usize).map_or(format!("line {}", x), |l| l.to_string()) } else { format!("lines {}-{}", x, y) }).collect::<Vec<_>>().join(" / ");
                if std::env::var("PV_PROBE").is_ok() {
                    t.count(&format!("MISS {}", b.name));
                    eprintln!("MISS {}: {:?} at {} not {}", b.name, sb, show(at), show(&b.at));
                    continue;
                }
                return fail(None, format!("`{}`: the declaration at fault is\n{}\nbut the error is reported at\n{}\n({:?}) in\n{}", b.name, show(&b.at), show(at), sb, b.bad));
            }
            t.eval(b.bad.lines().count() >= 6, &b.bad);
            t.count(&format!("at fault: {}", b.name));
            if b.bad.len() < 500 {
                t.sample(|| format!("{}: {:?} at {}", b.name, sb, b.bad.lines().nth(at[0].0 as usize).unwrap_or("?")));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 3_500), ("at fault: unknown name in an action", 30), ("at fault: refutable alias", 30), ("at fault: fallback loop", 30), ("at fault: compound with a nonterminal", 30)]
    }
}
