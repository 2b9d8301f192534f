//! C23 names of symbols and aliases carry no meaning.
use super::drive::*;
use super::env::alike;
use super::*;
use crate::choice::Src;
use crate::gen;
use std::collections::HashSet;

const TERMS: &[&str] = &[
    "Option", "Some", "None", "Ok", "Err", "Vec", "Result", "Token", "Parser", "Box", "String", "Default", "Iterator", "From", "Into", "Send", "YYMinorType", "YY0", "YY1", "YYStack", "YYStackEntry", "YYStatus", "YYNSTATE", "YYNRULE",
    "YYWILDCARD", "YYERRORSYMBOL", "YY_ACTION", "ExpectedToken", "ExpectedTokens", "Normal", "Failed", "Accepted", "T", "E", "K", "P", "D", "W", "X", "A", "AA", "Aa", "Ab", "A_", "A__", "A0", "A00", "A01", "Error", "ERROR", "Eoi", "EOI", "Type",
    "Left", "Right", "Prec", "Input", "Expr", "Start", "Wildcard", "Any", "Fallback", "Module", "TypeWithAVeryLongNameThatIsNotUsualInAGrammarButIsStillAnIdentifier", "T\u{df}", "N\u{e4}me", "I", "L", "Usize", "Str", "U8", "Item", "R", "Zz", "Q_0", "C1", "C2",
];
const NTS: &[&str] = &[
    "a", "aa", "ab", "a_", "a__", "a0", "a00", "a01", "errors", "error_", "error0", "err", "default", "start", "end", "eoi", "token", "parser", "extra", "expected", "yy", "yyres", "yy0", "yyp0", "input", "left", "right", "nonassoc", "module", "include",
    "wildcard", "fallback", "verbose", "token_class", "type_", "r#type", "r#fn", "r#match", "r#struct", "u8", "i32", "str", "bool", "core", "std", "alloc", "option", "some", "none", "vec", "ok", "x", "n", "t", "e", "k", "root", "code", "rule",
    "union", "macro_rules", "auto", "raw", "na\u{ef}ve", "x\u{df}", "long_name_of_a_nonterminal_that_goes_on_and_on_and_on_and_on", "z", "zz", "q_0",
];
const ALIASES: &[&str] = &[
    "yy", "yyres", "yyp0", "yyp1", "yyp2", "yyruleno", "yyact", "yygoto", "yygotominor", "yymajor", "yyminor", "root", "token", "expected", "_a", "__", "r#type", "r#fn", "r#match", "core", "std", "parser", "u32", "str", "error", "default", "minor", "yystack",
    "yystatus", "state", "stateno", "union", "x", "e", "n", "i", "j", "a0", "a1", "a2", "bool", "drop", "new", "parse", "panic", "unreachable", "na\u{ef}ve", "_A", "_0", "res", "fallback", "look_ahead",
];

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 31;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}
/// another name for each symbol and alias; as stable as possible while the shrinker removes symbols
pub fn renamed(spec: &Spec, seed: u64) -> Spec {
    let mut sp = spec.clone();
    let mut taken: HashSet<String> = HashSet::new();
    // one in four: short names that are prefixes of each other, or others written together
    let words = |c: &str, first: &[char]| {
        let mut v: Vec<String> = first.iter().map(|x| x.to_string()).collect();
        let mut k = 0;
        while v.len() < 60 {
            for x in c.chars() {
                let w = format!("{}{}", v[k], x);
                v.push(w);
            }
            k += 1;
        }
        v.sort_by_key(|a| a.bytes().fold(seed, |h, b| mix(h, b as u64)));
        v
    };
    let tight = seed % 4 == 0;
    let (wt, wn) = (words("AB", &['A', 'B']), words(if seed % 8 == 0 { "ab" } else { "aB_" }, &['a', 'b']));
    let (wt, wn): (Vec<&str>, Vec<&str>) = (wt[..30].iter().map(|x| x.as_str()).collect(), wn[..30].iter().map(|x| x.as_str()).collect());
    let (pt, pn) = if tight { (&wt[..], &wn[..]) } else { (TERMS, NTS) };
    let mut pick = |pool: &[&str], old: &str, q: &str| {
        let h = old.bytes().fold(seed, |h, b| mix(h, b as u64));
        for k in 0..pool.len() {
            let n = pool[(h as usize % pool.len() + k) % pool.len()];
            if taken.insert(n.to_string()) {
                return n.to_string();
            }
        }
        (0..).map(|i| format!("{}{}", q, i)).find(|n| taken.insert(n.clone())).unwrap()
    };
    // names of the members of compounds that read the same when written together
    let mut fixed: Vec<(usize, &str)> = vec![];
    if tight {
        let mut alts: Vec<Vec<usize>> = vec![];
        for i in spec.rules.iter().flat_map(|r| &r.rhs) {
            if let S::Alt(v) = &i.sym {
                if v.len() == 2 && v[0] != v[1] && !alts.contains(v) {
                    alts.push(v.clone());
                }
            }
        }
        let n = alts.len();
        let h = mix(seed, 77) as usize;
        if n >= 2 && h % 3 > 0 {
            let (a, b) = (&alts[h / 3 % n], &alts[(h / 3 + 1) % n]);
            fixed = vec![(a[0], "A"), (a[1], "BC"), (b[0], "AB"), (b[1], "C")];
        } else if n >= 1 {
            let a = &alts[h / 3 % n];
            fixed = vec![(a[0], "A"), (a[1], "B"), (h / 7 % spec.terms.len(), "AB")];
        }
        let d: HashSet<usize> = fixed.iter().map(|f| f.0).collect();
        if d.len() < fixed.len() {
            fixed.clear();
        }
    }
    for f in &fixed {
        pick(&[f.1], "", "");
        sp.terms[f.0].name = f.1.to_string();
    }
    for (i, t) in sp.terms.iter_mut().enumerate() {
        if !fixed.iter().any(|f| f.0 == i) {
            t.name = pick(pt, &t.name, "Tt");
        }
    }
    sp.classes.iter_mut().for_each(|c| c.name = pick(pt, &c.name, "Cc"));
    sp.nts.iter_mut().for_each(|n| n.name = pick(pn, &n.name, "nn"));
    let mut al: Vec<String> = ALIASES.iter().map(|a| a.to_string()).collect();
    al.sort_by_key(|a| a.bytes().fold(seed, |h, b| mix(h, b as u64)));
    if !sp.extra_arg {
        al.insert(0, "extra".into());
    }
    sp.anames = al;
    sp
}
/// the report's names as numbers of terminals
fn unnamed(spec: &Spec, tr: &[Ev]) -> Vec<Ev> {
    let mut v = tr.to_vec();
    for e in &mut v {
        if let Ev::Y { exp, .. } = e {
            for x in exp.iter_mut() {
                x.0 = spec.terms.iter().position(|t| t.name == x.0).map_or(format!("? {}", x.0), |i| format!("#{}", i));
            }
        }
    }
    norm(&v, false)
}

fn variants(job: &Job) -> Vec<Spec> {
    let mut v = vec![job.specs[0].clone()];
    v.extend(job.nums.iter().map(|n| renamed(&job.specs[0], *n)));
    v
}

pub struct C23;
impl Prop for C23 {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on the parsers of one specification and of two copies with all terminals, nonterminals, token classes and aliases renamed (to names of std items, of items and locals of the generated code, of directives, prefixes and case variants of each other, short words over two letters, raw and non-ASCII identifiers); acceptance of the specification must be equal, traces equal up to the names in `expected` (from the first error report on: equal in place and token), and every reported name that of a terminal of that copy. Non-trivial: at least 2 actions ran, or an error was reported with expected tokens. Distinct by (rules, renamings, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 650, thorough: 25000, shard: 12, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut j = super::env::C16.gen(s, idx)?;
        j.nums = (0..2).map(|_| s.u32() as u64).collect();
        let sp = &mut j.specs[0];
        gen::aliases_and_code(s, sp, &gen::Deco { typed: 100, units: 20, aliases: 95, nocode: 10, order: 0 });
        for c in &mut j.cases {
            if s.chance(50) {
                c.plans = vec!["O".into()];
            }
        }
        Some(j)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        variants(job).iter().map(unit).collect()
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        let nv = variants(job).len();
        let looping = {
            let g = Cfg::of(&job.specs[0]);
            !job.specs[0].prec.is_empty() && g.can_loop()
        };
        let mut v = vec![];
        for c in &job.cases {
            for k in 0..nv {
                let mut c = c.clone();
                if looping {
                    c.ops.truncate(1);
                }
                c.g = vec![k];
                v.push(c);
            }
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.rules.is_empty() || !spec.anames.is_empty() {
            return Ok(());
        }
        let vs = variants(job);
        let kind = |s: &St| match s {
            St::Ok => "accepted",
            St::Rejected(_) => "rejected",
            St::Panicked(_) => "panic",
            St::TypeErr(_) => "type error",
            St::Died(_) => "died",
        };
        for k in 1..vs.len() {
            if kind(&obs.units[k]) != kind(&obs.units[0]) {
                return fail(None, format!("the specification is {}, but with other names it is {}: {:?} / {:?}\nrenamed: {}", kind(&obs.units[0]), kind(&obs.units[k]), obs.units[0], obs.units[k], render(&vs[k])));
            }
        }
        t.count(&format!("specifications {}", kind(&obs.units[0])));
        if obs.units[0] != St::Ok {
            t.eval(spec.rules.len() >= 3, &(&spec.rules, &spec.prec, &job.nums));
            return Ok(());
        }
        let nv = vs.len();
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) {
                continue;
            }
            let at = ci * nv;
            let Some(t0) = trace(obs, at) else { continue };
            let n0 = unnamed(spec, &t0);
            for k in 1..nv {
                let Some(tk) = trace(obs, at + k) else { continue };
                let nk = unnamed(&vs[k], &tk);
                if let Err(m) = alike(&n0, &nk) {
                    return fail(ci, format!("renamed: {} on [{}]\nrenamed: {}", m, toks_of(spec, c), render(&vs[k])));
                }
                let bad = nk.iter().find_map(|e| if let Ev::Y { exp, .. } = e { exp.iter().find(|x| x.0.starts_with('?')) } else { None });
                if let Some(b) = bad {
                    return fail(ci, format!("renamed: `expected` names {:?}, which is no token, on [{}]\nrenamed: {}", b.0, toks_of(spec, c), render(&vs[k])));
                }
            }
            let acts = t0.iter().filter(|e| matches!(e, Ev::R { .. })).count();
            let exp = t0.iter().any(|e| matches!(e, Ev::Y { exp, .. } if !exp.is_empty()));
            t.eval(acts >= 2 || exp, &(&spec.rules, &job.nums, &c.ops));
            t.count(if t0.iter().any(|e| matches!(e, Ev::Ret(r) if r.starts_with("acc"))) { "sequences accepted" } else { "sequences not accepted" });
            if acts >= 3 && c.ops.len() < 14 {
                t.sample(|| format!("{} | {} | {} -> {}", render(spec), render(&vs[1]), toks_of(spec, c), show(&n0)));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 8_000), ("specifications rejected", 60), ("sequences accepted", 5_000), ("sequences not accepted", 3_000)]
    }
}
