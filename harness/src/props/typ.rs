//! C13 symbol types.
use super::env::judge_machine;
use super::err::{err_grammar, noisy, plain_grammar};
use super::*;
use crate::choice::Src;
use crate::gen;

fn rich(s: &mut Src, k: u32) -> Ty {
    match s.below(8) {
        0 | 1 => Ty::W(k),
        2 => Ty::Opt(Box::new(Ty::W(k))),
        3 => Ty::Pair(Box::new(Ty::W(k))),
        4 => Ty::X,
        5 => Ty::Opt(Box::new(Ty::Unit)),
        6 => Ty::Opt(Box::new(Ty::Opt(Box::new(Ty::W(k))))),
        _ => Ty::Unit,
    }
}
/// types with structure instead of the plain ones; equal types stay equal
fn enrich(s: &mut Src, spec: &mut Spec) {
    let m: Vec<Ty> = (0..4).map(|k| rich(s, k)).collect();
    let f = |t: &mut Ty| {
        if let Ty::W(k) = t {
            *t = m[*k as usize % 4].clone();
        }
    };
    spec.terms.iter_mut().for_each(|t| f(&mut t.ty));
    spec.nts.iter_mut().for_each(|t| f(&mut t.ty));
    f(&mut spec.err_ty);
    if let Some(t) = &mut spec.default_ty {
        f(t);
    }
}
/// `{ a }` instead of code that builds a value
fn forwards(s: &mut Src, spec: &mut Spec) {
    for ri in 0..spec.rules.len() {
        if !s.chance(25) || spec.rules[ri].code != Code::Act {
            continue;
        }
        let mut r = spec.rules[ri].clone();
        let lt = spec.nty(r.lhs);
        if !lt.set() {
            continue;
        }
        let same: Vec<usize> = (0..r.rhs.len()).filter(|k| gen::can_alias(spec, &r.rhs[*k]) && spec.item_ty(&r.rhs[*k]) == lt).collect();
        let wrap: Vec<usize> = (0..r.rhs.len()).filter(|k| gen::can_alias(spec, &r.rhs[*k]) && lt == Ty::Opt(Box::new(spec.item_ty(&r.rhs[*k])))).collect();
        if !same.is_empty() && s.chance(60) {
            let k = *s.pick(&same);
            r.rhs[k].alias = Alias::Id;
            r.code = Code::Fwd(k);
        } else if !wrap.is_empty() && s.chance(70) {
            let k = *s.pick(&wrap);
            r.rhs[k].alias = Alias::Id;
            r.code = Code::SomeOf(k);
        } else if matches!(lt, Ty::Opt(_)) {
            r.code = Code::NoneV;
        }
        spec.rules[ri] = r;
    }
}

pub struct C13;
impl Prop for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "one specification = random typing (declared, default incl. (), untyped; plain, Option, nested Option, tuple and unit types; many or few equal types) of a grammar with compounds, optionals, fallbacks, a wildcard or `error`, with and without code; it must expand to code that compiles although the driver pins the type of every Token payload, of every error-report token and of the result. One case = one token sequence on it, all bound and returned values compared with the reference machine. Part of the specifications have a typed rule without code that has no or several typed symbols, and must be rejected. Non-trivial: rejection as required, or at least one typed value reaches an action or the caller. Distinct by (rules, types, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 50000, shard: 30, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let kind = s.weighted(&[25, 15, 40, 10, 10]);
        let mut spec = match kind {
            0 => plain_grammar(s, idx)?,
            1 => err_grammar(s, idx)?,
            3 => super::tok::fallback_grammar(s, idx)?,
            _ => {
                let p = gen::GenP { sugar: *s.pick(&[15, 30, 45]), ..Default::default() };
                gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?
            }
        };
        if kind == 4 && !spec.terms.is_empty() {
            let w = s.below(spec.terms.len());
            if !spec.rules.iter().any(|r| r.rhs.iter().any(|i| (i.opt || !matches!(i.sym, S::T(_))) && spec.members(&i.sym).contains(&w))) {
                spec.wildcard = Some(w);
            }
        }
        // terminals no rule uses
        for _ in 0..s.weighted(&[70, 20, 10]) {
            let n = format!("Unused{}", spec.terms.len());
            spec.terms.push(Sym { name: n, ty: Ty::Unset });
        }
        match s.weighted(&[45, 15, 25, 15]) {
            1 => spec.default_ty = Some(Ty::Unit),
            2 => spec.default_ty = Some(Ty::W(s.below(3) as u32)),
            3 if spec.wildcard.is_none() => spec.extra_tok = true,
            _ => {}
        }
        spec.extra_arg = s.chance(15);
        spec.handlers = s.chance(90);
        let d = gen::Deco { typed: *s.pick(&[100, 70, 40, 15]), units: *s.pick(&[0, 10, 40, 80]), aliases: *s.pick(&[100, 60, 30]), nocode: *s.pick(&[0, 30, 70]), order: 30 };
        gen::decorate(s, &mut spec, &d);
        if s.chance(70) {
            enrich(s, &mut spec);
            gen::aliases_and_code(s, &mut spec, &d);
        }
        forwards(s, &mut spec);
        if s.chance(40) {
            gen::shapes(s, &mut spec);
        }
        if s.chance(25) {
            gen::shared(s, &mut spec);
        }
        if idx % 8 == 5 {
            if let Some(sp) = unforwardable(s, &spec) {
                return Some(Job::of("none", sp, vec![]));
            }
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 14) {
            cases.push(Case::toks(0, &v, true, *s.pick(&["O", "O", "", "s1"])));
        }
        for _ in 0..10 {
            let b = *s.pick(&[4, 8, 15, 30]);
            let v = g.sentence_noise(s, b, 2);
            if v.len() <= 60 {
                cases.push(Case::toks(0, &v, true, "O"));
            }
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        if job.kind == "none" {
            return vec![Unit { src: format!("pomelo::pomelo! {{\n{}\n}}", job.specs[0].macro_input()), mode: Mode::Expand }];
        }
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if job.kind == "none" {
            let Some(n) = spec.rules.iter().find_map(|r| nothing_to_forward(spec, r)) else { return Ok(()) };
            t.eval(true, spec);
            t.count(if n == 0 { "rules with no typed symbol to forward" } else { "rules with several typed symbols to forward" });
            return match &obs.units[0] {
                St::Rejected(_) => Ok(()),
                x => fail(None, format!("expected a compile error for the rule without code and with {} typed symbols, got {:?}", n, x)),
            };
        }
        if !in_domain(spec) {
            return Ok(());
        }
        for r in &spec.rules {
            if r.code == Code::None && spec.nty(r.lhs).set() {
                t.count(if spec.nts[r.lhs].ty.set() { "rules forwarding to a declared type" } else { "rules forwarding to the default type" });
            }
        }
        if spec.nty(spec.start_nt()) == Ty::Unset && (0..spec.terms.len()).any(|i| spec.tty(i) == Ty::Unit) {
            t.count("untyped start symbol beside () symbols");
        }
        if spec.default_ty.is_some() {
            t.count("specifications with a default type");
        }
        judge_machine(job, obs, t, &|tr, _, t| {
            let args = tr.iter().filter(|e| matches!(e, Ev::R { args, .. } if args.iter().any(|a| a != "u"))).count();
            let res = tr.iter().any(|e| matches!(e, Ev::Ret(r) if r.starts_with("acc") && !r.starts_with("accu")));
            t.add("actions given typed values", args as u64);
            if res {
                t.count("typed results");
            }
            args > 0 || res
        })
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 10_000), ("rules forwarding to a declared type", 300), ("rules forwarding to the default type", 100), ("specifications with a default type", 300), ("untyped start symbol beside () symbols", 30), ("rules with several typed symbols to forward", 30), ("rules with no typed symbol to forward", 10)]
    }
}
/// For a typed rule without code that does not have exactly one typed symbol: how many it has.
fn nothing_to_forward(spec: &Spec, r: &Rule) -> Option<usize> {
    if r.code != Code::None || !spec.nty(r.lhs).set() || !r.rhs.iter().all(|i| gen::can_alias(spec, i)) {
        return None;
    }
    // a default type of () needs no code
    if !spec.nts[r.lhs].ty.set() && spec.default_ty == Some(Ty::Unit) {
        return None;
    }
    let n = r.rhs.iter().filter(|i| spec.item_ty(i).set()).count();
    Some(n).filter(|n| *n != 1)
}
/// the same with one such rule
fn unforwardable(s: &mut Src, spec: &Spec) -> Option<Spec> {
    let mut sp = spec.clone();
    let mut v: Vec<(usize, Rule)> = vec![];
    for (i, r) in sp.rules.iter().enumerate() {
        let mut r = r.clone();
        r.code = Code::None;
        if s.chance(85) {
            r.rhs.iter_mut().for_each(|i| i.alias = Alias::No);
        }
        if let Some(n) = nothing_to_forward(&sp, &r) {
            for _ in 0..1 + 3 * (n > 1) as usize {
                v.push((i, r.clone()));
            }
        }
    }
    if v.is_empty() {
        return None;
    }
    let (i, r) = s.pick(&v).clone();
    sp.rules[i] = r;
    Some(sp)
}
/// typing rules the documentation gives (the shrinker may leave them)
pub fn in_domain(spec: &Spec) -> bool {
    if spec.rules.is_empty() || !gen::typable(spec) || (spec.extra_tok && (spec.wildcard.is_some() || spec.default_ty.is_some())) {
        return false;
    }
    spec.rules.iter().all(|r| {
        let lt = spec.nty(r.lhs);
        let al = r.rhs.iter().all(|i| i.alias == Alias::No || gen::can_alias(spec, i));
        let has = |k: &usize| r.rhs.get(*k).map_or(false, |i| i.alias == Alias::Id);
        al && match &r.code {
            Code::Act => true,
            Code::None if lt.set() => {
                let ty: Vec<Ty> = r.rhs.iter().map(|i| spec.item_ty(i)).filter(|t| t.set()).collect();
                r.rhs.iter().all(|i| i.alias == Alias::No && (!matches!(i.sym, S::Alt(_) | S::Class(_)) || gen::can_alias(spec, i))) && ty == [lt]
            }
            Code::None => true,
            Code::Fwd(k) => has(k) && spec.item_ty(&r.rhs[*k]) == lt,
            Code::SomeOf(k) => has(k) && Ty::Opt(Box::new(spec.item_ty(&r.rhs[*k]))) == lt,
            Code::NoneV => matches!(lt, Ty::Opt(_)),
        }
    })
}
