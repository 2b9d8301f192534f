//! C29: the values a parser holds.
use super::drive::*;
use super::err::*;
use super::*;
use crate::choice::Src;
use crate::gen;
use crate::spec::*;

/// Once a call has failed, how much of its stack the parser keeps is its own affair until it is gone.
fn blur(spec: &Spec, c: &Case, tr: &mut [Ev]) -> bool {
    let mut k = 0;
    let (mut failed, mut gone) = (false, false);
    for e in tr.iter_mut() {
        let Ev::Ret(r) = e else { continue };
        let Some(o) = c.ops.get(k) else { return false };
        k += 1;
        let Some((head, n)) = r.rsplit_once('~') else { return false };
        let (mut head, mut n) = (head.to_string(), n.to_string());
        if head.starts_with("panic:") && head != "panic:RUNAWAY" {
            head = "panic".into();
        }
        failed |= head.starts_with("err");
        gone |= matches!(o.k, 'e' | 'd') || o.k == 'i' && spec.extra_arg;
        if failed && !gone {
            n = "?".into();
        }
        *r = format!("{}~{}", head, n);
    }
    k == c.ops.len()
}

/// a typed token may be shifted as an untyped one: when its payload goes is not specified
fn fades(spec: &Spec) -> bool {
    let untyped = |t: usize| !spec.tty(t).set();
    spec.fallback.iter().any(|(f, v)| untyped(*f) && v.iter().any(|t| !untyped(*t))) || spec.wildcard.map_or(false, |w| untyped(w) && (0..spec.terms.len()).any(|t| !untyped(t)))
}

pub struct C29;
impl Prop for C29 {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "one case = one call history on one parser all of whose payload types count their living values: parse calls mixed with reads of the extra argument, syntax errors with and without recovery, failing actions, stack overflow, fallbacks, optionals, compounds, %extra_token; after every call the number of living values equals that of the payloads on the reference machine's stack (not compared between a failed call and the end of the parser), and 0 once the parser is consumed or dropped. Non-trivial: the parser held at least 2 values at once. Distinct by (rules, types, operations, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1300, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = match s.below(5) {
            0 | 1 => err_grammar(s, idx)?,
            2 => super::tok::fallback_grammar(s, idx)?,
            _ => {
                let p = gen::GenP { sugar: *s.pick(&[0, 15, 30]), ..Default::default() };
                gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?
            }
        };
        if spec.terms.is_empty() {
            return None;
        }
        spec.extra_arg = s.chance(40);
        if spec.fallback.is_empty() && spec.wildcard.is_none() {
            spec.extra_tok = s.chance(20);
        }
        if s.chance(30) {
            spec.stack = Some((s.range(2, 8), *s.pick(&[StackTy::Vec, StackTy::V, StackTy::F])));
        }
        let d = if s.chance(70) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        let set: Vec<bool> = (0..spec.terms.len()).map(|t| spec.tty(t).set()).collect();
        for (f, v) in spec.fallback.iter_mut() {
            v.retain(|t| set[*f] || !set[*t]);
        }
        spec.fallback.retain(|x| !x.1.is_empty());
        if fades(&spec) {
            spec.wildcard = None;
        }
        gen::counted(&mut spec);
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 40) {
            let mut ops = vec![Op::new('n', &[7])];
            for (i, t) in v.iter().enumerate() {
                ops.push(Op::new('t', &[*t as u64, 10 + i as u64, 5000 + i as u64]));
                if s.chance(5) {
                    ops.push(Op::new('x', &[]));
                }
            }
            match s.weighted(&[70, 15, 15]) {
                0 => ops.push(Op::new('e', &[])),
                1 => ops.push(Op::new('i', &[])),
                _ => {}
            }
            ops.push(Op::new('d', &[]));
            let p = match s.weighted(&[50, 15, 15, 20]) {
                0 => "O,l".to_string(),
                1 => "l".into(),
                2 => format!("s{},l", s.below(3)),
                _ => format!("a{},O,l", s.below(6)),
            };
            cases.push(Case { g: vec![0], plans: vec![p], ops });
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.prec.is_empty() || fades(spec) {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        for (ci, c) in job.cases.iter().enumerate() {
            if !well_formed(c, 1) || !c.plans[0].split(',').any(|f| f == "l") {
                continue;
            }
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on {}", d, c.line(0)));
            }
            let Some(mut tr) = traces(obs, ci) else { continue };
            if !blur(spec, c, &mut tr[0]) {
                return fail(ci, format!("no count after every operation: {}", show(&tr[0])));
            }
            match agree(&ms, c, &tr, false) {
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} on {} [{}] (after ~: living values)", m, c.line(0), toks_of(spec, c))),
                Agree::Yes(i) => {
                    let rets: Vec<&str> = tr[0].iter().filter_map(|e| if let Ev::Ret(r) = e { Some(r.as_str()) } else { None }).collect();
                    let n = |r: &str| r.rsplit_once('~').and_then(|x| x.1.parse::<usize>().ok()).unwrap_or(0);
                    let most = rets.iter().map(|r| n(r)).max().unwrap_or(0);
                    t.add("calls after which the count was compared", rets.iter().filter(|r| !r.ends_with('?')).count() as u64);
                    if most >= 5 {
                        t.count("at least 5 values held");
                    }
                    if i[0].recoveries > 0 && most > 0 {
                        t.count("error recovery while holding values");
                    }
                    if rets.iter().any(|r| r.starts_with("err")) && most > 0 {
                        t.count("a call failed while holding values");
                    }
                    if rets.iter().any(|r| r.starts_with("ieSome")) && most > 0 {
                        t.count("into_extra while holding values");
                    }
                    if !tr[0].iter().any(|e| matches!(e, Ev::Ret(r) if r.starts_with("err") || r.starts_with("acc"))) && most > 0 {
                        t.count("abandoned while holding values");
                    }
                    if tr[0].iter().any(|e| matches!(e, Ev::O { .. })) && most > 0 {
                        t.count("stack overflow while holding values");
                    }
                    t.eval(most >= 2, &(&spec.rules, &spec.terms, &c.ops, &c.plans));
                    if most >= 3 && c.ops.len() > 5 && c.ops.len() < 14 {
                        t.sample(|| format!("{} | {} -> {}", render(spec), c.line(0), show(&tr[0])));
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 20_000), ("error recovery while holding values", 4_000), ("a call failed while holding values", 10_000), ("into_extra while holding values", 1_000), ("stack overflow while holding values", 1_500), ("abandoned while holding values", 3_000)]
    }
}
