//! C01 language, C02 actions and values, C05 error detection: against the Earley oracle.
use super::*;
use crate::choice::Src;
use crate::earley::*;
use crate::gen;

fn grammar(s: &mut Src, idx: u64, deco: gen::Deco) -> Option<Spec> {
    let want = gen::WANTS[(idx % 5) as usize];
    let p = gen::GenP { sugar: if s.chance(25) { 15 } else { 0 }, ..Default::default() };
    let mut spec = gen::lalr_grammar(s, &p, want)?;
    gen::decorate(s, &mut spec, &deco);
    if s.chance(20) {
        gen::shapes(s, &mut spec);
    }
    if s.chance(20) {
        gen::shared(s, &mut spec);
    }
    Some(spec)
}
/// sentences and near-sentences
pub fn strings(s: &mut Src, g: &Cfg, n: usize) -> Vec<Vec<usize>> {
    let mut v = Vec::new();
    for k in 0..n {
        let b = *s.pick(&[4, 8, 15, 30, 60]);
        let x = g.sentence(s, b);
        if x.len() > 400 {
            continue;
        }
        if k % 2 == 0 {
            v.push(x);
        } else {
            let mut y = x;
            for _ in 0..s.range(1, 2) {
                y = gen::mutate(s, &y, g.nt);
            }
            v.push(y);
        }
    }
    v
}

pub struct C01;
impl Prop for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence fed to one generated parser: all viable prefixes up to a node budget with and without a non-viable continuation, plus random sentences and mutated sentences. Non-trivial: at least 2 tokens and at least 2 leading tokens viable (Earley). Distinct by (specification, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 2400, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let d = gen::Deco { nocode: 40, ..gen::Deco::mixed(s) };
        let mut spec = grammar(s, idx, d)?;
        spec.handlers = s.chance(60);
        let g = Cfg::of(&spec);
        let mut cases = Vec::new();
        let trie = gen::viable_trie(&g, s, 45, 9);
        for n in &trie {
            cases.push(Case::toks(0, &n.toks, true, ""));
            if s.chance(60) {
                let bad: Vec<usize> = (0..g.nt).filter(|t| !n.next.contains(t)).collect();
                for t in bad.iter().take(3) {
                    let mut v = n.toks.clone();
                    v.push(*t);
                    // complete it as if the bad token had not been there
                    if n.accepts && s.chance(50) {
                        cases.push(Case::toks(0, &v, true, ""));
                        continue;
                    }
                    for _ in 0..s.below(3) {
                        v.push(s.below(g.nt));
                    }
                    cases.push(Case::toks(0, &v, true, ""));
                }
            }
        }
        for v in strings(s, &g, 24) {
            cases.push(Case::toks(0, &v, true, ""));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let Some((g, l)) = plain_spec(spec) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) {
                continue;
            }
            let toks = c.tokens();
            let mut e = Earley::new(&g);
            let mut viable = 0;
            for x in &toks {
                if !e.push(*x) {
                    break;
                }
                viable += 1;
            }
            let want = viable == toks.len() && e.accepts();
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on: {}", d, toks_str(spec, &toks)));
            }
            let Some(tr) = trace(obs, ci) else { continue };
            let cs = calls(&tr);
            let got = cs.len() == toks.len() + 2 && cs[1..].iter().take(toks.len()).all(|c| c.ret == "ok") && cs.last().unwrap().ret.starts_with("acc");
            t.eval(toks.len() >= 2 && viable >= 2, &(&spec.rules, &toks));
            t.count(if want { "sentences" } else if viable == toks.len() { "incomplete sentences" } else { "sequences with a bad token" });
            if want && toks.len() >= 4 {
                t.sample(|| format!("{} | {} -> accepted", spec.macro_input().replace('\n', " "), toks_str(spec, &toks)));
            }
            if want != got {
                return fail(
                    ci,
                    format!("the grammar {} the sequence [{}] but the generated parser {} it", if want { "derives" } else { "does not derive" }, toks_str(spec, &toks), if got { "accepts" } else { "rejects" }),
                );
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 50_000), ("sentences", 10_000), ("sequences with a bad token", 10_000)]
    }
}

/// Bottom-up evaluation of a derivation tree: the expected action events with the latest call (index
/// of the token call, n = end of input) each may run in, and the value.
pub fn eval_tree(spec: &Spec, g: &Cfg, t: &Tree, toks: &[(usize, u64, u64)], out: &mut Vec<(Ev, usize)>) -> Val {
    let vals: Vec<Val> = t
        .kids
        .iter()
        .map(|k| match k {
            Kid::T(i) => {
                let (t, v, x) = toks[*i];
                spec.tty(t).val(v, x)
            }
            Kid::N(n) => eval_tree(spec, g, n, toks, out),
        })
        .collect();
    match g.rules[t.rule].origin {
        Origin::OptNone => Val::N,
        Origin::OptSome => Val::S(Box::new(vals.into_iter().next().unwrap())),
        Origin::Rule(i) => {
            let r = &spec.rules[i];
            match &r.code {
                Code::None if !spec.nty(r.lhs).set() => Val::U,
                Code::None => {
                    let k = r.rhs.iter().position(|it| spec.item_ty(it).set()).expect("forward");
                    vals[k].clone()
                }
                Code::Fwd(k) => vals[*k].clone(),
                Code::NoneV => Val::N,
                Code::SomeOf(k) => Val::S(Box::new(vals[*k].clone())),
                Code::Act => {
                    let args = r.rhs.iter().zip(&vals).filter(|(it, _)| matches!(it.alias, Alias::Id | Alias::Mut | Alias::Pat)).map(|(_, v)| v.to_string()).collect();
                    let n = 1000 + out.len() as u64;
                    out.push((Ev::R { id: r.id, args, ext: None, out: Ok(n) }, t.to));
                    spec.nty(r.lhs).val(n, n)
                }
            }
        }
    }
}
/// Compares an accepted run with the derivation tree.
pub fn check_accepted(spec: &Spec, g: &Cfg, c: &Case, tree: &Tree, tr: &[Ev]) -> Result<usize, String> {
    let toks = token_args(c);
    let mut want = Vec::new();
    let v = eval_tree(spec, g, tree, &toks, &mut want);
    let cs = calls(tr);
    if cs.len() != toks.len() + 2 {
        return Err(format!("{} operations returned, {} were made: {}", cs.len(), toks.len() + 2, show(tr)));
    }
    let mut k = 0;
    for (ci, c) in cs.iter().enumerate().skip(1) {
        let call = ci - 1; // token index, toks.len() = end of input
        for e in &c.evs {
            let Some((w, to)) = want.get(k) else {
                return Err(format!("unexpected extra event {} in call {}", e, call));
            };
            if !matches!(e, Ev::R { .. }) || e != w {
                return Err(format!("event #{}: expected {}, got {}", k, w, e));
            }
            if call > *to {
                return Err(format!("action {} ran in call {}, later than the call {} that delivered the next token", e, call, to));
            }
            if call + 1 < *to {
                return Err(format!("action {} ran in call {}, before its last token", e, call));
            }
            k += 1;
        }
        let wr = if call < toks.len() { "ok".to_string() } else { format!("acc{}", v) };
        if c.ret != wr {
            return Err(format!("call {} returned {}, expected {}", call, c.ret, wr));
        }
    }
    if k != want.len() {
        return Err(format!("action {} never ran", want[k].0));
    }
    Ok(k)
}

pub struct C02;
impl Prop for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "one case = one sentence (enumerated or random, distinct payload per token) fed to one generated parser with logging actions; the expected action sequence, bound values, latest call of each action and result come from the sentence's unique derivation tree (Earley chart). Non-trivial: at least 3 actions run. Distinct by (specification, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 2400, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        let spec = grammar(s, idx, d)?;
        let g = Cfg::of(&spec);
        let mut cases = Vec::new();
        for n in gen::viable_trie(&g, s, 60, 9) {
            if n.accepts {
                cases.push(Case::toks(0, &n.toks, true, ""));
            }
        }
        for _ in 0..25 {
            let b = *s.pick(&[4, 8, 15, 30]);
            let v = g.sentence(s, b);
            if v.len() <= 60 {
                cases.push(Case::toks(0, &v, true, ""));
            }
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let Some((g, l)) = plain_spec(spec) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) {
                continue;
            }
            let toks = c.tokens();
            let mut e = Earley::new(&g);
            if !toks.iter().all(|x| e.push(*x)) || !e.accepts() {
                continue;
            }
            let Some(Ok(tree)) = e.tree() else {
                t.count("skipped: derivation tree not unique");
                continue;
            };
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on: {}", d, toks_str(spec, &toks)));
            }
            let Some(tr) = trace(obs, ci) else { continue };
            match check_accepted(spec, &g, c, &tree, &tr) {
                Err(m) => return fail(ci, format!("{} on [{}]", m, toks_str(spec, &toks))),
                Ok(k) => {
                    t.eval(k >= 3, &(&spec.rules, &toks));
                    t.add("actions checked", k as u64);
                    if k >= 10 {
                        t.count("cases with >= 10 actions");
                    }
                    if k >= 4 && k <= 8 {
                        t.sample(|| format!("{} | {} -> {}", spec.macro_input().replace('\n', " "), toks_str(spec, &toks), show(&tr)));
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 15_000), ("actions checked", 100_000)]
    }
}

pub struct C05;
impl Prop for C05 {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on one generated parser with logging error code that returns Err: every viable prefix (within a node budget) continued by every non-viable token, every prefix ended early, mutated random sentences. Non-trivial: a viable prefix of at least 1 token followed by an error (bad token or early end). Distinct by (specification, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 2200, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let d = gen::Deco::mixed(s);
        let spec = grammar(s, idx, d)?;
        let g = Cfg::of(&spec);
        let mut cases = Vec::new();
        for n in gen::viable_trie(&g, s, 40, 8) {
            for t in 0..g.nt {
                if !n.next.contains(&t) {
                    let mut v = n.toks.clone();
                    v.push(t);
                    cases.push(Case::toks(0, &v, false, ""));
                }
            }
            cases.push(Case::toks(0, &n.toks, true, ""));
        }
        for v in strings(s, &g, 20) {
            cases.push(Case::toks(0, &v, true, ""));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let Some((g, l)) = plain_spec(spec) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        if !spec.handlers {
            return Ok(());
        }
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || c.plans != [""] {
                continue;
            }
            let args = token_args(c);
            let toks = c.tokens();
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on: {}", d, toks_str(spec, &toks)));
            }
            let Some(tr) = trace(obs, ci) else { continue };
            let cs = calls(&tr);
            let mut e = Earley::new(&g);
            let mut err = None;
            for (i, a) in args.iter().enumerate() {
                let viable = e.push(a.0);
                let Some(call) = cs.get(i + 1) else {
                    return fail(ci, format!("operation {} missing: {}", i, show(&tr)));
                };
                let ys: Vec<&Ev> = call.evs.iter().filter(|e| !matches!(e, Ev::R { .. })).collect();
                if viable {
                    if call.ret != "ok" || !ys.is_empty() {
                        return fail(ci, format!("[{}] is a viable prefix but token #{} gave {} in {}", toks_str(spec, &toks[..=i]), i, call.ret, show(&tr)));
                    }
                } else {
                    err = Some(i);
                    let tok = format!("{}:{}", a.0, spec.tty(a.0).val(a.1, a.2));
                    let ok = call.ret == "err300000"
                        && ys.len() == 1
                        && matches!(call.evs.last(), Some(Ev::Y { tok: Some(t), out: Err(300_000), .. }) if *t == tok);
                    if !ok {
                        return fail(ci, format!("token #{} ({}) of [{}] is not a viable continuation; expected one syntax error for it in that call, got {} -> {}", i, tok, toks_str(spec, &toks), call.evs.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" "), call.ret));
                    }
                    break;
                }
            }
            let mut early = false;
            if err.is_none() && ends(c) {
                let Some(call) = cs.get(args.len() + 1) else {
                    return fail(ci, format!("end_of_input result missing: {}", show(&tr)));
                };
                let ys: Vec<&Ev> = call.evs.iter().filter(|e| !matches!(e, Ev::R { .. })).collect();
                if e.accepts() {
                    if !call.ret.starts_with("acc") || !ys.is_empty() {
                        return fail(ci, format!("[{}] is a sentence but end_of_input gave {}", toks_str(spec, &toks), call.ret));
                    }
                } else {
                    early = true;
                    if call.ret != "err400000" || !matches!(ys[..], [Ev::F { .. }]) || !matches!(call.evs.last(), Some(Ev::F { .. })) {
                        return fail(ci, format!("[{}] ends too early; expected the parse-fail code in end_of_input, got {} -> {}", toks_str(spec, &toks), call.evs.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" "), call.ret));
                    }
                }
            }
            t.eval((err.map_or(false, |i| i >= 1)) || (early && !toks.is_empty()), &(&spec.rules, &toks));
            t.count(if err.is_some() { "bad token" } else if early { "early end" } else { "no error" });
            if err.map_or(false, |i| i >= 3) {
                t.sample(|| format!("{} | {} -> {}", spec.macro_input().replace('\n', " "), toks_str(spec, &toks), show(&tr)));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 50_000), ("early end", 5_000)]
    }
}
