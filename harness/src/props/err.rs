//! C06 recovery, C07 dropped tokens, C08 expected tokens, C14 errors and use after failure.
use super::drive::*;
use super::lang::check_accepted;
use super::*;
use crate::choice::Src;
use crate::earley::*;
use crate::gen;

pub fn err_grammar(s: &mut Src, idx: u64) -> Option<Spec> {
    for _ in 0..12 {
        let p = gen::GenP { max_t: 5, max_n: 4, sugar: if s.chance(15) { 12 } else { 0 }, error: *s.pick(&[8, 15, 25]) };
        let want = *s.pick(&[gen::Want::Any, gen::Want::Any, gen::Want::Template, gen::Want::Nullable, gen::Want::Big]);
        let _ = idx;
        let Some(sp) = gen::lalr_grammar(s, &p, want) else { continue };
        if sp.uses_error() {
            return Some(sp);
        }
    }
    None
}
pub fn plain_grammar(s: &mut Src, idx: u64) -> Option<Spec> {
    let p = gen::GenP { sugar: if s.chance(15) { 12 } else { 0 }, ..Default::default() };
    gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])
}
/// sentences with `k` noisy places
pub fn noisy(s: &mut Src, g: &Cfg, n: usize) -> Vec<Vec<usize>> {
    let mut out = vec![];
    for _ in 0..n {
        let b = *s.pick(&[4, 8, 15, 30]);
        let mut v = g.sentence_noise(s, b, 3);
        if v.len() > 120 {
            continue;
        }
        let k = s.weighted(&[15, 35, 25, 15, 10]);
        for _ in 0..k {
            if g.nt == 0 {
                break;
            }
            match s.below(4) {
                0 | 1 => {
                    for _ in 0..s.range(1, 3) {
                        let p = s.below(v.len() + 1);
                        v.insert(p, s.below(g.nt));
                    }
                }
                2 => {
                    // burst at one place
                    let p = s.below(v.len() + 1);
                    for _ in 0..s.range(1, 4) {
                        v.insert(p, s.below(g.nt));
                    }
                }
                _ => v = gen::mutate(s, &v, g.nt),
            }
        }
        if s.chance(10) {
            v.truncate(s.below(v.len() + 1));
        }
        out.push(v);
    }
    out
}
fn plan(s: &mut Src) -> String {
    match s.weighted(&[70, 20, 10]) {
        0 => "O".into(),
        1 => format!("s{}", s.below(3)),
        _ => "".into(),
    }
}
/// the model's own view of how much the recovery machinery worked
fn err_counts(t: &mut Tally, i: &Inst) {
    t.count(match i.errs.len() {
        0 => "cases without error",
        1 => "cases with 1 error",
        2 => "cases with 2 errors",
        _ => "cases with >=3 errors",
    });
}

pub struct C06;
impl Prop for C06 {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence (sentences with `error` replaced by random tokens, and up to a dozen insertions, bursts, edits and truncations) on one parser whose grammar uses `error`, the syntax-error code returning Ok, Err or Ok except once; every action, value, error call and result is compared with the reference recovery machine. Non-trivial: at least one recovery took place, or an error was not recoverable with at least 2 symbols stacked. Distinct by (rules, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = err_grammar(s, idx)?;
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        spec.extra_arg = s.chance(15);
        gen::decorate(s, &mut spec, &d);
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 60) {
            cases.push(Case::toks(0, &v, true, &plan(s)));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.uses_error() || !spec.prec.is_empty() || !spec.handlers {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        for (ci, c) in job.cases.iter().enumerate() {
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on [{}]", d, toks_of(spec, c)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            match agree(&ms, c, &tr, false) {
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} on [{}]", m, toks_of(spec, c))),
                Agree::Yes(i) => {
                    let i = &i[0];
                    let deep = i.errs.iter().any(|e| e.0.len() >= 3);
                    t.eval(i.recoveries > 0 || deep, &(&spec.rules, &c.ops, &c.plans));
                    err_counts(t, i);
                    t.add("recoveries", i.recoveries as u64);
                    if i.recoveries > 0 && !i.is_failed() {
                        t.count("accepted after recovery");
                        if c.ops.len() > 6 {
                            t.sample(|| format!("{} | {} -> {}", render(spec), toks_of(spec, c), show(&norm(&tr[0], false))));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 15_000), ("accepted after recovery", 2_000)]
    }
}

pub struct C07;
impl Prop for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence (sentences with inserted single tokens and bursts, edits, truncations) on one parser without `error`, the syntax-error code returning Ok, Err or Ok except once; compared with the reference drop-and-throttle machine, and when the parse completes also with the derivation tree (Earley) of the tokens not dropped. Non-trivial: at least one token was dropped. Distinct by (rules, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = plain_grammar(s, idx)?;
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 40) {
            cases.push(Case::toks(0, &v, true, &plan(s)));
        }
        // sentences with bad tokens at chosen distances
        for _ in 0..25 {
            let v = g.sentence(s, 30);
            if v.len() > 100 || g.nt == 0 {
                continue;
            }
            let gap = s.range(0, 4);
            let mut w = vec![];
            let mut left = s.below(3);
            let mut e = Earley::new(&g);
            for t in v {
                if left == 0 {
                    let n = e.next();
                    let bad: Vec<usize> = (0..g.nt).filter(|x| !n.contains(x)).collect();
                    if !bad.is_empty() {
                        for _ in 0..s.weighted(&[80, 15, 5]) + 1 {
                            w.push(*s.pick(&bad));
                        }
                    }
                    left = if s.chance(70) { gap } else { s.range(0, 5) };
                } else {
                    left -= 1;
                }
                if !e.push(t) {
                    break;
                }
                w.push(t);
            }
            cases.push(Case::toks(0, &w, true, &plan(s)));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.uses_error() || !spec.handlers {
            return Ok(());
        }
        let Some((g, l)) = plain_spec(spec) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        let g = &ms[0].g;
        for (ci, c) in job.cases.iter().enumerate() {
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on [{}]", d, toks_of(spec, c)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            let i = match agree(&ms, c, &tr, false) {
                Agree::Skip(w) => {
                    t.count(&format!("skipped: {}", w));
                    continue;
                }
                Agree::No(m) => return fail(ci, format!("{} on [{}]", m, toks_of(spec, c))),
                Agree::Yes(mut i) => i.remove(0),
            };
            let y = tr[0].iter().filter(|e| matches!(e, Ev::Y { .. })).count();
            t.eval(!i.dropped.is_empty(), &(&spec.rules, &c.ops, &c.plans));
            err_counts(t, &i);
            if i.errs.len() > y && !i.dropped.is_empty() {
                t.count("cases with a throttled report");
            }
            if i.is_failed() || !simple_shape(c) || !ends(c) {
                continue;
            }
            // completed: the same as for the filtered input
            if i.dropped.is_empty() {
                continue;
            }
            t.count("completed after dropping tokens");
            let kept: Vec<usize> = (0..c.tokens().len()).filter(|k| !i.dropped.contains(k)).collect();
            let mut f = c.clone();
            let mut k = 0;
            f.ops.retain(|o| {
                if o.k != 't' {
                    return true;
                }
                k += 1;
                kept.contains(&(k - 1))
            });
            let mut e = Earley::new(g);
            if !f.tokens().iter().all(|x| e.push(*x)) || !e.accepts() {
                return fail(ci, format!("completed with Ok, but the tokens not dropped [{}] are not a sentence; input [{}]", toks_of(spec, &f), toks_of(spec, c)));
            }
            let Some(Ok(tree)) = e.tree() else { continue };
            // trace without the calls of dropped tokens, actions of those calls moved to the next
            let mut ft: Vec<Ev> = vec![];
            let mut call = 0usize;
            for ev in &tr[0] {
                match ev {
                    Ev::Ret(_) => {
                        if call >= 1 && i.dropped.contains(&(call - 1)) {
                            call += 1;
                            continue;
                        }
                        call += 1;
                        ft.push(ev.clone());
                    }
                    Ev::Y { .. } => {}
                    ev => ft.push(ev.clone()),
                }
            }
            if let Err(m) = check_accepted(spec, g, &f, &tree, &ft) {
                return fail(ci, format!("not as for the filtered input: {} on [{}] filtered [{}]", m, toks_of(spec, c), toks_of(spec, &f)));
            }
            if i.dropped.len() >= 2 && f.ops.len() >= 5 {
                t.sample(|| format!("{} | {} -> {}", render(spec), toks_of(spec, c), show(&norm(&tr[0], false))));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 20_000), ("completed after dropping tokens", 5_000), ("cases with a throttled report", 5_000)]
    }
}

pub struct C08;
impl Prop for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence with syntax errors on one parser (with and without `error`, fallbacks, %nonassoc); at every call of the syntax-error code the list must be duplicate-free, use declared names, give `token` exactly for data-less variants, contain every terminal the reference machine would really shift from the same stack and only terminals its table does not reject. Non-trivial: the list is checked at least once with at least one and not all terminals in it. Distinct by (rules, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let kind = s.weighted(&[45, 25, 15, 15]);
        let mut spec = match kind {
            0 => plain_grammar(s, idx)?,
            1 => err_grammar(s, idx)?,
            2 => super::tok::fallback_grammar(s, idx)?,
            _ => {
                let mut r = None;
                let p = gen::GenP { max_t: 5, max_n: 3, ..Default::default() };
                for _ in 0..60 {
                    let Some(mut sp) = gen::random_cfg(s, &p) else { continue };
                    gen::precedences(s, &mut sp);
                    if let Some((_, l)) = determined(&sp, 300) {
                        if !l.conflicts.is_empty() && l.kernels.len() >= 5 {
                            r = Some(sp);
                            break;
                        }
                    }
                }
                r?
            }
        };
        let mut d = gen::Deco::mixed(s);
        d.typed = *s.pick(&[100, 70, 40, 0]);
        gen::decorate(s, &mut spec, &d);
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        if spec.prec.is_empty() && !spec.uses_error() && spec.fallback.is_empty() {
            for n in gen::viable_trie(&g, s, 30, 7) {
                let bad: Vec<usize> = (0..g.nt).filter(|t| !n.next.contains(t)).collect();
                if !bad.is_empty() {
                    let mut v = n.toks.clone();
                    v.push(*s.pick(&bad));
                    cases.push(Case::toks(0, &v, false, ""));
                }
            }
        }
        for v in noisy(s, &g, 30) {
            cases.push(Case::toks(0, &v, true, "O"));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.handlers || spec.wildcard.is_some() {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        let m = &ms[0];
        let index: std::collections::HashMap<&str, usize> = spec.terms.iter().enumerate().map(|(i, t)| (t.name.as_str(), i)).collect();
        for (ci, c) in job.cases.iter().enumerate() {
            if c.g.len() != 1 || !well_formed(c, 1) {
                continue;
            }
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on [{}]", d, toks_of(spec, c)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            let got = norm(&tr[0], false);
            let mut runs = vec![];
            let mut runaway = false;
            let mut tie = false;
            for pol in [Defaults::Lemon, Defaults::None] {
                let i = run(&ms, c, pol).remove(0);
                runaway |= i.runaway;
                tie |= i.tie_used;
                if !tie && norm(&i.log, false) == got {
                    runs.push(i);
                }
            }
            let ys: Vec<&Vec<(String, Option<String>)>> = tr[0].iter().filter_map(|e| if let Ev::Y { exp, .. } = e { Some(exp) } else { None }).collect();
            let mut good = false;
            for (k, exp) in ys.iter().enumerate() {
                let mut set = std::collections::BTreeSet::new();
                for (name, tok) in exp.iter() {
                    let Some(i) = index.get(name.as_str()) else {
                        return fail(ci, format!("expected lists {:?}, which is not a terminal's name, on [{}]", name, toks_of(spec, c)));
                    };
                    if !set.insert(*i) {
                        return fail(ci, format!("expected lists {} twice on [{}]", name, toks_of(spec, c)));
                    }
                    let want = if spec.tty(*i).set() { None } else { Some(format!("{}:u", i)) };
                    if *tok != want {
                        return fail(ci, format!("expected.token of {} is {:?}, want {:?}", name, tok, want));
                    }
                }
                if runaway || runs.is_empty() {
                    continue;
                }
                let mut why = String::new();
                let ok = runs.iter().any(|i| {
                    let (st, _) = &i.errs[i.yerrs[k]];
                    let must = m.truly_acceptable(st);
                    let may = m.acceptable(*st.last().unwrap());
                    if must.iter().all(|x| set.contains(x)) && set.iter().all(|x| may.contains(x)) {
                        return true;
                    }
                    why = format!("acceptable [{}]", toks_str(spec, &must));
                    false
                });
                if !ok {
                    return fail(ci, format!("error #{} on [{}]: expected lists [{}], {}", k, toks_of(spec, c), toks_str(spec, &set.into_iter().collect::<Vec<_>>()), why));
                }
                t.count("expected lists checked");
                if !set.is_empty() && set.len() < spec.terms.len() {
                    good = true;
                }
            }
            if runs.is_empty() {
                t.count("skipped: trace not reproduced by the reference machine");
            }
            t.eval(good, &(&spec.rules, &c.ops));
            if good && c.ops.len() > 5 {
                t.sample(|| format!("{} | {} -> {}", render(spec), toks_of(spec, c), show(&tr[0])));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 20_000), ("expected lists checked", 30_000)]
    }
}

/// call histories with one injected failure each, going on after it
pub fn histories(s: &mut Src, spec: &Spec, g: &Cfg, n: usize) -> Vec<Case> {
    let m = Model::new(spec);
    let mut cases = vec![];
    for v in noisy(s, g, n) {
        let base = Case::toks(0, &v, true, "O");
        let i = run(std::slice::from_ref(&m), &base, Defaults::Lemon).remove(0);
        if i.runaway {
            continue;
        }
        let (na, ny) = i.log.iter().fold((0, 0), |x, e| match e {
            Ev::R { .. } => (x.0 + 1, x.1),
            Ev::Y { .. } => (x.0, x.1 + 1),
            _ => x,
        });
        let mut plans: Vec<String> = vec!["O".into(), "".into()];
        let ks: Vec<usize> = if na > 12 { (0..12).map(|_| s.below(na)).collect() } else { (0..na).collect() };
        plans.extend(ks.iter().map(|k| format!("a{},O", k)));
        plans.extend((0..ny.min(4)).map(|k| format!("s{}", k)));
        if na > 0 && ny > 0 {
            plans.push(format!("a{},s{}", s.below(na), s.below(ny)));
        }
        for p in plans {
            let mut c = Case::toks(0, &v, false, &p);
            // keep only part of what follows the failure, then go on using the parser
            let i = run(std::slice::from_ref(&m), &c, Defaults::Lemon).remove(0);
            let failed_at = i.log.iter().filter_map(|e| if let Ev::Ret(r) = e { Some(r) } else { None }).position(|r| r.starts_with("err"));
            if let Some(f) = failed_at {
                let keep = (f + 1 + s.below(3)).min(c.ops.len());
                c.ops.truncate(keep);
                for _ in 0..s.below(3) {
                    c.ops.push(if s.chance(50) { Op::new('x', &[]) } else { Op::new('t', &[s.below(g.nt) as u64, 77, 78]) });
                }
                if s.chance(30) && spec.extra_arg {
                    c.ops.push(Op::new('i', &[]));
                } else {
                    c.ops.push(Op::new('e', &[]));
                }
            } else {
                c.ops.push(Op::new('e', &[]));
                if s.chance(30) {
                    c.ops.push(Op::new('d', &[]));
                }
            }
            cases.push(c);
        }
    }
    cases
}

pub struct C14;
impl Prop for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "one case = one call history on one parser with one injected failure (the k-th action, the k-th syntax-error call, the parse-fail or stack-overflow code), followed by further parse, extra and end_of_input calls; the whole history is compared with the reference machine: returned error, no later action, panics afterwards, extra still readable. Non-trivial: a failure occurred and at least one parser call was made after it. Distinct by (rules, operations, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = if s.chance(35) { err_grammar(s, idx)? } else { plain_grammar(s, idx)? };
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        spec.extra_arg = s.chance(60);
        if s.chance(40) {
            spec.stack = Some((s.range(2, 7), *s.pick(&[StackTy::Vec, StackTy::Vec, StackTy::V, StackTy::F])));
        }
        spec.handlers = s.chance(85);
        gen::decorate(s, &mut spec, &d);
        if s.chance(30) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        if g.nt == 0 {
            return None;
        }
        let cases = histories(s, &spec, &g, 8);
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.prec.is_empty() {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
        features(t, &g, &l);
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        for (ci, c) in job.cases.iter().enumerate() {
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on [{}]", d, toks_of(spec, c)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            match agree(&ms, c, &tr, false) {
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} on history {}", m, c.line(0))),
                Agree::Yes(_) => {
                    let rets: Vec<&String> = tr[0].iter().filter_map(|e| if let Ev::Ret(r) = e { Some(r) } else { None }).collect();
                    let after = rets.iter().filter(|r| r.starts_with("panic")).count();
                    t.eval(after > 0, &(&spec.rules, &c.ops, &c.plans));
                    for (p, k) in [("err1", "failed by an action"), ("err3", "failed by the syntax-error code"), ("err4", "failed by parse-fail"), ("err6", "failed by stack overflow"), ("acc", "accepted")] {
                        if rets.iter().any(|r| r.starts_with(p)) {
                            t.count(k);
                        }
                    }
                    if after > 0 && rets.iter().any(|r| r.starts_with("exSome")) {
                        t.count("extra read after the failure");
                    }
                    if after > 0 && c.ops.len() > 6 {
                        t.sample(|| format!("{} | {} -> {}", render(spec), c.line(0), show(&norm(&tr[0], false))));
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 20_000), ("failed by an action", 10_000), ("failed by the syntax-error code", 3_000), ("failed by parse-fail", 2_000), ("failed by stack overflow", 1_000)]
    }
}

pub struct C22;
impl C22 {
    /// what has to come from `Default` of the error type
    fn needs(sp: &Spec) -> bool {
        !sp.given(1) || !sp.given(2) || (!sp.given(4) && !matches!(sp.stack, Some((0, _))))
    }
}
impl Prop for C22 {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "one case = one call history (as for C14: noise, one injected failure, calls after it) on one parser that leaves out a generated subset of %error, %syntax_error, %parse_fail and %stack_overflow, compared with the reference machine with the documented defaults put in; or one specification whose error type has no Default and that leaves out a directive that needs it, which must not compile. Non-trivial: a default took effect, or the must-not-compile kind. Distinct by (rules, directives left out, operations, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1200, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        // inputs that overflow the default limit
        let deep = s.chance(12);
        let mut spec = if deep { super::env::deep_grammar(s) } else if s.chance(55) { err_grammar(s, idx)? } else { plain_grammar(s, idx)? };
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        spec.extra_arg = s.chance(50);
        if deep {
            spec.stack = None;
        } else if s.chance(60) {
            let n = if s.chance(20) { 0 } else { s.range(2, 7) };
            spec.stack = Some((n, *s.pick(&[StackTy::Vec, StackTy::Vec, StackTy::V, StackTy::F])));
        }
        gen::decorate(s, &mut spec, &d);
        // mostly without %syntax_error being the one left out: its default ends the parse first
        spec.dflt = *s.pick(&[1, 2, 2, 4, 4, 6, 6, 3, 5, 7]);
        match s.weighted(&[65, 20, 15]) {
            1 => spec.dflt |= 16,
            2 => {
                spec.dflt |= 8;
                if !deep && s.chance(50) {
                    spec.dflt = 12;
                    spec.stack = Some((0, *s.pick(&[StackTy::Vec, StackTy::V])));
                } else if s.chance(70) {
                    spec.dflt = 8 | *s.pick(&[1, 2, 4]);
                }
            }
            _ => {}
        }
        if s.chance(30) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        if g.nt == 0 {
            return None;
        }
        if deep && !(spec.dflt & 8 != 0 && C22::needs(&spec)) {
            return Some(Job::of("", spec, super::env::deep_cases(s, &g, 100, 12)));
        }
        if spec.dflt & 8 != 0 && C22::needs(&spec) {
            return Some(Job::of("none", spec, vec![]));
        }
        let cases = histories(s, &spec, &g, 8);
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.prec.is_empty() || !spec.handlers {
            return Ok(());
        }
        if spec.dflt & 8 != 0 && C22::needs(spec) {
            if spec.dflt & 16 != 0 || determined(spec, 2000).is_none() {
                return Ok(());
            }
            t.eval(true, spec);
            for (b, n) in [(1, "%syntax_error"), (2, "%parse_fail"), (4, "%stack_overflow")] {
                if spec.dflt & 7 == b {
                    t.count(&format!("error type without Default, no {}", n));
                }
            }
            return match &obs.units[0] {
                St::Rejected(_) | St::TypeErr(_) => Ok(()),
                x => fail(None, format!("an error type without Default and an omitted directive that needs it: expected a compile error, got {:?}", x)),
            };
        }
        super::env::judge_machine(job, obs, t, &|_, i, t| {
            for (k, n) in ["%syntax_error", "%parse_fail", "%stack_overflow"].iter().enumerate() {
                if i.defaulted[k] > 0 {
                    t.count(&format!("failed by the default of {}", n));
                    if k == 2 && spec.stack.is_none() {
                        t.count("failed by the default of %stack_overflow at the default limit");
                    }
                    if spec.err_unit() {
                        t.count("failed by a default of the default error type");
                    }
                }
            }
            if spec.dflt & 8 != 0 {
                t.count("unlimited stack, error type without Default");
            }
            i.defaulted.iter().any(|x| *x > 0)
        })
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("distinct", 5_000),
            ("failed by the default of %syntax_error", 2_000),
            ("failed by the default of %parse_fail", 1_000),
            ("failed by the default of %stack_overflow", 700),
            ("failed by a default of the default error type", 700),
            ("failed by the default of %stack_overflow at the default limit", 150),
            ("error type without Default, no %syntax_error", 3),
            ("error type without Default, no %parse_fail", 5),
            ("error type without Default, no %stack_overflow", 3),
            ("unlimited stack, error type without Default", 1_000),
        ]
    }
}
