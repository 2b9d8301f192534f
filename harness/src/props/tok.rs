//! C10 fallback, C11 wildcard, C12 syntactic sugar.
use super::drive::*;
use super::err::noisy;
use super::lang::strings;
use super::*;
use crate::choice::Src;
use crate::gen;

/// adds random fallback declarations (acyclic, one per terminal), including tokens that occur in no
/// rule
pub fn add_fallback(s: &mut Src, spec: &mut Spec) {
    let used = spec.terms.len();
    for _ in 0..s.weighted(&[30, 30, 25, 15]) {
        let i = spec.terms.len();
        spec.terms.push(Sym { name: format!("Kw{}", i), ty: Ty::Unset });
    }
    let n = spec.terms.len();
    let mut order: Vec<usize> = (0..n).filter(|t| Some(*t) != spec.wildcard).collect();
    s.shuffle(&mut order);
    // tokens of no rule come first so that they fall back to something useful
    order.sort_by_key(|t| *t < used);
    let pc = *s.pick(&[40, 60, 85]);
    let mut fb: Vec<(usize, usize)> = vec![];
    for k in 0..order.len().saturating_sub(1) {
        let t = order[k];
        if t >= used || s.chance(pc) {
            // a small number of distinct fallbacks
            let lo = if s.chance(50) { order.len() - 1 - s.below((order.len() - 1 - k).min(2)) } else { k + 1 + s.below(order.len() - k - 1) };
            fb.push((order[lo.max(k + 1)], t));
        }
    }
    s.shuffle(&mut fb);
    for (f, t) in fb {
        if s.chance(70) {
            if let Some(e) = spec.fallback.iter_mut().find(|e| e.0 == f) {
                e.1.push(t);
                continue;
            }
        }
        spec.fallback.push((f, vec![t]));
    }
}
pub fn fallback_grammar(s: &mut Src, idx: u64) -> Option<Spec> {
    let sugar = if s.chance(15) { 12 } else { 0 };
    let p = gen::GenP { sugar, max_t: 7, error: if s.chance(12) { 12 } else { 0 }, ..Default::default() };
    let mut spec = gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?;
    if spec.terms.is_empty() {
        return None;
    }
    if s.chance(12) {
        // needs precedence as well
        let q = gen::GenP { max_t: 5, max_n: 3, ..Default::default() };
        for _ in 0..40 {
            let Some(mut sp) = gen::random_cfg(s, &q) else { continue };
            gen::precedences(s, &mut sp);
            if determined(&sp, 300).map_or(false, |(_, l)| !l.conflicts.is_empty() && l.kernels.len() >= 5) {
                spec = sp;
                break;
            }
        }
    }
    add_fallback(s, &mut spec);
    if spec.fallback.is_empty() {
        return None;
    }
    Some(spec)
}
/// sentences with tokens replaced by ones that fall back (directly or not) to them
fn disguised(s: &mut Src, spec: &Spec, g: &Cfg, n: usize) -> Vec<Vec<usize>> {
    let mut up: Vec<Vec<usize>> = vec![vec![]; g.nt];
    for (f, v) in &spec.fallback {
        up[*f].extend(v);
    }
    let mut out = noisy(s, g, n / 3);
    let clean: Vec<Vec<usize>> = (0..n - n / 3)
        .map(|_| {
            let b = *s.pick(&[4, 8, 15, 30]);
            g.sentence_noise(s, b, 2)
        })
        .filter(|v| v.len() <= 120)
        .collect();
    out.extend(clean);
    for v in &mut out {
        let pc = *s.pick(&[20, 50, 90]);
        for t in v.iter_mut() {
            if Some(*t) == spec.wildcard && s.chance(75) {
                *t = s.below(g.nt);
            }
            while !up[*t].is_empty() && s.chance(pc) {
                *t = *s.pick(&up[*t]);
            }
        }
    }
    out
}
/// the same case with every token replaced by the terminal it was shifted as
fn substituted(c: &Case, i: &Inst) -> Option<Case> {
    let toks = c.tokens();
    if i.is_failed() || i.shifted_as.len() != toks.len() || !i.dropped.is_empty() {
        return None;
    }
    let mut d = c.clone();
    for (o, (t, x)) in d.ops.iter_mut().filter(|o| o.k == 't').zip(&i.shifted_as) {
        if o.a[0] != *t as u64 {
            return None;
        }
        o.a[0] = *x as u64;
    }
    if d == *c {
        None
    } else {
        Some(d)
    }
}
/// the cases of the job followed by the substituted ones
fn with_substituted(job: &Job) -> Vec<(Option<usize>, Case)> {
    let mut v: Vec<(Option<usize>, Case)> = job.cases.iter().map(|c| (None, c.clone())).collect();
    let spec = &job.specs[0];
    let Some((g, l)) = determined(spec, 2000) else { return v };
    let ms = [Model::with(spec, g, l)];
    for (k, c) in job.cases.iter().enumerate() {
        if !simple_shape(c) || !well_formed(c, 1) {
            continue;
        }
        let i = run(&ms, c, Defaults::Lemon).remove(0);
        if let Some(d) = substituted(c, &i) {
            // only where the table treats both alike
            let j = run(&ms, &d, Defaults::Lemon).remove(0);
            if j.log == i.log {
                v.push((Some(k), d));
            }
        }
    }
    v
}
fn judge_tokens(job: &Job, obs: &Obs, t: &mut Tally, wild: bool) -> Result<(), Fail> {
    let spec = &job.specs[0];
    if spec.extra_tok {
        return Ok(());
    }
    let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
    features(t, &g, &l);
    accepted(obs, 0)?;
    let ms = [Model::with(spec, g, l)];
    let all = with_substituted(job);
    for (ci, (orig, c)) in all.iter().enumerate() {
        if let Some(d) = died(obs, ci) {
            return fail(ci.min(job.cases.len() - 1), format!("the generated parser {} on [{}]", d, toks_of(spec, c)));
        }
        let Some(tr) = traces(obs, ci) else { continue };
        if let Some(o) = orig {
            let Some(tr0) = traces(obs, *o) else { continue };
            t.count("compared with the substituted sequence");
            if norm(&tr[0], false) != norm(&tr0[0], false) {
                return fail(*o, format!("[{}] is parsed as [{}], but {}", toks_of(spec, &job.cases[*o]), toks_of(spec, c), diff(&norm(&tr[0], false), &norm(&tr0[0], false))));
            }
            continue;
        }
        match agree(&ms, c, &tr, false) {
            Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
            Agree::No(m) => return fail(ci, format!("{} on [{}]", m, toks_of(spec, c))),
            Agree::Yes(i) => {
                let i = &i[0];
                let n = if wild { i.wildcards } else { i.fallbacks };
                t.eval(n > 0, &(&spec.rules, &spec.fallback, &spec.wildcard, &c.ops, &c.plans));
                if n > 0 {
                    t.count(if i.is_failed() { "substitution, then rejected" } else { "substitution, accepted" });
                    t.add("tokens substituted", n as u64);
                }
                if i.wildcards > 0 && i.fallbacks > 0 {
                    t.count("fallback and wildcard in one sequence");
                }
                if n > 0 && !i.is_failed() && c.ops.len() > 5 {
                    t.sample(|| format!("{} | {} -> {}", render(spec), toks_of(spec, c), show(&norm(&tr[0], false))));
                }
            }
        }
    }
    Ok(())
}

pub struct C10;
impl Prop for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence (sentences whose tokens are replaced by tokens that fall back to them, noise) on one parser with %fallback (chains, several directives, tokens of no rule); compared with the reference machine and, where the sequence is accepted, with the same parser fed the substituted tokens. Non-trivial: at least one token was used through its fallback. Distinct by (rules, fallbacks, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = fallback_grammar(s, idx)?;
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        if s.chance(20) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in disguised(s, &spec, &g, 60) {
            let p = if s.chance(50) { "" } else { "O" };
            cases.push(Case::toks(0, &v, true, p));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        with_substituted(job).into_iter().map(|x| x.1).collect()
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        if job.specs[0].fallback.is_empty() {
            return Ok(());
        }
        judge_tokens(job, obs, t, false)
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 15_000), ("substitution, accepted", 8_000)]
    }
}

pub struct C11;
impl Prop for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence (sentences with wildcard positions filled by arbitrary tokens, noise) on one parser with %wildcard, a third of them also with %fallback; compared with the reference machine and, where accepted, with the same parser fed the wildcard token itself. Non-trivial: at least one token was taken as the wildcard. Distinct by (rules, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let p = gen::GenP { max_t: 7, error: if s.chance(12) { 12 } else { 0 }, ..Default::default() };
        let mut spec = gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?;
        if spec.terms.is_empty() {
            return None;
        }
        // prefer a terminal used in many places
        let mut cnt = vec![0usize; spec.terms.len()];
        for r in &spec.rules {
            for i in &r.rhs {
                if let S::T(t) = i.sym {
                    cnt[t] += 1;
                }
            }
        }
        let (a, b) = (s.below(cnt.len()), s.below(cnt.len()));
        spec.wildcard = Some(if cnt[a] >= cnt[b] { a } else { b });
        if s.chance(33) {
            add_fallback(s, &mut spec);
        } else if s.chance(40) {
            spec.terms.push(Sym { name: "Unused".into(), ty: Ty::Unset });
        }
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        if s.chance(20) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in disguised(s, &spec, &g, 60) {
            let p = if s.chance(50) { "" } else { "O" };
            cases.push(Case::toks(0, &v, true, p));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        with_substituted(job).into_iter().map(|x| x.1).collect()
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let Some(w) = spec.wildcard else { return Ok(()) };
        let in_sugar = spec.rules.iter().any(|r| r.rhs.iter().any(|i| (i.opt || !matches!(i.sym, S::T(_))) && spec.members(&i.sym).contains(&w)));
        if in_sugar || spec.default_ty.is_some() || spec.fallback.iter().any(|(f, v)| *f == w || v.contains(&w)) {
            return Ok(());
        }
        judge_tokens(job, obs, t, true)
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 12_000), ("substitution, accepted", 5_000)]
    }
}

// ------------------------------------------------------------------ C12
/// The specification with optionals, alternations and classes written out (None: too big).
pub fn expand(spec: &Spec) -> Option<Spec> {
    let mut out = spec.clone();
    out.rules.clear();
    out.classes.clear();
    out.order.clear();
    let mut opts: Vec<(S, usize)> = vec![];
    let mut tail: Vec<Rule> = vec![];
    for r in &spec.rules {
        let mut r = r.clone();
        if r.code == Code::None && spec.nty(r.lhs).set() {
            // the only typed symbol of the rule as written is passed on
            let k = r.rhs.iter().position(|i| spec.item_ty(i).set())?;
            r.rhs[k].alias = Alias::Id;
            r.code = Code::Fwd(k);
        }
        let mut rs = vec![Rule { rhs: vec![], ..r.clone() }];
        for i in &r.rhs {
            let choices: Vec<S> = if i.opt {
                let n = match opts.iter().find(|o| o.0 == i.sym && !matches!(i.sym, S::Alt(_))) {
                    Some(o) => o.1,
                    None => {
                        let n = out.nts.len();
                        out.nts.push(Sym { name: format!("opt_{}", n), ty: spec.item_ty(i) });
                        opts.push((i.sym.clone(), n));
                        tail.push(Rule { lhs: n, rhs: vec![], code: Code::NoneV, prec: None, id: 0 });
                        let ms: Vec<S> = match &i.sym {
                            S::Alt(_) | S::Class(_) => spec.members(&i.sym).into_iter().map(S::T).collect(),
                            x => vec![x.clone()],
                        };
                        for m in ms {
                            tail.push(Rule { lhs: n, rhs: vec![Item { sym: m, opt: false, alias: Alias::Id }], code: Code::SomeOf(0), prec: None, id: 0 });
                        }
                        n
                    }
                };
                vec![S::N(n)]
            } else {
                match &i.sym {
                    S::Alt(_) | S::Class(_) => spec.members(&i.sym).into_iter().map(S::T).collect(),
                    x => vec![x.clone()],
                }
            };
            let mut next = vec![];
            for r in &rs {
                for c in &choices {
                    let mut r = r.clone();
                    r.rhs.push(Item { sym: c.clone(), opt: false, alias: i.alias.clone() });
                    next.push(r);
                }
            }
            rs = next;
            if rs.len() > 40 {
                return None;
            }
        }
        out.rules.extend(rs);
    }
    out.rules.extend(tail);
    Some(out)
}
fn has_sugar(spec: &Spec) -> bool {
    spec.rules.iter().any(|r| r.rhs.iter().any(|i| i.opt || matches!(i.sym, S::Alt(_) | S::Class(_))))
}
fn distinct_members(spec: &Spec) -> bool {
    let d = |v: &[usize]| v.iter().collect::<std::collections::HashSet<_>>().len() == v.len();
    spec.classes.iter().all(|c| d(&c.members)) && spec.rules.iter().all(|r| r.rhs.iter().all(|i| d(&spec.members(&i.sym))))
}

/// Does the reference construction accept the specification with precedences? None: not specified.
fn prec_spec(spec: &Spec) -> Option<bool> {
    if spec.rules.is_empty() || !spec.fallback.is_empty() || spec.wildcard.is_some() || spec.uses_error() || !super::conf::well_formed_spec(spec) {
        return None;
    }
    let g = Cfg::of(spec);
    if g.mixed_prec || g.can_loop() || !g.reduced() {
        return None;
    }
    let l = Lalr::build_limited(&g, 1000)?;
    if l.overlap || l.crowded {
        return None;
    }
    Some(l.ok())
}
/// A grammar with sugar whose conflicts precedences settle, or nearly.
fn sugar_prec(s: &mut Src, p: &gen::GenP) -> Option<Job> {
    let q = gen::GenP { max_t: 5, max_n: 3, ..p.clone() };
    let acc = s.chance(65) as u32;
    let mut best: Option<(u32, Spec)> = None;
    for _ in 0..120 {
        let Some(mut sp) = gen::random_cfg(s, &q) else { continue };
        gen::precedences(s, &mut sp);
        if !has_sugar(&sp) {
            continue;
        }
        let Some(e) = expand(&sp) else { continue };
        let (Some(a), Some(b)) = (prec_spec(&sp), prec_spec(&e)) else { continue };
        if a != b {
            continue;
        }
        let g = Cfg::of(&sp);
        let Some(l) = Lalr::build_limited(&g, 300) else { continue };
        let res = l.conflicts.iter().any(|c| c.resolved);
        let n = (!l.conflicts.is_empty()) as u32 + 2 * (l.kernels.len() >= 6) as u32 + 2 * res as u32 + 6 * (acc == a as u32) as u32;
        if best.as_ref().map_or(true, |b| n > b.0) {
            best = Some((n, sp));
        }
        if n >= 11 {
            break;
        }
    }
    let mut spec = best?.1;
    let d = if s.chance(40) { gen::Deco::full() } else { gen::Deco::mixed(s) };
    gen::decorate(s, &mut spec, &d);
    let g = Cfg::of(&spec);
    let cases = strings(s, &g, 40).iter().map(|v| Case::toks(0, v, true, "")).collect();
    Some(Job::of("prec", spec, cases))
}

pub struct C12;
impl Prop for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence fed to the parser of a grammar with X?, A|B and %token_class and to the parser of its written-out expansion (a quarter of the grammars with precedences, where both must be accepted or rejected as the reference construction says); same acceptance, same first error, and on acceptance the same actions with the same values. Non-trivial: the sequence has at least 2 tokens and is accepted with at least one action, or rejected after at least 2 tokens. Distinct by (rules, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1200, thorough: 30000, shard: 25, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let p = gen::GenP { sugar: *s.pick(&[15, 25, 40]), ..Default::default() };
        if idx % 4 == 3 {
            return sugar_prec(s, &p);
        }
        let mut spec = None;
        for _ in 0..10 {
            let Some(sp) = gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize]) else { continue };
            if has_sugar(&sp) && expand(&sp).is_some() {
                spec = Some(sp);
                break;
            }
        }
        let mut spec = spec?;
        if s.chance(30) {
            spec.default_ty = Some(if s.chance(15) { Ty::Unit } else { Ty::W(s.below(2) as u32) });
        }
        let d = if s.chance(40) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        if s.chance(20) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for n in gen::viable_trie(&g, s, 30, 8) {
            cases.push(Case::toks(0, &n.toks, true, ""));
        }
        for v in strings(s, &g, 25) {
            cases.push(Case::toks(0, &v, true, ""));
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let sp = &job.specs[0];
        let mut v = vec![unit(sp)];
        if let Some(e) = expand(sp) {
            v.push(unit(&e));
        }
        v
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        let mut v = job.cases.clone();
        for c in &job.cases {
            let mut c = c.clone();
            c.g = vec![1];
            v.push(c);
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !has_sugar(spec) || !gen::typable(spec) || !distinct_members(spec) || obs.units.len() != 2 || !spec.handlers {
            return Ok(());
        }
        let Some(ex) = expand(spec) else { return Ok(()) };
        if job.kind == "prec" {
            let (Some(a), Some(b)) = (prec_spec(spec), prec_spec(&ex)) else {
                t.count("skipped: outcome not specified");
                return Ok(());
            };
            if a != b {
                t.count("skipped: outcome differs for the expansion");
                return Ok(());
            }
            t.eval(true, &(&spec.rules, &spec.prec));
            match (&obs.units[0], &obs.units[1]) {
                (St::Ok, St::Ok) if a => t.count("with precedence, accepted"),
                (St::Rejected(_), St::Rejected(_)) if !a => {
                    t.count("with precedence, rejected as conflicting");
                    return Ok(());
                }
                (x, y) => return fail(None, format!("expected to be {}; grammar with sugar: {:?}; written out: {:?}\nwritten out:\n{}", if a { "accepted" } else { "rejected" }, x, y, ex.macro_input())),
            }
        } else {
            let Some((g, l)) = plain_spec(spec) else { return Ok(()) };
            if plain_spec(&ex).is_none() {
                t.count("skipped: the expansion is not conflict-free");
                return Ok(());
            }
            features(t, &g, &l);
        }
        match (&obs.units[0], &obs.units[1]) {
            (St::Ok, St::Ok) => {}
            (a, b) => return fail(None, format!("grammar with sugar: {:?}; written out: {:?}\nwritten out:\n{}", a, b, ex.macro_input())),
        }
        for i in spec.rules.iter().flat_map(|r| &r.rhs) {
            if i.opt {
                t.count(match i.sym {
                    S::T(_) => "optional terminals",
                    S::N(_) => "optional nonterminals",
                    _ => "optional compounds",
                });
            } else {
                match i.sym {
                    S::Alt(_) => t.count("alternations"),
                    S::Class(_) => t.count("classes"),
                    _ => {}
                }
            }
        }
        let n = job.cases.len();
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || c.plans != [""] || c.g != [0] {
                continue;
            }
            for (k, w) in [(ci, "sugared"), (ci + n, "written-out")] {
                if let Some(d) = died(obs, k) {
                    return fail(ci, format!("the {} parser {} on [{}]", w, d, toks_of(spec, c)));
                }
            }
            let (Some(a), Some(b)) = (trace(obs, ci), trace(obs, ci + n)) else { continue };
            let (ca, cb) = (calls(&a), calls(&b));
            let first = |cs: &[Call]| cs.iter().skip(1).position(|c| c.ret != "ok" && !c.ret.starts_with("acc"));
            let (fa, fb) = (first(&ca), first(&cb));
            let toks = c.tokens();
            if fa != fb {
                return fail(ci, format!("[{}]: first failing call {:?} with sugar, {:?} written out: {} / {}", toks_of(spec, c), fa, fb, show(&a), show(&b)));
            }
            match fa {
                None => {
                    if norm(&a, false) != norm(&b, false) {
                        return fail(ci, format!("[{}] (expected: written out; got: with sugar) {}\nwritten out:\n{}", toks_of(spec, c), diff(&norm(&b, false), &norm(&a, false)), ex.macro_input()));
                    }
                    let acts = a.iter().filter(|e| matches!(e, Ev::R { .. })).count();
                    t.eval(toks.len() >= 2 && acts >= 1, &(&spec.rules, &toks));
                    t.count("accepted");
                    if toks.len() >= 4 {
                        t.sample(|| format!("{} | {} -> {}", render(spec), toks_of(spec, c), show(&a)));
                    }
                }
                Some(k) => {
                    t.eval(k >= 2, &(&spec.rules, &toks));
                    t.count("rejected");
                    let errs = |c: &Call| -> Vec<Ev> { c.evs.iter().filter(|e| !matches!(e, Ev::R { .. })).cloned().collect() };
                    let (ea, eb) = (norm(&errs(&ca[k + 1]), false), norm(&errs(&cb[k + 1]), false));
                    if ea != eb || ca[k + 1].ret != cb[k + 1].ret {
                        return fail(ci, format!("[{}]: different error reports {} / {}", toks_of(spec, c), show(&ea), show(&eb)));
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 10_000), ("optional compounds", 50), ("alternations", 200), ("classes", 60), ("accepted", 5_000), ("with precedence, accepted", 80), ("with precedence, rejected as conflicting", 40)]
    }
}
