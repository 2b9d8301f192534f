//! C09 stack limit, C15 independence of instances, C16 order of declarations and re-expansion,
//! C19 extra argument, C20 extra token.
use super::drive::*;
use super::err::{err_grammar, noisy, plain_grammar};
use super::*;
use crate::choice::Src;
use crate::gen;

fn rets(t: &[Ev]) -> impl Iterator<Item = &str> {
    t.iter().filter_map(|e| if let Ev::Ret(r) = e { Some(r.as_str()) } else { None })
}

// ------------------------------------------------------------------ C09
/// right recursion, nesting and empty rules at the bottom: the depth is controlled by the input
pub fn deep_grammar(s: &mut Src) -> Spec {
    let mut sp = Spec::empty();
    for i in 0..4 {
        let n = gen::tname(s, i);
        sp.terms.push(Sym { name: n, ty: Ty::Unset });
    }
    for n in ["start", "list", "tail"] {
        sp.nts.push(Sym { name: n.into(), ty: Ty::Unset });
    }
    let t = |k| gen::it(S::T(k));
    let n = |k| gen::it(S::N(k));
    sp.rules.push(gen::rule(0, vec![n(1)]));
    match s.below(4) {
        0 => {
            sp.rules.push(gen::rule(1, vec![t(0), n(1)]));
            sp.rules.push(gen::rule(1, vec![t(1)]));
        }
        1 => {
            sp.rules.push(gen::rule(1, vec![t(0), n(1)]));
            sp.rules.push(gen::rule(1, vec![]));
        }
        2 => {
            sp.rules.push(gen::rule(1, vec![t(0), n(1), t(2)]));
            sp.rules.push(gen::rule(1, vec![t(1)]));
            sp.rules.push(gen::rule(1, vec![t(3), n(1), n(2)]));
            sp.rules.push(gen::rule(2, vec![]));
        }
        _ => {
            sp.rules.push(gen::rule(1, vec![t(0), n(2), n(1)]));
            sp.rules.push(gen::rule(1, vec![t(1)]));
            sp.rules.push(gen::rule(2, vec![]));
            sp.rules.push(gen::rule(2, vec![t(2)]));
        }
    }
    gen::renumber(&mut sp);
    gen::compact(&mut sp);
    sp
}
fn depth_of(spec: &Spec, cs: &[Case]) -> Vec<usize> {
    let mut u = spec.clone();
    u.stack = Some((0, StackTy::Vec));
    let ms = [Model::new(&u)];
    cs.iter()
        .map(|c| {
            let i = run(&ms, c, Defaults::Lemon).remove(0);
            if i.runaway {
                0
            } else {
                i.max_depth
            }
        })
        .collect()
}
fn with_limit(spec: &Spec, l: Option<(usize, StackTy)>) -> Spec {
    let mut s = spec.clone();
    s.stack = l;
    s
}

/// inputs that need about n stack entries, nested first and then completed
pub fn deep_cases(s: &mut Src, g: &Cfg, n: usize, k: usize) -> Vec<Case> {
    let mut cases = vec![];
    let lens: Vec<usize> = (0..k).map(|_| (n + s.below(9)).saturating_sub(5)).collect();
    for l in lens {
        // the nested prefix, then a short completion
        let l = if s.chance(30) { l / 2 } else { l };
        let mut e = crate::earley::Earley::new(g);
        let mut v = vec![];
        let open = e.next().first().copied();
        while v.len() < l {
            let nx = e.next();
            let Some(t) = (if s.chance(96) { open.filter(|o| nx.contains(o)) } else { None }).or_else(|| nx.last().copied()) else { break };
            e.push(t);
            v.push(t);
        }
        for _ in 0..l {
            if e.accepts() {
                break;
            }
            let nx = e.next();
            let Some(t) = nx.iter().rev().find(|t| Some(**t) != open).or(nx.last()).copied() else { break };
            e.push(t);
            v.push(t);
        }
        if s.chance(10) {
            v = gen::mutate(s, &v, g.nt);
        }
        cases.push(Case::toks(0, &v, true, if s.chance(50) { "" } else { "O" }));
    }
    cases
}
pub struct C09;
impl Prop for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on one parser with a stack limit (an explicit N near the depth the input needs, N in {127..300}, the default 100, or 0) and a stack type (Vec, a list with only the seven documented methods, an array stack that panics beyond N entries); compared with the reference machine, which counts entries, and between stack types. Non-trivial: the input needs N-1, N or more entries (or, unlimited, more than 100). Distinct by (rules, limit, stack type, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 700, thorough: 20000, shard: 14, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let kind = s.weighted(&[60, 20, 20]);
        let mut spec = match kind {
            0 if s.chance(30) => err_grammar(s, idx)?,
            0 => plain_grammar(s, idx)?,
            _ => deep_grammar(s),
        };
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        spec.extra_arg = s.chance(15);
        spec.handlers = s.chance(90);
        gen::decorate(s, &mut spec, &d);
        spec.order.clear();
        let g = Cfg::of(&spec);
        let mut cases: Vec<Case> = vec![];
        let mut specs = vec![];
        if kind == 0 {
            for v in noisy(s, &g, 60) {
                let p = if s.chance(40) { "" } else { "O" };
                cases.push(Case::toks(0, &v, true, p));
            }
            let ds = depth_of(&spec, &cases);
            for ty in [StackTy::Vec, StackTy::V, StackTy::F] {
                let d = *s.pick(&ds);
                let n = (d + s.below(3)).saturating_sub(1).max(1);
                specs.push(with_limit(&spec, Some((n, ty))));
            }
            if s.chance(50) {
                // the same limit for all stack types
                let n = specs[0].stack.clone().unwrap().0;
                for k in 1..3 {
                    specs[k].stack.as_mut().unwrap().0 = n;
                }
            }
        } else {
            let n = match kind {
                1 => 100,
                _ => *s.pick(&[2, 3, 31, 63, 126, 127, 128, 129, 254, 255, 256, 257, 300]),
            };
            cases.extend(deep_cases(s, &g, n, 10));
            let ty = s.pick(&[StackTy::Vec, StackTy::V, StackTy::F]).clone();
            specs.push(with_limit(&spec, if kind == 1 { None } else { Some((n, ty)) }));
            if s.chance(30) {
                specs.push(with_limit(&spec, Some((0, StackTy::Vec))));
            }
        }
        let mut all = vec![];
        for (k, sp) in specs.iter().enumerate() {
            let n = sp.stack.clone().map_or(100, |x| x.0);
            let ds = depth_of(sp, &cases);
            for (c, d) in cases.iter().zip(ds) {
                // inputs far below the limit add little
                if kind == 0 && d + 2 < n && !s.chance(20) {
                    continue;
                }
                let mut c = c.clone();
                c.g = vec![k];
                all.push(c);
            }
        }
        Some(Job { kind: String::new(), specs, texts: vec![], nums: vec![], cases: all })
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        job.specs.iter().map(unit).collect()
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let Some((g, l)) = determined(&job.specs[0], 2000) else { return Ok(()) };
        features(t, &g, &l);
        for (k, sp) in job.specs.iter().enumerate() {
            if !sp.prec.is_empty() || determined(sp, 2000).is_none() {
                return Ok(());
            }
            accepted(obs, k)?;
        }
        let ms: Vec<Model> = job.specs.iter().map(Model::new).collect();
        let mut seen: std::collections::HashMap<String, (usize, Vec<Ev>)> = Default::default();
        for (ci, c) in job.cases.iter().enumerate() {
            if !well_formed(c, ms.len()) || c.g.len() != 1 {
                continue;
            }
            let sp = &job.specs[c.g[0]];
            let n = sp.stack.clone().map_or(100, |x| x.0);
            let what = format!("limit {:?}, input [{}] ({} tokens)", sp.stack, toks_of(sp, c), c.tokens().len());
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} with {}", d, what));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            match agree(&ms, c, &tr, false) {
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} with {}", m, what)),
                Agree::Yes(i) => {
                    let over = if sp.handlers { tr[0].iter().any(|e| matches!(e, Ev::O { .. })) } else { i[0].is_failed() && n != 0 && i[0].max_depth >= n };
                    let d = i[0].max_depth;
                    t.eval(if n == 0 { d > 100 } else { over || d + 1 >= n }, &(&sp.rules, &sp.stack, &c.ops, &c.plans));
                    if over {
                        t.count("overflows");
                        if tr[0].iter().any(|e| matches!(e, Ev::O { tok: None, .. })) {
                            t.count("overflows in a reduction or recovery");
                        }
                    } else if n != 0 && d == n {
                        t.count("exactly N entries used without overflow");
                    } else if n == 0 && d > 100 {
                        t.count("unlimited stacks beyond 100 entries");
                    }
                    if sp.stack.is_none() {
                        t.count("default limit");
                    }
                    t.count(match sp.stack.as_ref().map_or(StackTy::Vec, |x| x.1) {
                        StackTy::Vec => "Vec",
                        StackTy::V => "seven-method list stack",
                        StackTy::F => "panicking array stack",
                    });
                    if over && c.ops.len() > 4 && c.ops.len() < 14 {
                        t.sample(|| format!("{} | {} -> {}", render(sp), toks_of(sp, c), show(&norm(&tr[0], false))));
                    }
                }
            }
            // the stack type makes no difference at all
            let key = format!("{} {:?} {}", n, c.ops, c.plans[0]);
            let now = norm(&tr[0], true);
            if let Some((o, old)) = seen.get(&key) {
                t.count("compared between stack types");
                if *old != now {
                    return fail(ci, format!("with {}; but case {} with another stack type: {}", what, o, diff(old, &now)));
                }
            } else {
                seen.insert(key, (ci, now));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 8_000), ("overflows", 4_000), ("overflows in a reduction or recovery", 300), ("exactly N entries used without overflow", 500), ("default limit", 500), ("seven-method list stack", 2_000), ("panicking array stack", 2_000)]
    }
}

// ------------------------------------------------------------------ C15
/// every instance's operations alone, unthreaded
fn isolated(c: &Case) -> Vec<Case> {
    (0..c.g.len())
        .map(|i| Case {
            g: vec![c.g[i]],
            plans: vec![c.plans[i % c.plans.len()].clone()],
            ops: c.ops.iter().filter(|o| o.i == i).map(|o| Op { i: 0, k: o.k, a: o.a.clone(), th: None }).collect(),
        })
        .collect()
}
/// how often a parser call of one instance comes between two parser calls of another
fn switches(c: &Case) -> usize {
    let calls: Vec<usize> = c.ops.iter().filter(|o| matches!(o.k, 't' | 'e')).map(|o| o.i).collect();
    (0..calls.len()).filter(|k| *k > 0 && calls[*k] != calls[k - 1] && calls[..*k].contains(&calls[*k])).count()
}

pub struct C15;
impl Prop for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "one case = one history over 2-5 parsers of 1-3 grammars (several instances of the same grammar; accepting, failing and recovering ones), their calls interleaved at random, half of them spread over up to 3 threads that hand the parsers to each other, or run all at once, each parser on a thread of its own, 250 to 1000 times over; every instance's trace must equal the trace of the same calls made to that instance alone. Non-trivial: at least 2 calls come between calls of another, unfinished instance. Distinct by the whole history."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 800, thorough: 20000, shard: 14, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut specs = vec![];
        for _ in 0..s.range(1, 3) {
            let mut sp = match s.below(4) {
                0 => err_grammar(s, idx)?,
                1 => super::tok::fallback_grammar(s, idx)?,
                _ => plain_grammar(s, idx)?,
            };
            if s.chance(15) && sp.fallback.is_empty() && !sp.terms.is_empty() {
                sp.wildcard = Some(s.below(sp.terms.len()));
                // compounds must not contain it
                let w = sp.wildcard.unwrap();
                if sp.rules.iter().any(|r| r.rhs.iter().any(|i| (i.opt || !matches!(i.sym, S::T(_))) && sp.members(&i.sym).contains(&w))) {
                    sp.wildcard = None;
                }
            }
            sp.extra_arg = s.chance(50);
            if s.chance(20) {
                sp.stack = Some((s.range(3, 9), *s.pick(&[StackTy::Vec, StackTy::V])));
            }
            gen::decorate(s, &mut sp, &gen::Deco::full());
            if s.chance(20) {
                gen::shapes(s, &mut sp);
            }
            specs.push(sp);
        }
        let gs: Vec<Cfg> = specs.iter().map(Cfg::of).collect();
        let mut cases = vec![];
        for _ in 0..16 {
            let n = s.range(2, 5);
            let g: Vec<usize> = (0..n).map(|_| s.below(specs.len())).collect();
            let mut ops: Vec<std::collections::VecDeque<Op>> = vec![];
            let mut plans = vec![];
            for (i, gi) in g.iter().enumerate() {
                let mut v = if i > 0 && s.chance(20) && g[i - 1] == *gi {
                    // the same input as the previous instance
                    cases.last().map_or(vec![], |c: &Case| c.tokens()).into_iter().filter(|t| *t < gs[*gi].nt).collect()
                } else {
                    noisy(s, &gs[*gi], 1).pop().unwrap_or_default()
                };
                v.truncate(40);
                let mut o: Vec<Op> = vec![Op::new('n', &[s.below(1000) as u64])];
                for (k, t) in v.iter().enumerate() {
                    o.push(Op::new('t', &[*t as u64, (100 * (i + 1) + k) as u64, (5000 * (i + 1) + k) as u64]));
                    if s.chance(6) {
                        o.push(Op::new('x', &[]));
                    }
                    if s.chance(3) {
                        o.push(Op::new('X', &[s.below(1000) as u64]));
                    }
                }
                o.push(Op::new(*s.pick(&['e', 'e', 'e', 'e', 'd']), &[]));
                ops.push(o.into_iter().map(|o| o.on(i)).collect());
                plans.push(s.pick(&["O", "O", "", "s1", "a2,O", "a5,O"]).to_string());
            }
            if s.chance(25) {
                // all at once, many times
                let mut all: Vec<Op> = ops.into_iter().flatten().collect();
                all[0].th = Some(if s.chance(30) { 1000 } else { 250 });
                cases.push(Case { g, plans, ops: all });
                continue;
            }
            let threads = if s.chance(50) { s.range(1, 3) } else { 0 };
            let burst = *s.pick(&[0, 0, 60, 85]);
            let mut all = vec![];
            let mut cur = 0;
            while ops.iter().any(|o| !o.is_empty()) {
                if !s.chance(burst) || ops[cur].is_empty() {
                    let live: Vec<usize> = (0..n).filter(|i| !ops[*i].is_empty()).collect();
                    cur = *s.pick(&live);
                }
                let mut o = ops[cur].pop_front().unwrap();
                if threads > 0 && s.chance(80) {
                    o.th = Some(s.below(threads));
                }
                all.push(o);
            }
            cases.push(Case { g, plans, ops: all });
        }
        Some(Job { kind: String::new(), specs, texts: vec![], nums: vec![], cases })
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        job.specs.iter().map(unit).collect()
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        let mut v = job.cases.clone();
        for c in &job.cases {
            v.extend(isolated(c));
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        if job.specs.iter().any(|sp| determined(sp, 2000).is_none()) {
            return Ok(());
        }
        for k in 0..job.specs.len() {
            accepted(obs, k)?;
        }
        let mut at = job.cases.len();
        for (ci, c) in job.cases.iter().enumerate() {
            let base = at;
            at += c.g.len();
            if !well_formed(c, job.specs.len()) {
                continue;
            }
            if let Some(d) = died(obs, ci) {
                // an isolated run that dies as well is not about independence
                if (0..c.g.len()).any(|i| died(obs, base + i).is_some()) {
                    continue;
                }
                return fail(ci, format!("the generated parsers {} when interleaved: {}", d, c.line(0)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            if tr.len() != c.g.len() {
                return fail(ci, format!("{} traces for {} instances: {}", tr.len(), c.g.len(), c.line(0)));
            }
            let mut ok = true;
            for i in 0..c.g.len() {
                let Some(iso) = traces(obs, base + i) else {
                    ok = false;
                    continue;
                };
                if died(obs, base + i).is_some() {
                    ok = false;
                    continue;
                }
                if iso[0] != tr[i] {
                    return fail(ci, format!("instance {}: alone vs interleaved: {} in {}", i, diff(&iso[0], &tr[i]), c.line(0)));
                }
            }
            if !ok {
                t.count("skipped: not observed");
                continue;
            }
            let par = c.ops.iter().any(|o| o.th.map_or(false, |t| t > 99));
            let sw = switches(c);
            if par {
                t.count("histories run in parallel");
            }
            t.eval(sw >= 2 || (par && c.g.len() >= 2 && c.ops.len() >= 6), &(&job.specs.iter().map(|s| &s.rules).collect::<Vec<_>>(), &c.g, &c.ops, &c.plans));
            t.add("instances compared", c.g.len() as u64);
            t.add("switches between unfinished instances", sw as u64);
            let th: std::collections::HashSet<_> = c.ops.iter().map(|o| o.th).collect();
            if th.len() > 1 {
                t.count("histories over several threads");
            }
            if c.g.iter().enumerate().any(|(k, g)| c.g[..k].contains(g)) {
                t.count("several instances of one grammar");
            }
            if tr.iter().any(|t| rets(t).any(|r| r.starts_with("err"))) && tr.iter().any(|t| rets(t).any(|r| r.starts_with("acc"))) {
                t.count("failing and accepting instances together");
            }
            if sw > 6 && c.ops.len() < 30 {
                t.sample(|| format!("{} | {} -> {}", job.specs.iter().map(render).collect::<Vec<_>>().join(" || "), c.line(0), tr.iter().map(|x| show(&norm(x, false))).collect::<Vec<_>>().join(" | ")));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 4_000), ("histories over several threads", 2_000), ("histories run in parallel", 1_500), ("several instances of one grammar", 3_000), ("failing and accepting instances together", 1_000)]
    }
}

// ------------------------------------------------------------------ C16
const REPEAT: usize = 4; // base, verbose, two re-expansions; then the permutations
fn variants(job: &Job) -> Vec<Spec> {
    let b = &job.specs[0];
    let mut v = vec![b.clone()];
    let mut verbose = b.clone();
    verbose.verbose = true;
    v.push(verbose);
    v.push(b.clone());
    v.push(b.clone());
    for ch in job.nums.chunks(16) {
        let mut p = b.clone();
        p.order = ch.iter().map(|x| *x as u32).collect();
        v.push(p);
    }
    v
}
pub struct C16;
impl Prop for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on the parsers of one specification expanded three times, with %verbose, and in 2-3 random orders of its declarations; acceptance of the specification must be equal, traces of the re-expansions and of %verbose exactly equal (including the order of `expected`), traces of the permutations equal on accepted inputs and up to the first error report otherwise; a third of the specifications have conflicts. Non-trivial: a sequence that runs at least 2 actions, on a permutation that moves at least one rule. Distinct by (rules, permutations, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 900, thorough: 25000, shard: 10, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let p = gen::GenP { sugar: *s.pick(&[0, 12, 25]), error: if s.chance(20) { 15 } else { 0 }, ..Default::default() };
        let mut spec = match s.weighted(&[30, 15, 15, 15, 25]) {
            0 => gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?,
            1 => err_grammar(s, idx)?,
            2 => super::tok::fallback_grammar(s, idx)?,
            3 => {
                let mut r = None;
                for _ in 0..40 {
                    let Some(mut sp) = gen::random_cfg(s, &gen::GenP { max_t: 5, max_n: 3, ..Default::default() }) else { continue };
                    gen::precedences(s, &mut sp);
                    if determined(&sp, 300).map_or(false, |(_, l)| !l.conflicts.is_empty()) {
                        r = Some(sp);
                        break;
                    }
                }
                r?
            }
            _ => {
                let mut sp = gen::random_raw(s, &p);
                if s.chance(60) {
                    gen::precedences(s, &mut sp);
                }
                sp
            }
        };
        if spec.rules.is_empty() {
            return None;
        }
        if s.chance(15) && spec.fallback.is_empty() && !spec.terms.is_empty() {
            let w = s.below(spec.terms.len());
            if !spec.rules.iter().any(|r| r.rhs.iter().any(|i| (i.opt || !matches!(i.sym, S::T(_))) && spec.members(&i.sym).contains(&w))) {
                spec.wildcard = Some(w);
            }
        }
        if spec.wildcard.is_none() && s.chance(15) {
            spec.default_ty = Some(Ty::W(7));
        }
        spec.extra_arg = s.chance(20);
        let d = if s.chance(40) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        spec.order.clear();
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        if g.reduced() {
            for v in noisy(s, &g, 25) {
                cases.push(Case::toks(0, &v, true, ""));
            }
            for _ in 0..15 {
                let b = *s.pick(&[4, 8, 15, 30]);
                let v = g.sentence_noise(s, b, 2);
                if v.len() <= 80 {
                    cases.push(Case::toks(0, &v, true, ""));
                }
            }
        }
        let np = s.range(2, 3);
        let nums = (0..16 * np).map(|_| s.u32() as u64).collect();
        Some(Job { kind: String::new(), specs: vec![spec], texts: vec![], nums, cases })
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        variants(job).iter().map(unit).collect()
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        let nv = variants(job).len();
        let looping = { let g = Cfg::of(&job.specs[0]); !job.specs[0].prec.is_empty() && g.can_loop() };
        let mut v = vec![];
        for c in &job.cases {
            for k in 0..nv {
                let mut c = c.clone();
                if looping {
                    c.ops.truncate(1);
                }
                c.g = vec![k];
                v.push(c);
            }
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.rules.is_empty() {
            return Ok(());
        }
        let vs = variants(job);
        let kind = |s: &St| match s {
            St::Ok => "accepted",
            St::Rejected(_) => "rejected",
            St::Panicked(_) => "panic",
            St::TypeErr(_) => "type error",
            St::Died(_) => "died",
        };
        for k in 1..vs.len() {
            if kind(&obs.units[k]) != kind(&obs.units[0]) {
                let how = if k == 1 { "with %verbose" } else if k < REPEAT { "expanded again" } else { "reordered" };
                return fail(None, format!("the specification is {}, but {} it is {}: {:?} / {:?}\nreordered: {}", kind(&obs.units[0]), how, kind(&obs.units[k]), obs.units[0], obs.units[k], render(&vs[k])));
            }
        }
        t.count(&format!("specifications {}", kind(&obs.units[0])));
        t.add("variants compared", vs.len() as u64 - 1);
        if obs.units[0] != St::Ok {
            // the verdict itself is the observation
            t.eval(spec.rules.len() >= 3, &(&spec.rules, &spec.prec, &job.nums));
            return Ok(());
        }
        let d0 = spec.decls();
        let moved = vs[REPEAT..].iter().any(|v| v.decls() != d0);
        let nv = vs.len();
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) || c.plans != [""] {
                continue;
            }
            let at = ci * nv;
            let Some(t0) = trace(obs, at) else { continue };
            for k in 1..nv {
                let Some(tk) = trace(obs, at + k) else { continue };
                if k < REPEAT {
                    if t0 != tk {
                        return fail(ci, format!("{}: {} on [{}]", if k == 1 { "%verbose changes the parser" } else { "expanded again" }, diff(&t0, &tk), toks_of(spec, c)));
                    }
                    continue;
                }
                let (n0, nk) = (norm(&t0, false), norm(&tk, false));
                if let Err(m) = alike(&n0, &nk) {
                    return fail(ci, format!("reordered: {} on [{}]\nreordered: {}", m, toks_of(spec, c), render(&vs[k])));
                }
            }
            let acts = t0.iter().filter(|e| matches!(e, Ev::R { .. })).count();
            t.eval(moved && acts >= 2, &(&spec.rules, &job.nums, &c.ops));
            t.count(if rets(&t0).any(|r| r.starts_with("acc")) { "sequences accepted" } else { "sequences rejected" });
            if moved && acts >= 3 && c.ops.len() < 14 {
                t.sample(|| format!("{} | {} | {} -> {}", render(spec), render(&vs[REPEAT]), toks_of(spec, c), show(&norm(&t0, false))));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 5_000), ("specifications rejected", 80), ("sequences accepted", 5_000)]
    }
}

/// equal without an error, otherwise equal up to the first report. Whether a state that can take `error`
/// is still on the stack may depend on the default reduction done before the error is seen, and which
/// one of two equally frequent ones that is depends on the order: then one parser reports the token
/// and the other one fails at it.
pub fn alike(n0: &[Ev], nk: &[Ev]) -> Result<(), String> {
    let err = |v: &[Ev]| v.iter().position(|e| matches!(e, Ev::Y { .. } | Ev::F { .. } | Ev::O { .. }));
    match (err(n0), err(nk)) {
        (Some(a), Some(b)) => {
            let head = |v: &[Ev], p: usize| {
                (
                    v[..p].iter().filter(|e| matches!(e, Ev::Ret(_))).count(),
                    match &v[p] {
                        Ev::Y { tok, .. } | Ev::O { tok, .. } => tok.clone().unwrap_or_default(),
                        _ => "end".into(),
                    },
                )
            };
            let failed = matches!(n0[a], Ev::F { .. }) != matches!(nk[b], Ev::F { .. });
            if head(n0, a) != head(nk, b) && !(failed && head(n0, a).0 == head(nk, b).0) {
                return Err(format!("first error {:?} vs {:?}", head(n0, a), head(nk, b)));
            }
            Ok(())
        }
        (None, None) if n0 == nk => Ok(()),
        _ => Err(diff(n0, nk)),
    }
}

// ------------------------------------------------------------------ C19
pub struct C19;
impl Prop for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "one case = one call history on one parser with %extra_argument: parse calls interleaved with extra, extra_mut and into_extra, every action and error block reading and then changing the value, failures injected, use after failure; compared with the reference machine; a counter of live extra values detects loss or duplication. Non-trivial: at least 2 reads in code or by the caller after a change. Distinct by (rules, operations, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1500, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = match s.below(5) {
            0 | 1 => err_grammar(s, idx)?,
            2 => super::tok::fallback_grammar(s, idx)?,
            _ => plain_grammar(s, idx)?,
        };
        spec.extra_arg = true;
        if s.chance(30) {
            spec.stack = Some((s.range(2, 8), *s.pick(&[StackTy::Vec, StackTy::V, StackTy::F])));
        }
        spec.handlers = s.chance(90);
        if spec.fallback.is_empty() {
            spec.extra_tok = s.chance(15);
        }
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        if s.chance(50) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 40) {
            let mut ops = vec![Op::new('n', &[s.below(100_000) as u64])];
            let pc = *s.pick(&[0, 20, 60]);
            let other = |s: &mut Src, ops: &mut Vec<Op>| {
                while s.chance(pc) {
                    ops.push(if s.chance(55) { Op::new('x', &[]) } else { Op::new('X', &[s.below(100_000) as u64]) });
                }
            };
            other(s, &mut ops);
            for (i, t) in v.iter().enumerate() {
                ops.push(Op::new('t', &[*t as u64, 10 + i as u64, 5000 + i as u64]));
                other(s, &mut ops);
            }
            match s.weighted(&[70, 20, 10]) {
                0 => ops.push(Op::new('e', &[])),
                1 => ops.push(Op::new('i', &[])),
                _ => ops.push(Op::new('d', &[])),
            }
            let p = match s.weighted(&[50, 15, 15, 20]) {
                0 => "O".to_string(),
                1 => "".into(),
                2 => format!("s{}", s.below(3)),
                _ => format!("a{},O", s.below(6)),
            };
            cases.push(Case { g: vec![0], plans: vec![p], ops });
        }
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.extra_arg {
            return Ok(());
        }
        judge_machine(job, obs, t, &|tr, _, t| {
            let seen = tr.iter().filter(|e| matches!(e, Ev::R { ext: Some(_), .. } | Ev::Y { ext: Some(_), .. } | Ev::F { ext: Some(_) } | Ev::O { ext: Some(_), .. })).count();
            let reads = rets(tr).filter(|r| r.starts_with("exSome") || r.starts_with("ieSome") || r.contains('@')).count();
            let writes = rets(tr).filter(|r| *r == "set").count();
            let failed = rets(tr).position(|r| r.starts_with("err"));
            if failed.map_or(false, |f| rets(tr).skip(f).any(|r| r.starts_with("exSome") || r.starts_with("ieSome"))) {
                t.count("extra read after a failure");
            }
            if rets(tr).any(|r| r.starts_with("ieSome")) {
                t.count("into_extra");
            }
            if rets(tr).any(|r| r.starts_with("acc")) {
                t.count("returned by end_of_input");
            }
            if tr.iter().any(|e| matches!(e, Ev::F { .. })) {
                t.count("seen by parse_fail code");
            }
            if tr.iter().any(|e| matches!(e, Ev::O { .. })) {
                t.count("seen by stack_overflow code");
            }
            if tr.iter().any(|e| matches!(e, Ev::Y { .. })) {
                t.count("seen by syntax_error code");
            }
            seen + reads >= 2 && (seen >= 1 || writes >= 1)
        })
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 15_000), ("extra read after a failure", 500), ("into_extra", 1_000), ("returned by end_of_input", 5_000), ("seen by stack_overflow code", 500)]
    }
}
/// all cases of a one-specification job against the reference machine; `note` says whether the case
/// is non-trivial
pub fn judge_machine(job: &Job, obs: &Obs, t: &mut Tally, note: &dyn Fn(&[Ev], &Inst, &mut Tally) -> bool) -> Result<(), Fail> {
    let spec = &job.specs[0];
    if !spec.prec.is_empty() {
        return Ok(());
    }
    let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
    features(t, &g, &l);
    accepted(obs, 0)?;
    let ms = [Model::with(spec, g, l)];
    for (ci, c) in job.cases.iter().enumerate() {
        if !well_formed(c, 1) {
            continue;
        }
        if let Some(d) = died(obs, ci) {
            return fail(ci, format!("the generated parser {} on {}", d, c.line(0)));
        }
        let Some(tr) = traces(obs, ci) else { continue };
        match agree(&ms, c, &tr, false) {
            Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
            Agree::No(m) => return fail(ci, format!("{} on {} [{}]", m, c.line(0), toks_of(spec, c))),
            Agree::Yes(i) => {
                let nt = note(&tr[0], &i[0], t);
                t.eval(nt, &(&spec.rules, &c.ops, &c.plans));
                if nt && c.ops.len() > 5 && c.ops.len() < 16 {
                    t.sample(|| format!("{} | {} -> {}", render(spec), c.line(0), show(&norm(&tr[0], false))));
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C20
pub struct C20;
impl Prop for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "one case = one call history on one parser with %extra_token (typed, ()-typed and untyped terminals, compounds, optionals, fallbacks, `error`): parse calls with distinct payload and extra component per token, mixed with token accessor calls (extra, extra_mut, into_extra on any terminal); bound values, error-report tokens and accessor results are compared with the reference machine. Non-trivial: at least one action argument or reported token carries an extra component. Distinct by (rules, types, operations)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1400, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut spec = match s.below(5) {
            0 => err_grammar(s, idx)?,
            1 => super::tok::fallback_grammar(s, idx)?,
            _ => {
                let p = gen::GenP { sugar: *s.pick(&[0, 15, 30]), ..Default::default() };
                gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?
            }
        };
        if spec.terms.is_empty() {
            return None;
        }
        spec.extra_tok = true;
        spec.extra_arg = s.chance(20);
        if s.chance(20) {
            spec.stack = Some((s.range(2, 8), StackTy::Vec));
        }
        let d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        if s.chance(20) {
            gen::shapes(s, &mut spec);
        }
        let g = Cfg::of(&spec);
        let mut cases = vec![];
        for v in noisy(s, &g, 40) {
            let mut ops = vec![Op::new('n', &[7])];
            for (i, t) in v.iter().enumerate() {
                ops.push(Op::new('t', &[*t as u64, 10 + i as u64, 5000 + i as u64]));
                if s.chance(8) {
                    ops.push(Op::new('k', &[s.below(g.nt) as u64, s.below(1000) as u64, 2000 + s.below(1000) as u64, 4000 + s.below(1000) as u64]));
                }
            }
            ops.push(Op::new('e', &[]));
            cases.push(Case { g: vec![0], plans: vec![s.pick(&["O", "O", "", "s1"]).to_string()], ops });
        }
        // every terminal's accessors
        let mut ops = vec![Op::new('n', &[7])];
        for t in 0..g.nt {
            ops.push(Op::new('k', &[t as u64, 100 + t as u64, 200 + t as u64, 300 + t as u64]));
        }
        ops.push(Op::new('d', &[]));
        cases.push(Case { g: vec![0], plans: vec!["".into()], ops });
        Some(Job::of("", spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.extra_tok || spec.wildcard.is_some() || spec.default_ty.is_some() {
            return Ok(());
        }
        judge_machine(job, obs, t, &|tr, _, t| {
            let a = tr.iter().filter(|e| matches!(e, Ev::R { args, .. } if args.iter().any(|a| a.contains('x')))).count();
            let y = tr.iter().filter(|e| matches!(e, Ev::Y { .. } | Ev::O { tok: Some(_), .. })).count();
            let k = rets(tr).filter(|r| r.starts_with("tk")).count();
            t.add("actions given extra components", a as u64);
            t.add("tokens in error reports", y as u64);
            t.add("accessor calls", k as u64);
            a + y > 0
        })
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 12_000), ("actions given extra components", 50_000), ("accessor calls", 10_000)]
    }
}
