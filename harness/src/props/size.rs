//! C17: large grammars.
use super::drive::*;
use super::tok::add_fallback;
use super::*;
use crate::choice::Src;
use crate::gen;
use std::collections::{BTreeSet, VecDeque};

/// `start` over items, each a small conflict-free grammar of its own behind a keyword; they share
/// their other terminals.
fn union(s: &mut Src) -> Option<Spec> {
    let mut sp = Spec::empty();
    let base = *s.pick(&[6, 10, 20, 40, 60, 80, 110, 125, 180, 240]);
    for i in 0..base {
        let n = gen::tname(s, i);
        sp.terms.push(Sym { name: n, ty: Ty::Unset });
    }
    sp.nts.push(Sym { name: "start".into(), ty: Ty::Unset });
    let list = s.chance(60).then(|| {
        sp.nts.push(Sym { name: "list".into(), ty: Ty::Unset });
        sp.nts.len() - 1
    });
    sp.nts.push(Sym { name: "item".into(), ty: Ty::Unset });
    let item = sp.nts.len() - 1;
    let n = |k: usize| gen::it(S::N(k));
    let t = |k: usize| gen::it(S::T(k));
    match list {
        Some(l) => {
            sp.rules.push(gen::rule(0, vec![n(l)]));
            sp.rules.push(gen::rule(l, if s.chance(50) { vec![] } else { vec![n(item)] }));
            sp.rules.push(gen::rule(l, vec![n(l), n(item)]));
        }
        None => sp.rules.push(gen::rule(0, vec![n(item)])),
    }
    // every item of a list ends with a terminal of its own
    let semi = list.map(|_| {
        sp.terms.push(Sym { name: "Zsemi".into(), ty: Ty::Unset });
        sp.terms.len() - 1
    });
    let nc = *s.pick(&[4, 6, 8, 10, 12, 20, 30, 45]);
    let errs = *s.pick(&[0, 0, 12]);
    let sugar = *s.pick(&[0, 0, 12]);
    let mut pool: Vec<Spec> = vec![];
    for _ in 0..nc.min(10) {
        let p = gen::GenP { max_t: s.range(3, 8), max_n: s.range(2, 5), sugar, error: errs };
        let want = *s.pick(&gen::WANTS);
        if let Some(c) = gen::lalr_grammar(s, &p, want) {
            pool.push(c);
        }
    }
    if pool.is_empty() {
        return None;
    }
    for k in 0..nc {
        let c = s.pick(&pool).clone();
        if !c.classes.is_empty() || c.terms.len() > base {
            continue;
        }
        let mut map: Vec<usize> = (0..base).collect();
        s.shuffle(&mut map);
        // many components share few terminals
        if s.chance(30) {
            map.sort_by_key(|x| *x >= c.terms.len() + 2);
        }
        let kw = sp.terms.len();
        sp.terms.push(Sym { name: format!("K{}", k), ty: Ty::Unset });
        let off = sp.nts.len();
        for i in 0..c.nts.len() {
            sp.nts.push(Sym { name: format!("g{}x{}", k, i), ty: Ty::Unset });
        }
        let mut rhs = vec![t(kw), n(off + c.start_nt())];
        rhs.extend(semi.map(|x| t(x)));
        sp.rules.push(gen::rule(item, rhs));
        for r in &c.rules {
            let mut r = r.clone();
            r.lhs += off;
            for i in &mut r.rhs {
                match &mut i.sym {
                    S::T(x) => *x = map[*x],
                    S::N(x) => *x += off,
                    S::Alt(v) => v.iter_mut().for_each(|x| *x = map[*x]),
                    _ => {}
                }
            }
            sp.rules.push(r);
        }
    }
    Some(sp)
}
/// keyword contexts with big rows: the K-th item continues with one of several token sets, before
/// which (in some) an empty rule must be reduced
fn wide(s: &mut Src, nk: usize, nt: usize) -> Spec {
    let mut sp = Spec::empty();
    for i in 0..nt {
        sp.terms.push(Sym { name: format!("T{}", i), ty: Ty::Unset });
    }
    sp.nts.push(Sym { name: "start".into(), ty: Ty::Unset });
    let shared = s.chance(50);
    let n = |k: usize| gen::it(S::N(k));
    let t = |k: usize| gen::it(S::T(k));
    if shared {
        for x in ["x", "y", "z"] {
            sp.nts.push(Sym { name: x.into(), ty: Ty::Unset });
            sp.rules.push(gen::rule(sp.nts.len() - 1, vec![]));
        }
    }
    for k in 0..nk {
        let kw = sp.terms.len();
        sp.terms.push(Sym { name: format!("K{}", k), ty: Ty::Unset });
        let mut perm: Vec<usize> = (0..nt).collect();
        s.shuffle(&mut perm);
        let fill = s.range(70, 100);
        perm.truncate((nt * fill / 100).max(3));
        let third = perm.len() / 3;
        let empties = s.chance(60);
        for j in 0..3 {
            let set = perm[j * third..(j + 1) * third].to_vec();
            let mut rhs = vec![t(kw)];
            if empties {
                rhs.push(if shared {
                    n(1 + j)
                } else {
                    let x = sp.nts.len();
                    sp.nts.push(Sym { name: format!("e{}x{}", k, j), ty: Ty::Unset });
                    sp.rules.push(gen::rule(x, vec![]));
                    n(x)
                });
            }
            rhs.push(gen::it(S::Alt(set)));
            if s.chance(30) {
                rhs.push(t(*s.pick(&perm)));
            }
            sp.rules.push(gen::rule(0, rhs));
        }
    }
    let st = sp.rules.iter().position(|r| r.lhs == 0).unwrap();
    sp.rules.swap(0, st);
    sp
}
/// many small rows alike: the K-th item reduces the empty rule of one of a few nonterminals, told
/// apart by few tokens out of few
fn alike(s: &mut Src) -> Spec {
    let mut sp = Spec::empty();
    let t = |k: usize| gen::it(S::T(k));
    let n = |k: usize| gen::it(S::N(k));
    let nt = s.range(4, 14);
    for i in 0..nt {
        let a = gen::tname(s, i);
        sp.terms.push(Sym { name: a, ty: Ty::Unset });
    }
    sp.nts.push(Sym { name: "start".into(), ty: Ty::Unset });
    let ne = s.range(2, 4);
    for i in 0..ne {
        sp.nts.push(Sym { name: format!("x{}", i), ty: Ty::Unset });
        sp.rules.push(gen::rule(1 + i, vec![]));
    }
    let nk = s.range(15, 100);
    let most = s.range(1, 3);
    // the kinds of endings are few, so that rows of different keywords have goto rows in common
    let ends = s.chance(50);
    for k in 0..nk {
        let kw = sp.terms.len();
        sp.terms.push(Sym { name: format!("K{}", k), ty: Ty::Unset });
        let mut perm: Vec<usize> = (0..nt).collect();
        s.shuffle(&mut perm);
        let mut es: Vec<usize> = (0..ne).collect();
        s.shuffle(&mut es);
        for j in es {
            let m = s.range(0, most).min(perm.len());
            for a in perm.split_off(perm.len() - m) {
                let mut rhs = vec![t(kw), n(1 + j), t(a)];
                if ends && s.chance(30) {
                    rhs.push(t(s.below(nt)));
                }
                sp.rules.push(gen::rule(0, rhs));
            }
        }
        if !perm.is_empty() && s.chance(40) {
            sp.rules.push(gen::rule(0, vec![t(kw), t(perm[0])]));
        }
    }
    // every nonterminal and keyword is used
    let kw = sp.terms.len();
    sp.terms.push(Sym { name: "Kl".into(), ty: Ty::Unset });
    for i in 0..ne {
        sp.rules.push(gen::rule(0, vec![t(kw), n(1 + i), t(i)]));
    }
    let st = sp.rules.iter().position(|r| r.lhs == 0).unwrap();
    sp.rules.swap(0, st);
    sp
}
/// few long rules: many states
fn long(s: &mut Src, rules: usize, len: usize) -> Spec {
    let mut sp = Spec::empty();
    for i in 0..6 {
        sp.terms.push(Sym { name: format!("T{}", i), ty: Ty::Unset });
    }
    sp.nts.push(Sym { name: "start".into(), ty: Ty::Unset });
    sp.nts.push(Sym { name: "sub".into(), ty: Ty::Unset });
    for k in 0..rules {
        let kw = sp.terms.len();
        sp.terms.push(Sym { name: format!("K{}", k), ty: Ty::Unset });
        let mut rhs = vec![gen::it(S::T(kw))];
        let l = len.saturating_sub(s.below(len / 4 + 1));
        for _ in 0..l {
            let x = s.below(6);
            rhs.push(gen::it(if s.chance(3) { S::N(1) } else { S::T(x) }));
        }
        sp.rules.push(gen::rule(0, rhs));
    }
    sp.rules.push(gen::rule(1, vec![gen::it(S::T(0)), gen::it(S::T(1))]));
    sp.rules.push(gen::rule(1, vec![gen::it(S::T(2))]));
    if !sp.rules.iter().any(|r| r.rhs.contains(&gen::it(S::N(1)))) {
        sp.rules[0].rhs.push(gen::it(S::N(1)));
    }
    sp
}
/// few rules with one table dimension close to where an integer type changes: the first goto row
/// (offset: minus the number of terminals), or the number of table entries
fn edge(s: &mut Src) -> Spec {
    let mut sp = Spec::empty();
    let t = |k: usize| gen::it(S::T(k));
    let n = |k: usize| gen::it(S::N(k));
    let close = |s: &mut Src| match s.below(4) {
        0 => 252 + s.below(8),
        1 => 122 + s.below(12),
        _ => 125 + s.below(6),
    };
    if s.chance(60) {
        let m = s.range(3, 40);
        // the tokens in use are the first or the last ones
        let last = s.chance(50);
        let lim = close(s);
        let nt = if last { lim + m + s.below(20) } else { lim.max(m + 1) };
        let off = if last { lim } else { 0 };
        for i in 0..nt {
            let a = gen::tname(s, i);
            sp.terms.push(Sym { name: a, ty: Ty::Unset });
        }
        for i in 0..m {
            sp.nts.push(Sym { name: format!("n{}", i), ty: Ty::Unset });
        }
        // a first state without tokens
        let empty = s.chance(if last { 75 } else { 40 });
        if empty {
            sp.nts.push(Sym { name: "first".into(), ty: Ty::Unset });
            sp.nts.push(Sym { name: "empty".into(), ty: Ty::Unset });
            sp.rules.push(gen::rule(m, vec![n(m + 1), n(0)]));
            sp.rules.push(gen::rule(m + 1, vec![]));
        }
        for i in 0..m {
            if i + 1 < m {
                sp.rules.push(gen::rule(i, vec![n(i + 1), t(off + i + 1)]));
                if i > 0 && s.chance(40) {
                    sp.rules.push(gen::rule(i, vec![n(i + 1)]));
                }
            } else if s.chance(if last { 25 } else { 60 }) {
                sp.rules.push(gen::rule(i, vec![t(off)]));
            } else {
                sp.rules.push(gen::rule(i, vec![gen::it(S::Alt((off..nt).collect()))]));
            }
        }
    } else {
        let len = close(s);
        let k = s.range(3, 8);
        for i in 0..k {
            sp.terms.push(Sym { name: format!("T{}", i), ty: Ty::Unset });
        }
        sp.nts.push(Sym { name: "start".into(), ty: Ty::Unset });
        sp.nts.push(Sym { name: "sub".into(), ty: Ty::Unset });
        let mut rhs: Vec<_> = (0..len).map(|_| t(s.below(k))).collect();
        for _ in 0..s.range(1, 3) {
            let p = s.below(len);
            rhs[p] = n(1);
        }
        sp.rules.push(gen::rule(0, rhs));
        sp.rules.push(gen::rule(1, vec![t(0), t(1)]));
        sp.rules.push(gen::rule(1, vec![t(2)]));
    }
    sp
}
/// terminal strings reaching every state of the automaton along a shortest path of symbols
fn access(g: &Cfg, l: &Lalr, s: &mut Src) -> Vec<(usize, Vec<usize>)> {
    let ml = g.min_len();
    let hs = std::cell::OnceCell::new();
    let mut at: Vec<Option<Vec<usize>>> = vec![None; l.kernels.len()];
    at[0] = Some(vec![]);
    let mut q = VecDeque::from([0]);
    let mut mins: Vec<Option<Vec<usize>>> = vec![None; g.nn];
    while let Some(x) = q.pop_front() {
        let here = at[x].clone().unwrap();
        for (t, y) in &l.tgo[x] {
            if at[*y].is_none() {
                let mut v = here.clone();
                v.push(*t);
                at[*y] = Some(v);
                q.push_back(*y);
            }
        }
        for (m, y) in &l.ngo[x] {
            if at[*y].is_none() && Some(*m) != g.error {
                let w = mins[*m].get_or_insert_with(|| g.derive(C::N(*m), s, 0, 0, &ml, &hs));
                let mut v = here.clone();
                v.extend(w.iter());
                at[*y] = Some(v);
                q.push_back(*y);
            }
        }
    }
    at.into_iter().enumerate().filter_map(|(i, v)| Some((i, v?))).collect()
}
/// (entries of the distinct explicit rows, symbols, states + rules): lower bounds of the table
/// dimensions
fn dims(m: &Model) -> (usize, usize, usize) {
    let mut rows: BTreeSet<Vec<(usize, i64)>> = BTreeSet::new();
    for (q, row) in m.l.table.iter().enumerate() {
        let d = m.choices(q)[0];
        rows.insert(
            row.iter()
                .enumerate()
                .filter_map(|(t, c)| match c {
                    Cell::Err => None,
                    Cell::Non => Some((t, -1)),
                    Cell::Shift(x) => Some((t, *x as i64)),
                    Cell::Reduce(r) if Some(*r) == d => None,
                    Cell::Reduce(r) => Some((t, -2 - *r as i64)),
                })
                .collect(),
        );
        rows.insert(m.l.ngo[q].iter().map(|(n, x)| (m.g.nt + n, *x as i64)).collect());
    }
    (rows.iter().map(|r| r.len()).sum(), m.g.nt + m.g.nn, m.l.kernels.len() + m.g.rules.len())
}

pub struct C17;
impl Prop for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on one parser of a large grammar: unions of 4-45 generated grammars behind keywords, padded with unused tokens and filler rules so that symbol counts fall around 128 and 256 and states+rules around 256; grammars whose rows fill more than 32767 table entries; many small rows alike; long rules; few rules with the number of terminals or of table entries at an integer-type boundary. Sequences: sentences with noise, and for many states a string reaching the state followed by tokens it may or may not accept (the expected-token list shows the state's whole row). Every event is compared with the reference machine. Non-trivial: at least 100 symbols, 128 table entries or 250 states and rules. Distinct by (rules, terminals, sequence, plan)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 520, thorough: 7000, shard: 5, cpu: 180 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        // the expensive shapes at fixed places so that every run has some
        let kind = match idx % 60 {
            7 => 1,
            8 | 28 | 48 => 2,
            k if k % 5 == 4 => 3,
            k if k % 5 == 0 => 4,
            _ => 0,
        };
        let mut spec = match kind {
            0 => union(s)?,
            1 => {
                let nt = s.range(190, 240);
                wide(s, 36_000 / nt, nt)
            }
            3 => edge(s),
            4 => alike(s),
            _ if s.chance(50) => {
                let (k, nt) = (s.range(3, 30), s.range(20, 130));
                wide(s, k, nt)
            }
            _ => {
                let (k, n) = (s.range(1, 12), s.range(60, 500));
                long(s, k, n)
            }
        };
        gen::renumber(&mut spec);
        if kind == 0 {
            // fillers: one long rule brings states + rules close to 256, if that is ahead
            let g = Cfg::of(&spec);
            let l = Lalr::build_limited(&g, 4000)?;
            let now = l.kernels.len() + g.rules.len();
            if now < 250 && s.chance(70) {
                let kw = spec.terms.len();
                spec.terms.push(Sym { name: "Kf".into(), ty: Ty::Unset });
                let goal = 246 + s.below(14);
                let mut rhs = vec![gen::it(S::T(kw))];
                for _ in 0..goal.saturating_sub(now + 2) {
                    let x = s.below(kw);
                    rhs.push(gen::it(S::T(x)));
                }
                spec.rules.push(gen::rule(0, rhs));
            }
            // unused tokens bring the number of symbols, or of terminals, close to 128 or 256
            let have = spec.terms.len() + if s.chance(50) { Cfg::of(&spec).nn } else { 0 };
            let goal = if have < 132 && s.chance(80) { 128 } else { 256 };
            let goal = goal - 7 + s.below(10);
            let mut pads = vec![];
            for i in have..goal {
                pads.push(spec.terms.len());
                spec.terms.push(Sym { name: format!("{}{}", s.pick(&["Pad", "A", "Z"]), i + 1000), ty: Ty::Unset });
            }
            if s.chance(25) {
                add_fallback(s, &mut spec);
                for p in pads {
                    if s.chance(30) && !spec.fallback.is_empty() && !spec.fallback.iter().any(|f| f.0 == p || f.1.contains(&p)) {
                        let k = s.below(spec.fallback.len());
                        spec.fallback[k].1.push(p);
                    }
                }
            }
            if s.chance(20) && !spec.uses_error() && spec.rules.iter().all(|r| r.rhs.iter().all(|i| !i.opt && !matches!(i.sym, S::Alt(_)))) {
                let w = s.below(spec.terms.len());
                if !spec.fallback.iter().any(|f| f.0 == w || f.1.contains(&w)) {
                    spec.wildcard = Some(w);
                }
            }
        }
        spec.extra_arg = s.chance(10);
        spec.extra_tok = spec.wildcard.is_none() && spec.fallback.is_empty() && s.chance(10);
        let mut d = gen::Deco::mixed(s);
        if kind == 1 {
            d.typed = 30;
        }
        if kind == 3 && s.chance(70) {
            d.order = 0;
        }
        gen::decorate(s, &mut spec, &d);
        let (g, l) = determined(&spec, 6000)?;
        let mut cases = vec![];
        let ml = g.min_len();
        let hs = std::cell::OnceCell::new();
        for k in 0..60 {
            let b = *s.pick(&[4, 8, 15, 30, 60]);
            let mut v = g.derive(C::N(g.start), s, b, 2, &ml, &hs);
            if v.len() > 1500 {
                continue;
            }
            for _ in 0..if k < 20 { 0 } else { s.range(1, 3) } {
                v = gen::mutate(s, &v, g.nt);
            }
            cases.push(Case::toks(0, &v, true, "O"));
        }
        if kind == 4 {
            for q in l.tgo[0].iter().collect::<Vec<_>>() {
                for t in 0..g.nt {
                    if l.table[*q.1][t] != Cell::Err && s.chance(60) || s.chance(3) {
                        cases.push(Case::toks(0, &[*q.0, t], s.chance(70), "O"));
                    }
                }
            }
        }
        let mut acc = access(&g, &l, s);
        acc.retain(|a| a.1.len() < 600);
        s.shuffle(&mut acc);
        acc.truncate(if kind == 1 { 250 } else { 150 });
        for (q, v) in acc {
            let mut v = v;
            let ok: Vec<usize> = (0..g.nt).filter(|t| l.table[q][*t] != Cell::Err).collect();
            let bad: Vec<usize> = (0..g.nt).filter(|t| l.table[q][*t] == Cell::Err).collect();
            if !ok.is_empty() && s.chance(60) {
                v.push(*s.pick(&ok));
            }
            if !bad.is_empty() && s.chance(70) {
                v.push(*s.pick(&bad));
            }
            let end = s.chance(70);
            cases.push(Case::toks(0, &v, end, if s.chance(90) { "O" } else { "" }));
        }
        Some(Job::of(["union", "wide", "other", "edge", "alike"][kind], spec, cases))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if !spec.prec.is_empty() || !spec.handlers {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 6000) else { return Ok(()) };
        accepted(obs, 0)?;
        let ms = [Model::with(spec, g, l)];
        let (entries, syms, acts) = dims(&ms[0]);
        t.count("grammars");
        t.count(match syms {
            0..=119 => "symbols: fewer than 120",
            120..=135 => "symbols: 120-135",
            136..=247 => "symbols: 136-247",
            248..=263 => "symbols: 248-263",
            _ => "symbols: more than 263",
        });
        t.count(match entries {
            0..=127 => "entries: fewer than 128",
            128..=32767 => "entries: 128-32767",
            _ => "entries: more than 32767",
        });
        t.count(match acts {
            0..=239 => "states+rules: fewer than 240",
            240..=260 => "states+rules: 240-260",
            _ => "states+rules: more than 260",
        });
        for (on, name) in [(!spec.fallback.is_empty(), "with fallbacks"), (spec.wildcard.is_some(), "with a wildcard"), (spec.uses_error(), "with `error`")] {
            if on {
                t.count(name);
            }
        }
        let big = syms >= 100 || entries >= 128 || acts >= 250;
        for (ci, c) in job.cases.iter().enumerate() {
            if !well_formed(c, 1) {
                continue;
            }
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on {}", d, c.line(0)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            match agree(&ms, c, &tr, true) {
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} on {} [{}]", m, c.line(0), toks_of(spec, c))),
                Agree::Yes(_) => {
                    t.eval(big, &(&spec.rules, spec.terms.len(), &c.ops, &c.plans));
                    if big && c.ops.len() > 5 && c.ops.len() < 12 && tr[0].len() < 12 {
                        t.sample(|| format!("{} symbols, {} table entries, {} states+rules | {} [{}] -> {}", syms, entries, acts, c.line(0), toks_of(spec, c), show(&norm(&tr[0], false))));
                    }
                }
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 50_000), ("symbols: 120-135", 25), ("symbols: 248-263", 40), ("entries: more than 32767", 4), ("states+rules: 240-260", 20), ("with fallbacks", 15), ("with a wildcard", 5)]
    }
}
