//! C03 conflicts are reported exactly; C04 precedence decides grouping.
use super::drive::*;
use super::lang::{check_accepted, strings};
use super::*;
use crate::choice::Src;
use crate::earley::*;
use crate::gen;

/// preconditions of C03 other than conflicts
pub fn well_formed_spec(spec: &Spec) -> bool {
    let st = spec.start_nt();
    let mut seen = std::collections::HashSet::new();
    spec.rules.iter().all(|r| {
        r.rhs.iter().all(|i| match &i.sym {
            S::N(n) => *n != st && spec.rules.iter().any(|r| r.lhs == *n),
            S::Alt(v) => v.len() >= 2,
            S::Class(c) => !spec.classes[*c].members.is_empty(),
            _ => true,
        })
    }) && gen::typable(spec)
        && nocode_ok(spec)
        && spec.prec.iter().all(|(_, v)| !v.is_empty() && v.iter().all(|t| seen.insert(*t)))
        && spec.fallback.is_empty()
        && spec.wildcard.is_none()
}

pub struct C03;
impl Prop for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "one case = one specification expanded by pomelo!{}: conflict-free grammars (incl. not SLR(1)), unfiltered random grammars, families around LR(1)-but-not-LALR(1), random grammars with random precedences; accepted iff the reference LALR(1) construction leaves no unresolved conflict and every rule is reduced somewhere. Non-trivial: at least 5 states. Distinct by rules and precedences."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 12000, thorough: 300000, shard: 100, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let p = gen::GenP { sugar: if s.chance(25) { 12 } else { 0 }, error: if s.chance(12) { 10 } else { 0 }, ..Default::default() };
        let mut spec = match s.weighted(&[35, 15, 12, 12, 26]) {
            0 => gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?,
            1 => {
                // conflict-free plus one more rule or one rule less
                let mut sp = gen::lalr_grammar(s, &p, gen::WANTS[(idx % 5) as usize])?;
                let st = sp.start_nt();
                let (nt, nn) = (sp.terms.len(), sp.nts.len());
                if nt == 0 {
                    return None;
                }
                let sym = |s: &mut Src, spec: &Spec| {
                    if s.chance(50) {
                        gen::it(S::T(s.below(nt)))
                    } else {
                        let mut n = s.below(nn);
                        if n == st || !spec.rules.iter().any(|r| r.lhs == n) {
                            n = usize::MAX;
                        }
                        gen::it(if n == usize::MAX { S::T(s.below(nt)) } else { S::N(n) })
                    }
                };
                match s.below(3) {
                    0 => {
                        let l = s.below(nn);
                        let rhs = (0..s.below(4)).map(|_| sym(s, &sp)).collect();
                        sp.rules.push(gen::rule(l, rhs));
                    }
                    1 => {
                        let r = s.below(sp.rules.len());
                        let k = s.below(sp.rules[r].rhs.len() + 1);
                        let x = sym(s, &sp);
                        sp.rules[r].rhs.insert(k, x);
                    }
                    _ => {
                        let r = s.below(sp.rules.len());
                        if sp.rules[r].rhs.is_empty() {
                            return None;
                        }
                        let k = s.below(sp.rules[r].rhs.len());
                        sp.rules[r].rhs.remove(k);
                    }
                }
                sp
            }
            2 => gen::random_raw(s, &p),
            3 => gen::merging_cfg(s),
            _ => match s.below(3) {
                0 => {
                    // operator grammar, some tokens possibly without precedence
                    let mut sp = operator_grammar(s);
                    for _ in 0..s.below(3) {
                        let k = s.below(sp.prec.len());
                        let v = &mut sp.prec[k].1;
                        if !v.is_empty() {
                            let j = s.below(v.len());
                            v.remove(j);
                        }
                    }
                    sp.prec.retain(|p| !p.1.is_empty());
                    sp
                }
                1 => {
                    let q = gen::GenP { max_t: 5, max_n: 3, ..p.clone() };
                    let mut best = None;
                    for _ in 0..60 {
                        let Some(mut sp) = gen::random_cfg(s, &q) else { continue };
                        gen::precedences(s, &mut sp);
                        let g = Cfg::of(&sp);
                        let Some(l) = Lalr::build_limited(&g, 300) else { continue };
                        if !l.conflicts.is_empty() && !l.crowded && !l.overlap && !g.mixed_prec {
                            let done = l.ok() && l.kernels.len() >= 5;
                            if done || best.is_none() {
                                best = Some(sp);
                            }
                            if done {
                                break;
                            }
                        }
                    }
                    best?
                }
                _ => {
                    let mut sp = if s.chance(50) { gen::random_cfg(s, &p)? } else { gen::random_raw(s, &p) };
                    gen::precedences(s, &mut sp);
                    sp
                }
            },
        };
        if !well_formed_spec(&spec) {
            return None;
        }
        spec.handlers = s.chance(30);
        let d = gen::Deco { nocode: 60, ..gen::Deco::mixed(s) };
        gen::decorate(s, &mut spec, &d);
        Some(Job::of("", spec, vec![]))
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![Unit { src: format!("pomelo::pomelo! {{\n{}\n}}", job.specs[0].macro_input()), mode: Mode::Expand }]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.rules.is_empty() || !well_formed_spec(spec) {
            return Ok(());
        }
        let g = Cfg::of(spec);
        let Some(l) = Lalr::build_limited(&g, 1500) else { return Ok(()) };
        if g.mixed_prec || l.overlap || (l.crowded && !spec.prec.is_empty()) {
            t.count("skipped: outcome not specified");
            return Ok(());
        }
        let want = l.ok();
        t.eval(l.kernels.len() >= 5, &(&spec.rules, &spec.prec, &spec.start));
        let class = if want {
            if !l.conflicts.is_empty() {
                "accept: all conflicts resolved by precedence"
            } else if !l.slr(&g) {
                "accept: conflict-free, not SLR(1)"
            } else {
                "accept: conflict-free"
            }
        } else if !l.unresolved() {
            "reject: rule never reduced"
        } else if !spec.prec.is_empty() && l.conflicts.iter().any(|c| c.resolved) {
            "reject: some conflicts resolved, some not"
        } else if l.conflicts.iter().any(|c| c.shift && !c.resolved) {
            "reject: shift-reduce"
        } else {
            "reject: only reduce-reduce"
        };
        t.count(class);
        if l.kernels.len() > 8 {
            t.sample(|| format!("{} -> {} ({})", render(spec), if want { "accepted" } else { "rejected" }, class));
        }
        match &obs.units[0] {
            St::Ok if want => Ok(()),
            St::Rejected(_) if !want => Ok(()),
            St::Ok => {
                let c: Vec<String> = l.conflicts.iter().filter(|c| !c.resolved).take(2).map(|c| format!("state {} on {}: shift {} reduces {:?}", c.state, if c.term == g.nt { "$" } else { &spec.terms[c.term].name }, c.shift, c.reduces)).collect();
                fail(None, format!("accepted, but {} [{}]", class, c.join(", ")))
            }
            x => fail(None, format!("expected {}, got {:?}", if want { "acceptance" } else { "a compile error" }, x)),
        }
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 6000), ("accept: all conflicts resolved by precedence", 200), ("reject: only reduce-reduce", 200), ("accept: conflict-free, not SLR(1)", 200)]
    }
}

// ------------------------------------------------------------------ C04
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Form {
    Atom,
    Paren,
    Bin(usize),
    Pre(usize),
    Post(usize),
    Tern(usize, usize),
}
/// The role of each rule of an operator grammar over the single nonterminal `e` (index 1); None if
/// the grammar does not have that shape.
fn forms(spec: &Spec) -> Option<Vec<Form>> {
    let e = 1;
    if spec.nts.len() != 2 || spec.start_nt() != 0 || spec.rules.iter().filter(|r| r.lhs == 0).count() != 1 {
        return None;
    }
    let mut v = Vec::new();
    for r in &spec.rules {
        let sy: Vec<Option<usize>> = r
            .rhs
            .iter()
            .map(|i| match i.sym {
                S::T(t) if !i.opt => Some(Some(t)),
                S::N(n) if n == e && !i.opt => Some(None),
                _ => None,
            })
            .collect::<Option<_>>()?;
        v.push(match (r.lhs, &sy[..]) {
            (0, [None]) => Form::Atom,
            (1, [Some(_)]) => Form::Atom,
            (1, [Some(_), None, Some(_)]) => Form::Paren,
            (1, [None, Some(o), None]) => Form::Bin(*o),
            (1, [None, Some(o)]) => Form::Post(*o),
            (1, [None, Some(q), None, Some(c), None]) => Form::Tern(*q, *c),
            (1, [pre @ .., None]) if !pre.is_empty() && pre.iter().all(|x| x.is_some()) => Form::Pre(pre[0].unwrap()),
            _ => return None,
        });
    }
    // terminals play one role, except that one may be both infix and prefix
    let mut lead = std::collections::HashSet::new();
    let mut infix = std::collections::HashSet::new();
    let mut other = std::collections::HashSet::new();
    for (r, f) in spec.rules.iter().zip(&v) {
        if r.lhs == 0 {
            continue;
        }
        let ts: Vec<usize> = r.rhs.iter().filter_map(|i| if let S::T(t) = i.sym { Some(t) } else { None }).collect();
        let ok = match f {
            Form::Atom => lead.insert(ts[0]),
            Form::Paren => lead.insert(ts[0]) && other.insert(ts[1]),
            Form::Bin(o) | Form::Post(o) => infix.insert(*o),
            Form::Tern(q, c) => infix.insert(*q) && other.insert(*c),
            Form::Pre(p) => lead.insert(*p) && ts[1..].iter().all(|t| other.insert(*t)),
        };
        if !ok {
            return None;
        }
    }
    if other.iter().any(|t| lead.contains(t) || infix.contains(t)) {
        return None;
    }
    Some(v)
}
fn operator_grammar(s: &mut Src) -> Spec {
    let mut spec = Spec::empty();
    let t = |s: &mut Src, spec: &mut Spec| {
        let i = spec.terms.len();
        let name = gen::tname(s, i);
        spec.terms.push(Sym { name, ty: Ty::Unset });
        i
    };
    for n in ["start", "e"] {
        spec.nts.push(Sym { name: n.into(), ty: Ty::Unset });
    }
    let e = || gen::it(S::N(1));
    let tt = |i: usize| gen::it(S::T(i));
    spec.rules.push(gen::rule(0, vec![e()]));
    let atom = t(s, &mut spec);
    spec.rules.push(gen::rule(1, vec![tt(atom)]));
    if s.chance(60) {
        let (a, b) = (t(s, &mut spec), t(s, &mut spec));
        spec.rules.push(gen::rule(1, vec![tt(a), e(), tt(b)]));
    }
    let mut infix = vec![];
    let mut rules = vec![];
    for _ in 0..s.range(1, 6) {
        let o = t(s, &mut spec);
        infix.push(o);
        match s.weighted(&[70, 15, 15]) {
            0 => rules.push((vec![e(), tt(o), e()], vec![o])),
            1 => rules.push((vec![e(), tt(o)], vec![])),
            _ => {
                let c = t(s, &mut spec);
                // the precedence may come from the second terminal
                rules.push((vec![e(), tt(o), e(), tt(c), e()], vec![o]));
                if s.chance(40) {
                    infix.push(c);
                }
            }
        }
    }
    let mut prefixed = vec![];
    for _ in 0..s.below(3) {
        if s.chance(35) && !infix.is_empty() {
            let o = *s.pick(&infix);
            let used_as_infix = rules.iter().any(|r| matches!(&r.0[..], [a, b, ..] if a.sym == S::N(1) && b.sym == S::T(o)));
            if used_as_infix && !prefixed.contains(&o) {
                prefixed.push(o);
                rules.push((vec![tt(o), e()], vec![o]));
            }
        } else {
            let mut rhs = vec![];
            let mut last = 0;
            for _ in 0..s.weighted(&[60, 30, 10]) + 1 {
                last = t(s, &mut spec);
                rhs.push(tt(last));
            }
            rhs.push(e());
            // sometimes only the last of the leading terminals has a precedence
            infix.push(last);
            rules.push((rhs, vec![last]));
        }
    }
    let pseudo = t(s, &mut spec);
    infix.push(pseudo);
    infix.sort();
    infix.dedup();
    let nl = s.range(1, 5);
    let mut lv: Vec<(Assoc, Vec<usize>)> = (0..nl).map(|_| (*s.pick(&[Assoc::Left, Assoc::Right, Assoc::Left, Assoc::Right, Assoc::Non]), vec![])).collect();
    s.shuffle(&mut infix);
    for o in &infix {
        lv[s.below(nl)].1.push(*o);
    }
    lv.retain(|l| !l.1.is_empty());
    spec.prec = lv;
    for (rhs, _) in rules {
        let mut r = gen::rule(1, rhs);
        if s.chance(22) {
            r.prec = Some(if s.chance(60) { pseudo } else { *s.pick(&infix) });
        }
        spec.rules.push(r);
    }
    let first = spec.rules.remove(0);
    s.shuffle(&mut spec.rules);
    spec.rules.insert(0, first);
    spec
}
/// Operator-precedence parse of a token sequence: the derivation tree (over cfg rule numbers, which
/// here equal specification rule numbers), or the position of the first token that is a syntax
/// error, toks.len() meaning the end of input.
fn op_parse(spec: &Spec, fs: &[Form], toks: &[usize]) -> Result<Tree, usize> {
    #[derive(Debug)]
    enum E {
        /// operator with the form it belongs to
        T(usize, usize),
        X(Kid),
    }
    let tp = spec.term_prec();
    let rule_prec = |r: usize| -> Option<(u32, Assoc)> {
        match spec.rules[r].prec {
            Some(t) => tp[t],
            None => spec.rules[r].rhs.iter().find_map(|i| if let S::T(t) = i.sym { tp[t] } else { None }),
        }
    };
    let find = |f: &dyn Fn(&Form) -> bool| fs.iter().enumerate().skip(1).position(|(_, x)| f(x)).map(|p| p + 1);
    let mut st: Vec<E> = vec![];
    // rule whose handle ends at the top of the stack (which is an expression)
    let handle = |st: &[E]| -> Option<usize> {
        match st {
            [.., E::T(_, r), E::X(_)] => match fs[*r] {
                Form::Bin(_) | Form::Pre(_) => Some(*r),
                // after the second operator of a ternary
                Form::Tern(_, c) if matches!(st[st.len() - 2], E::T(t, _) if t == c) => Some(*r),
                _ => None,
            },
            _ => None,
        }
    };
    let reduce = |st: &mut Vec<E>, r: usize, to: usize| {
        let n = spec.rules[r].rhs.len();
        let at = st.len() - n;
        let kids: Vec<Kid> = st
            .drain(at..)
            .map(|e| match e {
                E::X(k) => k,
                E::T(_, _) => Kid::T(usize::MAX),
            })
            .collect();
        st.push(E::X(Kid::N(Tree { rule: r, kids, from: 0, to })));
    };
    for (i, t) in toks.iter().enumerate() {
        let operand = matches!(st.last(), Some(E::X(_)));
        if !operand {
            // inside a multi-token prefix?
            if let Some(E::T(_, r)) = st.last() {
                if let Form::Pre(_) = fs[*r] {
                    let done = st.iter().rev().take_while(|e| matches!(e, E::T(_, q) if q == r)).count();
                    let len = spec.rules[*r].rhs.len() - 1;
                    let k = done % len;
                    if k != 0 {
                        if spec.rules[*r].rhs[k].sym == S::T(*t) {
                            st.push(E::T(*t, *r));
                            continue;
                        }
                        return Err(i);
                    }
                }
            }
            let lead = |r: usize| spec.rules[r].rhs[0].sym == S::T(*t);
            if let Some(r) = (1..fs.len()).find(|r| lead(*r) && matches!(fs[*r], Form::Atom | Form::Paren | Form::Pre(_))) {
                st.push(E::T(*t, r));
                if fs[r] == Form::Atom {
                    reduce(&mut st, r, i + 1);
                }
                continue;
            }
            return Err(i);
        }
        // t follows an expression
        if let Some(r) = find(&|f| matches!(f, Form::Bin(o) | Form::Post(o) | Form::Tern(o, _) if o == t)) {
            let (lt, assoc) = tp[*t].expect("infix operators have precedence");
            while let Some(h) = handle(&st) {
                let (lr, _) = rule_prec(h).expect("rules have precedence");
                if lr > lt || (lr == lt && assoc == Assoc::Left) {
                    reduce(&mut st, h, i);
                } else if lr == lt && assoc == Assoc::Non {
                    return Err(i);
                } else {
                    break;
                }
            }
            st.push(E::T(*t, r));
            if let Form::Post(_) = fs[r] {
                reduce(&mut st, r, i + 1);
            }
            continue;
        }
        while let Some(h) = handle(&st) {
            reduce(&mut st, h, i);
        }
        match &st[..] {
            [.., E::T(q, r), E::X(_)] => match fs[*r] {
                Form::Paren if *q == opener(spec, *r) && spec.rules[*r].rhs[2].sym == S::T(*t) => {
                    let r = *r;
                    st.push(E::T(*t, r));
                    reduce(&mut st, r, i + 1);
                }
                Form::Tern(a, c) if a == *q && c == *t => {
                    let r = *r;
                    st.push(E::T(*t, r));
                }
                _ => return Err(i),
            },
            _ => return Err(i),
        }
    }
    if !matches!(st.last(), Some(E::X(_))) {
        return Err(toks.len());
    }
    while let Some(h) = handle(&st) {
        reduce(&mut st, h, toks.len());
    }
    if st.len() != 1 {
        return Err(toks.len());
    }
    let Some(E::X(k)) = st.pop() else { unreachable!() };
    let mut t = Tree { rule: 0, kids: vec![k], from: 0, to: toks.len() };
    number(&mut t, &mut 0);
    Ok(t)
}
fn opener(spec: &Spec, r: usize) -> usize {
    match spec.rules[r].rhs[0].sym {
        S::T(t) => t,
        _ => unreachable!(),
    }
}
/// token positions, left to right; latest calls, from the position after the node's text
fn number(t: &mut Tree, n: &mut usize) {
    t.from = *n;
    for k in &mut t.kids {
        match k {
            Kid::T(i) => {
                *i = *n;
                *n += 1;
            }
            Kid::N(t) => number(t, n),
        }
    }
    t.to = *n;
}
fn op_string(s: &mut Src, spec: &Spec, fs: &[Form], depth: usize, out: &mut Vec<usize>) {
    let pick = |s: &mut Src, f: &dyn Fn(&Form) -> bool| -> Option<usize> {
        let v: Vec<usize> = (1..fs.len()).filter(|r| f(&fs[*r])).collect();
        if v.is_empty() {
            None
        } else {
            Some(*s.pick(&v))
        }
    };
    let emit = |out: &mut Vec<usize>, r: usize, k: usize| {
        if let S::T(t) = spec.rules[r].rhs[k].sym {
            out.push(t)
        }
    };
    let r = if depth == 0 || s.chance(15) { pick(s, &|f| *f == Form::Atom).unwrap() } else { pick(s, &|_| true).unwrap() };
    for k in 0..spec.rules[r].rhs.len() {
        if let S::N(_) = spec.rules[r].rhs[k].sym {
            op_string(s, spec, fs, depth.saturating_sub(1), out)
        } else {
            emit(out, r, k)
        }
    }
}

pub struct C04;
impl Prop for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on one parser whose grammar needs precedence: (op) generated operator grammars (binary, prefix, multi-token prefix, postfix, ternary, parentheses, [Token] overrides) judged by an operator-precedence parser that knows nothing of LR tables; (gen) arbitrary random grammars whose conflicts are all resolved by random precedences, judged by the resolved reference LALR(1) machine. Non-trivial: the sequence has at least 3 tokens and at least 2 reductions are decided. Distinct by (rules, precedences, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1600, thorough: 40000, shard: 40, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, _idx: u64) -> Option<Job> {
        let mut d = if s.chance(50) { gen::Deco::full() } else { gen::Deco::mixed(s) };
        d.nocode = 0;
        if s.chance(60) {
            let mut spec = None;
            for _ in 0..8 {
                let sp = operator_grammar(s);
                if forms(&sp).is_some() && determined(&sp, 500).is_some() {
                    spec = Some(sp);
                    break;
                }
            }
            let mut spec = spec?;
            let fs = forms(&spec)?;
            gen::decorate(s, &mut spec, &d);
            let mut cases = vec![];
            for _ in 0..60 {
                let mut v = vec![];
                let n = s.range(1, 5);
                op_string(s, &spec, &fs, n, &mut v);
                if v.len() > 60 {
                    continue;
                }
                if s.chance(12) {
                    v = gen::mutate(s, &v, spec.terms.len());
                }
                cases.push(Case::toks(0, &v, true, ""));
            }
            return Some(Job::of("op", spec, cases));
        }
        let p = gen::GenP { max_t: 5, max_n: 3, ..Default::default() };
        for _ in 0..120 {
            let sugar = s.chance(10);
            let Some(mut sp) = (if s.chance(20) {
                let n = s.range(1, 3);
                gen::template_cfg(s, &p, n)
            } else {
                gen::random_cfg(s, &gen::GenP { sugar: if sugar { 12 } else { 0 }, ..p.clone() })
            }) else {
                continue;
            };
            gen::precedences(s, &mut sp);
            let Some((g, l)) = determined(&sp, 300) else { continue };
            if l.conflicts.is_empty() || l.kernels.len() < 5 {
                continue;
            }
            gen::decorate(s, &mut sp, &d);
            let mut cases: Vec<Case> = strings(s, &g, 40).iter().map(|v| Case::toks(0, v, true, "")).collect();
            // all short sequences the machine reaches
            let m = Model::new(&sp);
            let mut level: Vec<Vec<usize>> = vec![vec![]];
            let mut n = 0;
            while n < 60 && !level.is_empty() {
                let mut next = vec![];
                for v in level {
                    let mut i = m.start(Defaults::None, Plan::default(), 7);
                    v.iter().for_each(|t| i.call(Some((*t, 1, 1))));
                    if i.is_failed() {
                        continue;
                    }
                    cases.push(Case::toks(0, &v, true, ""));
                    n += 1;
                    if n >= 60 || v.len() >= 7 {
                        continue;
                    }
                    for t in 0..g.nt {
                        let mut w = v.clone();
                        w.push(t);
                        next.push(w);
                    }
                }
                s.shuffle(&mut next);
                level = next;
            }
            return Some(Job::of("gen", sp, cases));
        }
        None
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![unit(&job.specs[0])]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.prec.is_empty() || !spec.fallback.is_empty() || spec.wildcard.is_some() || spec.uses_error() {
            return Ok(());
        }
        let Some((g, l)) = determined(spec, 2000) else { return Ok(()) };
        features(t, &g, &l);
        let fs = if job.kind == "op" { forms(spec) } else { None };
        if job.kind == "op" && fs.is_none() {
            return Ok(());
        }
        match &obs.units[0] {
            St::Ok => {}
            x => return fail(None, format!("all conflicts are resolved by precedence, but: {:?}", x)),
        }
        let ms = [Model::with(spec, g, l)];
        let g = &ms[0].g;
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) || c.plans != [""] {
                continue;
            }
            let toks = c.tokens();
            if let Some(d) = died(obs, ci) {
                return fail(ci, format!("the generated parser {} on [{}]", d, toks_str(spec, &toks)));
            }
            let Some(tr) = traces(obs, ci) else { continue };
            if let Some(fs) = &fs {
                let tr = &tr[0];
                match op_parse(spec, fs, &toks) {
                    Ok(tree) => {
                        t.count("op: accepted expressions");
                        match check_accepted(spec, g, c, &tree, tr) {
                            Err(m) => return fail(ci, format!("{} on [{}]", m, toks_str(spec, &toks))),
                            Ok(k) => {
                                t.eval(toks.len() >= 3 && k >= 2, &(&spec.rules, &spec.prec, &toks));
                                if toks.len() >= 6 {
                                    t.sample(|| format!("{} | {} -> {}", render(spec), toks_str(spec, &toks), show(tr)));
                                }
                            }
                        }
                    }
                    Err(p) => {
                        t.count("op: sequences with a syntax error");
                        t.eval(toks.len() >= 3 && p >= 2, &(&spec.rules, &spec.prec, &toks));
                        let cs = calls(tr);
                        let bad = cs.iter().skip(1).position(|c| c.ret != "ok");
                        if bad != Some(p) || !cs[p + 1].ret.starts_with("err") {
                            return fail(ci, format!("[{}] has a syntax error at token #{}, got {}", toks_str(spec, &toks), p, show(tr)));
                        }
                    }
                }
            }
            match agree(&ms, c, &tr, false) {
                Agree::Yes(i) => {
                    if fs.is_none() {
                        let acts = tr[0].iter().filter(|e| matches!(e, Ev::R { .. })).count();
                        t.eval(toks.len() >= 3 && acts >= 2, &(&spec.rules, &spec.prec, &toks));
                        t.count(if i[0].is_failed() { "gen: rejected" } else { "gen: accepted" });
                    }
                }
                Agree::Skip(w) => t.count(&format!("skipped: {}", w)),
                Agree::No(m) => return fail(ci, format!("{} on [{}]", m, toks_str(spec, &toks))),
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 20_000), ("op: accepted expressions", 10_000), ("gen: accepted", 3_000)]
    }
}
