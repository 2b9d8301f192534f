//! Plain context-free view of a specification (sugar removed symbolically), plus grammar analyses.
use crate::spec::*;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum C {
    /// any of these terminals (one for a plain terminal); the second field identifies the symbol
    /// as written, to detect overlapping compound symbols
    T(Vec<usize>, u32),
    N(usize),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Origin {
    Rule(usize),
    OptNone,
    OptSome,
}
#[derive(Clone, Debug)]
pub struct CRule {
    pub lhs: usize,
    pub rhs: Vec<C>,
    pub origin: Origin,
    pub prec: Option<(u32, Assoc)>,
}
#[derive(Clone, Debug)]
pub struct Cfg {
    pub nt: usize,
    /// nonterminals: spec nonterminals, then `error` (if used), then one per optional symbol
    pub nn: usize,
    pub error: Option<usize>,
    pub rules: Vec<CRule>,
    pub start: usize,
    pub by_lhs: Vec<Vec<usize>>,
    pub tprec: Vec<Option<(u32, Assoc)>>,
    /// compound members with different precedences (rule precedence then unspecified)
    pub mixed_prec: bool,
    pub nullable: Vec<bool>,
}

impl Cfg {
    pub fn of(spec: &Spec) -> Cfg {
        let nt = spec.terms.len();
        let mut nn = spec.nts.len();
        let error = if spec.uses_error() {
            nn += 1;
            Some(nn - 1)
        } else {
            None
        };
        let tprec = spec.term_prec();
        let mut opts: HashMap<S, usize> = HashMap::new();
        let mut extra: Vec<CRule> = Vec::new();
        let mut rules = Vec::new();
        let mut next_alt = 100_000u32;
        let mut mixed = false;
        let mut sym = |s: &S, mixed: &mut bool| -> C {
            match s {
                S::T(t) => C::T(vec![*t], *t as u32),
                S::N(n) => C::N(*n),
                S::Err => C::N(error.unwrap()),
                S::Alt(v) => {
                    next_alt += 1;
                    if v.iter().any(|t| tprec[*t] != tprec[v[0]]) {
                        *mixed = true;
                    }
                    C::T(v.clone(), next_alt)
                }
                S::Class(c) => {
                    let v = &spec.classes[*c].members;
                    if v.iter().any(|t| tprec[*t] != tprec[v[0]]) {
                        *mixed = true;
                    }
                    C::T(v.clone(), 50_000 + *c as u32)
                }
            }
        };
        let sprec = |s: &C| -> Option<(u32, Assoc)> {
            match s {
                C::T(v, _) => v.iter().find_map(|t| tprec[*t]),
                C::N(_) => None,
            }
        };
        for (ri, r) in spec.rules.iter().enumerate() {
            let mut rhs = Vec::new();
            for i in &r.rhs {
                if i.opt {
                    let n = match opts.get(&i.sym).filter(|_| !matches!(i.sym, S::Alt(_))) {
                        Some(n) => *n,
                        None => {
                            let n = nn;
                            nn += 1;
                            opts.insert(i.sym.clone(), n);
                            let c = sym(&i.sym, &mut mixed);
                            extra.push(CRule { lhs: n, rhs: vec![], origin: Origin::OptNone, prec: None });
                            let p = sprec(&c);
                            extra.push(CRule { lhs: n, rhs: vec![c], origin: Origin::OptSome, prec: p });
                            n
                        }
                    };
                    rhs.push(C::N(n));
                } else {
                    rhs.push(sym(&i.sym, &mut mixed));
                }
            }
            let prec = match r.prec {
                Some(t) => tprec[t],
                None => rhs.iter().find_map(sprec),
            };
            rules.push(CRule { lhs: r.lhs, rhs, origin: Origin::Rule(ri), prec });
        }
        rules.extend(extra);
        let mut by_lhs = vec![vec![]; nn];
        for (i, r) in rules.iter().enumerate() {
            by_lhs[r.lhs].push(i);
        }
        let mut c = Cfg { nt, nn, error, rules, start: spec.start_nt(), by_lhs, tprec, mixed_prec: mixed, nullable: vec![] };
        c.nullable = c.compute_nullable();
        c
    }
    fn compute_nullable(&self) -> Vec<bool> {
        let mut v = vec![false; self.nn];
        loop {
            let mut ch = false;
            for r in &self.rules {
                if !v[r.lhs] && r.rhs.iter().all(|s| matches!(s, C::N(n) if v[*n])) {
                    v[r.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }
    /// A nonterminal derives itself, or itself after a nonempty prefix that derives the empty string:
    /// with the conflicts this causes settled by precedence, a parser may reduce for ever.
    pub fn can_loop(&self) -> bool {
        // edge a -> b: a => (nullable prefix) b rest, where the rest is nullable or the prefix nonempty
        let null = |s: &C| matches!(s, C::N(n) if self.nullable[*n]);
        let mut e = vec![vec![false; self.nn]; self.nn]; // left-reachable
        let mut unit = vec![vec![false; self.nn]; self.nn];
        let mut hidden = vec![];
        for r in &self.rules {
            for (i, s) in r.rhs.iter().enumerate() {
                if let C::N(b) = s {
                    e[r.lhs][*b] = true;
                    if i > 0 {
                        hidden.push((r.lhs, *b));
                    }
                    if r.rhs[i + 1..].iter().all(null) {
                        unit[r.lhs][*b] = true;
                    }
                }
                if !null(s) {
                    break;
                }
            }
        }
        for m in [&mut e, &mut unit] {
            for k in 0..self.nn {
                for i in 0..self.nn {
                    if m[i][k] {
                        for j in 0..self.nn {
                            if m[k][j] {
                                m[i][j] = true;
                            }
                        }
                    }
                }
            }
        }
        (0..self.nn).any(|a| unit[a][a]) || hidden.iter().any(|(a, b)| a == b || e[*b][*a])
    }
    pub fn productive(&self) -> Vec<bool> {
        let mut v = vec![false; self.nn];
        if let Some(e) = self.error {
            v[e] = true;
        }
        loop {
            let mut ch = false;
            for r in &self.rules {
                if !v[r.lhs] && r.rhs.iter().all(|s| match s { C::N(n) => v[*n], _ => true }) {
                    v[r.lhs] = true;
                    ch = true;
                }
            }
            if !ch {
                return v;
            }
        }
    }
    pub fn reachable(&self) -> Vec<bool> {
        let mut v = vec![false; self.nn];
        let mut st = vec![self.start];
        v[self.start] = true;
        while let Some(n) = st.pop() {
            for r in &self.by_lhs[n] {
                for s in &self.rules[*r].rhs {
                    if let C::N(m) = s {
                        if !v[*m] {
                            v[*m] = true;
                            st.push(*m);
                        }
                    }
                }
            }
        }
        v
    }
    /// every nonterminal with rules is reachable, everything reachable is productive, and the start
    /// symbol is not used on a right-hand side
    pub fn reduced(&self) -> bool {
        let p = self.productive();
        let r = self.reachable();
        (0..self.nn).all(|n| if r[n] { p[n] } else { self.by_lhs[n].is_empty() })
            && !self.rules.iter().any(|r| r.rhs.contains(&C::N(self.start)))
            && !self.by_lhs[self.start].is_empty()
    }
    /// minimal sentence length of each rule / nonterminal
    pub fn min_len(&self) -> (Vec<usize>, Vec<usize>) {
        let inf = usize::MAX / 4;
        let mut n = vec![inf; self.nn];
        if let Some(e) = self.error {
            n[e] = 0;
        }
        let mut rl = vec![inf; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in self.rules.iter().enumerate() {
                let l: usize = r.rhs.iter().map(|s| match s { C::N(m) => n[*m], _ => 1 }).fold(0usize, |a, b| (a + b).min(inf));
                if l < rl[i] {
                    rl[i] = l;
                    ch = true;
                }
                if l < n[r.lhs] {
                    n[r.lhs] = l;
                    ch = true;
                }
            }
            if !ch {
                return (rl, n);
            }
        }
    }
    /// random sentence by top-down derivation; below the depth budget only cheapest rules are used
    pub fn sentence(&self, s: &mut crate::choice::Src, budget: usize) -> Vec<usize> {
        self.sentence_noise(s, budget, 0)
    }
    /// the same; `error` yields up to `noise` random terminals
    pub fn sentence_noise(&self, s: &mut crate::choice::Src, budget: usize, noise: usize) -> Vec<usize> {
        self.derive(C::N(self.start), s, budget, noise, &self.min_len(), &std::cell::OnceCell::new())
    }
    /// a sentence of `from`, as above, given what min_len and heights return
    pub fn derive(&self, from: C, s: &mut crate::choice::Src, budget: usize, noise: usize, (rl, nl): &(Vec<usize>, Vec<usize>), hs: &std::cell::OnceCell<Vec<usize>>) -> Vec<usize> {
        let mut out = Vec::new();
        let mut st: Vec<C> = vec![from];
        let mut left = budget as i64;
        let mut steps = 0;
        while let Some(c) = st.pop() {
            match c {
                C::T(v, _) => {
                    out.push(v[s.below(v.len())]);
                }
                C::N(n) => {
                    if Some(n) == self.error {
                        for _ in 0..s.below(noise.min(self.nt) + 1) {
                            out.push(s.below(self.nt));
                        }
                        continue;
                    }
                    steps += 1;
                    let rs: Vec<usize> = self.by_lhs[n].iter().copied().filter(|r| rl[*r] < usize::MAX / 4).collect();
                    let pending: usize = st.iter().map(|c| match c { C::N(m) => nl[*m], _ => 1 }).sum();
                    let r = if left > 0 && steps < budget * 6 + 50 && out.len() + pending < budget * 2 + 20 {
                        // usually prefer a longer rule while there is budget
                        let a = *s.pick(&rs);
                        let b = *s.pick(&rs);
                        if s.chance(60) && self.rules[b].rhs.len() > self.rules[a].rhs.len() { b } else { a }
                    } else {
                        // strictly decreasing choice: a rule of minimal length whose derivation height is minimal
                        let best = rs.iter().map(|r| rl[*r]).min().unwrap();
                        let hs = hs.get_or_init(|| self.heights());
                        *rs.iter().filter(|r| rl[**r] == best).min_by_key(|r| hs[**r]).unwrap()
                    };
                    left -= 1;
                    for c in self.rules[r].rhs.iter().rev() {
                        st.push(c.clone());
                    }
                }
            }
        }
        out
    }
    /// minimal derivation height of each rule
    pub fn heights(&self) -> Vec<usize> {
        let inf = usize::MAX / 4;
        let mut n = vec![inf; self.nn];
        if let Some(e) = self.error {
            n[e] = 0;
        }
        let (rl, nl) = self.min_len();
        let mut h = vec![inf; self.rules.len()];
        loop {
            let mut ch = false;
            for (i, r) in self.rules.iter().enumerate() {
                let x = 1 + r.rhs.iter().map(|s| match s { C::N(m) => n[*m], _ => 0 }).max().unwrap_or(0);
                let x = x.min(inf);
                if x < h[i] {
                    h[i] = x;
                    ch = true;
                }
                // height through minimal-length rules only, so that the choice above terminates
                if rl[i] == nl[r.lhs] && x < n[r.lhs] {
                    n[r.lhs] = x;
                    ch = true;
                }
            }
            if !ch {
                return h;
            }
        }
    }
}

pub fn bits(n: usize) -> Bits {
    Bits(vec![0; (n + 63) / 64])
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Bits(pub Vec<u64>);
impl Bits {
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64);
    }
    pub fn get(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let n = *a | *b;
            ch |= n != *a;
            *a = n;
        }
        ch
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        self.0.iter().enumerate().flat_map(|(w, x)| (0..64).filter(move |b| x >> b & 1 == 1).map(move |b| w * 64 + b))
    }
}
