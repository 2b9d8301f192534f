//! Reference LALR(1) construction (DeRemer–Pennello lookaheads over the LR(0) automaton) and the
//! documented conflict resolution.  Written independently from the propagation-link algorithm in
//! pomelo; `canonical_lookaheads` (merged canonical LR(1)) is a second, slower derivation used to
//! cross-check it.
use crate::cfg::*;
use crate::spec::Assoc;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type LItem = (usize, usize);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cell {
    Err,
    /// explicit error from %nonassoc
    Non,
    Shift(usize),
    Reduce(usize),
}
#[derive(Clone, Debug)]
pub struct Conflict {
    pub state: usize,
    pub term: usize, // index; eoi = nt
    pub shift: bool,
    pub reduces: Vec<usize>,
    pub resolved: bool,
}
pub struct Lalr {
    pub kernels: Vec<Vec<LItem>>,
    pub closures: Vec<Vec<LItem>>,
    /// terminal successors, nonterminal successors
    pub tgo: Vec<BTreeMap<usize, usize>>,
    pub ngo: Vec<BTreeMap<usize, usize>>,
    /// (state, rule) -> lookahead set over terminals + eoi (index nt)
    pub la: HashMap<(usize, usize), Bits>,
    pub conflicts: Vec<Conflict>,
    pub table: Vec<Vec<Cell>>,
    /// a cell had three or more competing actions
    pub crowded: bool,
    /// two different symbols in one state share a terminal
    pub overlap: bool,
    pub can_reduce: Vec<bool>,
}

pub fn closure(g: &Cfg, k: &[LItem]) -> Vec<LItem> {
    let mut v: Vec<LItem> = k.to_vec();
    let mut seen: BTreeSet<LItem> = v.iter().copied().collect();
    let mut done = vec![false; g.nn];
    let mut i = 0;
    while i < v.len() {
        let (r, d) = v[i];
        i += 1;
        if let Some(C::N(n)) = g.rules[r].rhs.get(d) {
            if !done[*n] {
                done[*n] = true;
                for r2 in &g.by_lhs[*n] {
                    if seen.insert((*r2, 0)) {
                        v.push((*r2, 0));
                    }
                }
            }
        }
    }
    v
}

impl Lalr {
    pub fn build(g: &Cfg) -> Lalr {
        Self::build_limited(g, usize::MAX).unwrap()
    }
    pub fn build_limited(g: &Cfg, max_states: usize) -> Option<Lalr> {
        let mut kernels: Vec<Vec<LItem>> = Vec::new();
        let mut closures = Vec::new();
        let mut index: HashMap<Vec<LItem>, usize> = HashMap::new();
        let mut tgo: Vec<BTreeMap<usize, usize>> = Vec::new();
        let mut ngo: Vec<BTreeMap<usize, usize>> = Vec::new();
        let mut overlap = false;
        let k0: Vec<LItem> = g.by_lhs[g.start].iter().map(|r| (*r, 0)).collect();
        index.insert(k0.clone(), 0);
        kernels.push(k0);
        let mut s = 0;
        while s < kernels.len() {
            if kernels.len() > max_states {
                return None;
            }
            let cl = closure(g, &kernels[s]);
            let mut t: BTreeMap<usize, BTreeSet<LItem>> = BTreeMap::new();
            let mut n: BTreeMap<usize, BTreeSet<LItem>> = BTreeMap::new();
            let mut tsym: HashMap<usize, u32> = HashMap::new();
            for (r, d) in &cl {
                match g.rules[*r].rhs.get(*d) {
                    None => {}
                    Some(C::T(v, id)) => {
                        for x in v {
                            t.entry(*x).or_default().insert((*r, d + 1));
                            if *tsym.entry(*x).or_insert(*id) != *id {
                                overlap = true;
                            }
                        }
                    }
                    Some(C::N(m)) => {
                        n.entry(*m).or_default().insert((*r, d + 1));
                    }
                }
            }
            let mut get = |k: BTreeSet<LItem>, kernels: &mut Vec<Vec<LItem>>| -> usize {
                let k: Vec<LItem> = k.into_iter().collect();
                if let Some(i) = index.get(&k) {
                    return *i;
                }
                let i = kernels.len();
                index.insert(k.clone(), i);
                kernels.push(k);
                i
            };
            let mut tm = BTreeMap::new();
            for (x, k) in t {
                tm.insert(x, get(k, &mut kernels));
            }
            let mut nm = BTreeMap::new();
            for (x, k) in n {
                nm.insert(x, get(k, &mut kernels));
            }
            tgo.push(tm);
            ngo.push(nm);
            closures.push(cl);
            s += 1;
        }
        let mut l = Lalr {
            kernels,
            closures,
            tgo,
            ngo,
            la: HashMap::new(),
            conflicts: vec![],
            table: vec![],
            crowded: false,
            overlap,
            can_reduce: vec![false; g.rules.len()],
        };
        l.lookaheads(g);
        l.fill(g);
        Some(l)
    }
    fn steps(&self, qs: &[usize], c: &C) -> Vec<usize> {
        let mut o: Vec<usize> = Vec::new();
        for s in qs {
            match c {
                C::T(v, _) => o.extend(v.iter().map(|t| self.tgo[*s][t])),
                C::N(n) => o.push(self.ngo[*s][n]),
            }
        }
        o.sort();
        o.dedup();
        o
    }
    fn lookaheads(&mut self, g: &Cfg) {
        let nb = g.nt + 1;
        // nonterminal transitions
        let mut tr: Vec<(usize, usize)> = Vec::new();
        let mut id: HashMap<(usize, usize), usize> = HashMap::new();
        for (s, m) in self.ngo.iter().enumerate() {
            for n in m.keys() {
                id.insert((s, *n), tr.len());
                tr.push((s, *n));
            }
        }
        let mut read: Vec<Bits> = tr
            .iter()
            .map(|(s, n)| {
                let mut b = bits(nb);
                for t in self.tgo[self.ngo[*s][n]].keys() {
                    b.set(*t);
                }
                b
            })
            .collect();
        // reads relation
        let reads: Vec<Vec<usize>> = tr
            .iter()
            .map(|(s, n)| {
                let r = self.ngo[*s][n];
                self.ngo[r].keys().filter(|m| g.nullable[**m]).map(|m| id[&(r, *m)]).collect()
            })
            .collect();
        fix(&mut read, &reads);
        // includes and lookback
        let mut includes: Vec<Vec<usize>> = vec![vec![]; tr.len()];
        let mut lookback: HashMap<(usize, usize), Vec<usize>> = HashMap::new();
        let walk = |l: &Lalr, p: usize, a: usize, me: usize, includes: &mut Vec<Vec<usize>>, lookback: &mut HashMap<(usize, usize), Vec<usize>>| {
            for r in &g.by_lhs[a] {
                let rhs = &g.rules[*r].rhs;
                let mut qs = vec![p];
                for (i, c) in rhs.iter().enumerate() {
                    if let C::N(n) = c {
                        let rest_null = rhs[i + 1..].iter().all(|c| matches!(c, C::N(m) if g.nullable[*m]));
                        if rest_null {
                            for q in &qs {
                                includes[id[&(*q, *n)]].push(me);
                            }
                        }
                    }
                    qs = l.steps(&qs, c);
                }
                for q in qs {
                    lookback.entry((q, *r)).or_default().push(me);
                }
            }
        };
        for (i, (p, a)) in tr.iter().enumerate() {
            walk(self, *p, *a, i, &mut includes, &mut lookback);
        }
        // the virtual transition (0, start), followed by end of input
        let eoi = tr.len();
        tr.push((0, g.start));
        let mut b = bits(nb);
        b.set(g.nt);
        read.push(b);
        includes.push(vec![]);
        walk(self, 0, g.start, eoi, &mut includes, &mut lookback);
        let mut follow = read;
        fix(&mut follow, &includes);
        for (k, v) in lookback {
            let mut b = bits(nb);
            for t in v {
                b.or(&follow[t]);
            }
            self.la.insert(k, b);
        }
    }
    fn fill(&mut self, g: &Cfg) {
        for s in 0..self.kernels.len() {
            let mut reds: Vec<usize> = self.closures[s].iter().filter(|(r, d)| *d == g.rules[*r].rhs.len()).map(|x| x.0).collect();
            reds.sort();
            let mut row = vec![Cell::Err; g.nt + 1];
            for t in 0..=g.nt {
                let sh = if t < g.nt { self.tgo[s].get(&t).copied() } else { None };
                let rs: Vec<usize> = reds.iter().copied().filter(|r| self.la.get(&(s, *r)).map_or(false, |b| b.get(t))).collect();
                let n = rs.len() + sh.is_some() as usize;
                if n >= 3 {
                    self.crowded = true;
                }
                row[t] = match (sh, &rs[..]) {
                    (None, []) => Cell::Err,
                    (Some(x), []) => Cell::Shift(x),
                    (None, [r]) => Cell::Reduce(*r),
                    (Some(x), [r, ..]) => {
                        let tp = g.tprec[t];
                        let rp = g.rules[*r].prec;
                        let (c, ok) = match (tp, rp) {
                            (Some((a, assoc)), Some((b, _))) => {
                                if a > b {
                                    (Cell::Shift(x), true)
                                } else if a < b {
                                    (Cell::Reduce(*r), true)
                                } else {
                                    match assoc {
                                        Assoc::Left => (Cell::Reduce(*r), true),
                                        Assoc::Right => (Cell::Shift(x), true),
                                        Assoc::Non => (Cell::Non, true),
                                    }
                                }
                            }
                            _ => (Cell::Shift(x), false),
                        };
                        self.conflicts.push(Conflict { state: s, term: t, shift: true, reduces: rs.clone(), resolved: ok && n == 2 });
                        c
                    }
                    (None, [a, b, ..]) => {
                        let (c, ok) = match (g.rules[*a].prec, g.rules[*b].prec) {
                            (Some((pa, _)), Some((pb, _))) if pa != pb => (Cell::Reduce(if pa > pb { *a } else { *b }), true),
                            _ => (Cell::Reduce(*a), false),
                        };
                        self.conflicts.push(Conflict { state: s, term: t, shift: false, reduces: rs.clone(), resolved: ok && n == 2 });
                        c
                    }
                };
                if let Cell::Reduce(r) = row[t] {
                    self.can_reduce[r] = true;
                }
            }
            self.table.push(row);
        }
    }
    pub fn unresolved(&self) -> bool {
        self.conflicts.iter().any(|c| !c.resolved)
    }
    /// accepted by a correct generator
    pub fn ok(&self) -> bool {
        !self.unresolved() && self.can_reduce.iter().all(|x| *x)
    }
    /// no precedence needed at all
    pub fn plain(&self) -> bool {
        self.conflicts.is_empty() && self.can_reduce.iter().all(|x| *x) && !self.overlap
    }
    /// grammar features used to steer and to classify generation
    pub fn slr(&self, g: &Cfg) -> bool {
        // FOLLOW sets
        let mut first: Vec<Bits> = vec![bits(g.nt + 1); g.nn];
        loop {
            let mut ch = false;
            for r in &g.rules {
                for c in &r.rhs {
                    match c {
                        C::T(v, _) => {
                            for t in v {
                                if !first[r.lhs].get(*t) {
                                    first[r.lhs].set(*t);
                                    ch = true;
                                }
                            }
                            break;
                        }
                        C::N(n) => {
                            let b = first[*n].clone();
                            ch |= first[r.lhs].or(&b);
                            if !g.nullable[*n] {
                                break;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut follow: Vec<Bits> = vec![bits(g.nt + 1); g.nn];
        follow[g.start].set(g.nt);
        loop {
            let mut ch = false;
            for r in &g.rules {
                for (i, c) in r.rhs.iter().enumerate() {
                    if let C::N(n) = c {
                        let mut rest = true;
                        for d in &r.rhs[i + 1..] {
                            match d {
                                C::T(v, _) => {
                                    for t in v {
                                        if !follow[*n].get(*t) {
                                            follow[*n].set(*t);
                                            ch = true;
                                        }
                                    }
                                    rest = false;
                                }
                                C::N(m) => {
                                    let b = first[*m].clone();
                                    ch |= follow[*n].or(&b);
                                    rest = g.nullable[*m];
                                }
                            }
                            if !rest {
                                break;
                            }
                        }
                        if rest {
                            let b = follow[r.lhs].clone();
                            ch |= follow[*n].or(&b);
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        for s in 0..self.kernels.len() {
            let mut seen = bits(g.nt + 1);
            for t in self.tgo[s].keys() {
                seen.set(*t);
            }
            for (r, d) in &self.closures[s] {
                if *d == g.rules[*r].rhs.len() {
                    for t in follow[g.rules[*r].lhs].iter() {
                        if seen.get(t) {
                            return false;
                        }
                    }
                    let f = follow[g.rules[*r].lhs].clone();
                    seen.or(&f);
                }
            }
        }
        true
    }
    /// LALR(1) lookaheads by merging canonical LR(1) item sets (None if too big)
    pub fn canonical_lookaheads(&self, g: &Cfg, max: usize) -> Option<HashMap<(usize, usize), Bits>> {
        type I = (usize, usize, usize);
        let mut first: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); g.nn];
        loop {
            let mut ch = false;
            for r in &g.rules {
                for c in &r.rhs {
                    match c {
                        C::T(v, _) => {
                            for t in v {
                                ch |= first[r.lhs].insert(*t);
                            }
                            break;
                        }
                        C::N(n) => {
                            for t in first[*n].clone() {
                                ch |= first[r.lhs].insert(t);
                            }
                            if !g.nullable[*n] {
                                break;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let clos = |k: &BTreeSet<I>| -> BTreeSet<I> {
            let mut s = k.clone();
            let mut w: Vec<I> = k.iter().copied().collect();
            while let Some((r, d, la)) = w.pop() {
                if let Some(C::N(n)) = g.rules[r].rhs.get(d) {
                    let mut las = BTreeSet::new();
                    let mut through = true;
                    for c in &g.rules[r].rhs[d + 1..] {
                        match c {
                            C::T(v, _) => {
                                las.extend(v.iter().copied());
                                through = false;
                            }
                            C::N(m) => {
                                las.extend(first[*m].iter().copied());
                                through = g.nullable[*m];
                            }
                        }
                        if !through {
                            break;
                        }
                    }
                    if through {
                        las.insert(la);
                    }
                    for r2 in &g.by_lhs[*n] {
                        for l in &las {
                            if s.insert((*r2, 0, *l)) {
                                w.push((*r2, 0, *l));
                            }
                        }
                    }
                }
            }
            s
        };
        let mut out: HashMap<(usize, usize), Bits> = HashMap::new();
        let core: HashMap<Vec<LItem>, usize> = self.kernels.iter().cloned().enumerate().map(|(i, k)| (k, i)).collect();
        let k0: BTreeSet<I> = g.by_lhs[g.start].iter().map(|r| (*r, 0, g.nt)).collect();
        let mut seen: HashMap<BTreeSet<I>, ()> = HashMap::new();
        let mut work = vec![k0.clone()];
        seen.insert(k0, ());
        while let Some(k) = work.pop() {
            if seen.len() > max {
                return None;
            }
            let ck: BTreeSet<LItem> = k.iter().map(|x| (x.0, x.1)).collect();
            let s = core[&ck.into_iter().collect::<Vec<_>>()];
            let cl = clos(&k);
            let mut succ: BTreeMap<(u8, usize), BTreeSet<I>> = BTreeMap::new();
            for (r, d, l) in &cl {
                match g.rules[*r].rhs.get(*d) {
                    None => {
                        out.entry((s, *r)).or_insert_with(|| bits(g.nt + 1)).set(*l);
                    }
                    Some(C::T(v, _)) => {
                        for t in v {
                            succ.entry((0, *t)).or_default().insert((*r, d + 1, *l));
                        }
                    }
                    Some(C::N(n)) => {
                        succ.entry((1, *n)).or_default().insert((*r, d + 1, *l));
                    }
                }
            }
            for (_, k) in succ {
                if !seen.contains_key(&k) {
                    seen.insert(k.clone(), ());
                    work.push(k);
                }
            }
        }
        Some(out)
    }
}

/// least solution of F(x) ⊇ F(y) for y in rel(x)
fn fix(f: &mut [Bits], rel: &[Vec<usize>]) {
    loop {
        let mut ch = false;
        for x in 0..rel.len() {
            for k in 0..rel[x].len() {
                let y = rel[x][k];
                if y != x {
                    let b = f[y].clone();
                    ch |= f[x].or(&b);
                }
            }
        }
        if !ch {
            return;
        }
    }
}
