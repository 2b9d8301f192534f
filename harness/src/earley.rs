//! Earley recogniser over the plain grammar: an oracle for membership and viable prefixes that knows
//! nothing about LR automata, and a derivation-tree builder over its chart.
use crate::cfg::*;
use std::collections::HashSet;

type It = (usize, usize, usize); // rule, dot, origin
pub struct Earley<'a> {
    g: &'a Cfg,
    pub cols: Vec<Vec<It>>,
    sets: Vec<HashSet<It>>,
    pub input: Vec<usize>,
}
impl<'a> Earley<'a> {
    pub fn new(g: &'a Cfg) -> Earley<'a> {
        let mut e = Earley { g, cols: vec![], sets: vec![], input: vec![] };
        let k: Vec<It> = g.by_lhs[g.start].iter().map(|r| (*r, 0, 0)).collect();
        e.close(k);
        e
    }
    fn close(&mut self, init: Vec<It>) {
        let here = self.cols.len();
        let mut col = Vec::new();
        let mut set = HashSet::new();
        for i in init {
            if set.insert(i) {
                col.push(i);
            }
        }
        let mut k = 0;
        while k < col.len() {
            let (r, d, o) = col[k];
            k += 1;
            match self.g.rules[r].rhs.get(d) {
                Some(C::N(n)) => {
                    for r2 in &self.g.by_lhs[*n] {
                        let i = (*r2, 0, here);
                        if set.insert(i) {
                            col.push(i);
                        }
                    }
                    if self.g.nullable[*n] {
                        let i = (r, d + 1, o);
                        if set.insert(i) {
                            col.push(i);
                        }
                    }
                }
                Some(C::T(..)) => {}
                None => {
                    let lhs = self.g.rules[r].lhs;
                    if o == here {
                        // completed empty item: handled through `nullable`
                        continue;
                    }
                    for j in 0..self.cols[o].len() {
                        let (r2, d2, o2) = self.cols[o][j];
                        if self.g.rules[r2].rhs.get(d2) == Some(&C::N(lhs)) {
                            let i = (r2, d2 + 1, o2);
                            if set.insert(i) {
                                col.push(i);
                            }
                        }
                    }
                }
            }
        }
        self.cols.push(col);
        self.sets.push(set);
    }
    /// Appends a token; false if the result is not a viable prefix (then nothing changed).
    pub fn push(&mut self, t: usize) -> bool {
        let mut next = Vec::new();
        for (r, d, o) in self.cols.last().unwrap() {
            if let Some(C::T(v, _)) = self.g.rules[*r].rhs.get(*d) {
                if v.contains(&t) {
                    next.push((*r, d + 1, *o));
                }
            }
        }
        if next.is_empty() {
            return false;
        }
        self.input.push(t);
        self.close(next);
        true
    }
    pub fn pop(&mut self) {
        self.cols.pop();
        self.sets.pop();
        self.input.pop();
    }
    pub fn accepts(&self) -> bool {
        self.cols
            .last()
            .unwrap()
            .iter()
            .any(|(r, d, o)| *o == 0 && self.g.rules[*r].lhs == self.g.start && *d == self.g.rules[*r].rhs.len())
    }
    /// viable next terminals
    pub fn next(&self) -> Vec<usize> {
        let mut v = vec![false; self.g.nt];
        for (r, d, _) in self.cols.last().unwrap() {
            if let Some(C::T(ts, _)) = self.g.rules[*r].rhs.get(*d) {
                for t in ts {
                    v[*t] = true;
                }
            }
        }
        (0..self.g.nt).filter(|t| v[*t]).collect()
    }
    fn complete(&self, n: usize, i: usize, j: usize) -> Vec<usize> {
        self.g.by_lhs[n]
            .iter()
            .copied()
            .filter(|r| {
                let l = self.g.rules[*r].rhs.len();
                self.sets[j].contains(&(*r, l, i))
                    || (i == j && self.g.rules[*r].rhs.iter().all(|c| matches!(c, C::N(m) if self.g.nullable[*m])))
            })
            .collect()
    }
    /// The unique derivation tree of the current input (None: none; Err: ambiguous).
    pub fn tree(&self) -> Option<Result<Tree, ()>> {
        if !self.accepts() {
            return None;
        }
        let n = self.input.len();
        let mut steps = 0;
        let mut v = self.trees(self.g.start, 0, n, &mut Vec::new(), &mut steps);
        match v.len() {
            1 => Some(Ok(v.pop().unwrap())),
            _ => Some(Err(())),
        }
    }
    /// at most two derivations of n over [i,j)
    fn trees(&self, n: usize, i: usize, j: usize, stack: &mut Vec<(usize, usize, usize)>, steps: &mut usize) -> Vec<Tree> {
        *steps += 1;
        if stack.contains(&(n, i, j)) || *steps > 200_000 {
            return vec![]; // cyclic derivation: cannot occur in an LALR(1) grammar
        }
        stack.push((n, i, j));
        let mut out = Vec::new();
        for r in self.complete(n, i, j) {
            for kids in self.splits(r, 0, i, j, stack, steps) {
                out.push(Tree { rule: r, kids, from: i, to: j });
                if out.len() >= 2 {
                    break;
                }
            }
        }
        stack.pop();
        out
    }
    fn splits(&self, r: usize, d: usize, i: usize, j: usize, stack: &mut Vec<(usize, usize, usize)>, steps: &mut usize) -> Vec<Vec<Kid>> {
        let rhs = &self.g.rules[r].rhs;
        if d == rhs.len() {
            return if i == j { vec![vec![]] } else { vec![] };
        }
        let mut out: Vec<Vec<Kid>> = Vec::new();
        match &rhs[d] {
            C::T(v, _) => {
                if i < j && v.contains(&self.input[i]) {
                    for rest in self.splits(r, d + 1, i + 1, j, stack, steps) {
                        let mut k = vec![Kid::T(i)];
                        k.extend(rest);
                        out.push(k);
                    }
                }
            }
            C::N(n) => {
                for m in i..=j {
                    // prune on the chart before recursing
                    if self.complete(*n, i, m).is_empty() {
                        continue;
                    }
                    let rests = self.splits(r, d + 1, m, j, stack, steps);
                    if rests.is_empty() {
                        continue;
                    }
                    let ts = self.trees(*n, i, m, stack, steps);
                    for t in &ts {
                        for rest in &rests {
                            let mut k = vec![Kid::N(t.clone())];
                            k.extend(rest.clone());
                            out.push(k);
                            if out.len() >= 2 {
                                return out;
                            }
                        }
                    }
                }
            }
        }
        out
    }
}
#[derive(Clone, Debug)]
pub struct Tree {
    pub rule: usize,
    pub kids: Vec<Kid>,
    pub from: usize,
    pub to: usize,
}
#[derive(Clone, Debug)]
pub enum Kid {
    T(usize),
    N(Tree),
}
