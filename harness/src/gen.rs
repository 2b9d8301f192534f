//! Grammar and input generators.
use crate::cfg::*;
use crate::choice::Src;
use crate::earley::Earley;
use crate::lalr::*;
use crate::spec::*;

const TNAMES: [&str; 12] = ["Plus", "A", "Semi", "LParen", "Number", "X1", "B", "Kw_If", "Error", "Zz", "None_", "Parser"];
const NNAMES: [&str; 10] = ["input", "expr", "list", "stmt", "x", "item_1", "block", "args", "parser", "token"];

pub fn tname(s: &mut Src, i: usize) -> String {
    if s.chance(25) {
        format!("{}{}", TNAMES[s.below(TNAMES.len())], i)
    } else {
        format!("T{}", i)
    }
}
pub fn nname(s: &mut Src, i: usize) -> String {
    if s.chance(25) {
        format!("{}{}", NNAMES[s.below(NNAMES.len())], i)
    } else {
        format!("n{}", i)
    }
}
pub fn it(sym: S) -> Item {
    Item { sym, opt: false, alias: Alias::No }
}
pub fn rule(lhs: usize, rhs: Vec<Item>) -> Rule {
    Rule { lhs, rhs, code: Code::None, prec: None, id: 0 }
}
pub fn renumber(spec: &mut Spec) {
    for (i, r) in spec.rules.iter_mut().enumerate() {
        r.id = i;
    }
}

/// Removes unproductive and unreachable rules and then unused symbols. None if nothing is left.
pub fn clean(mut spec: Spec) -> Option<Spec> {
    if spec.rules.is_empty() {
        return None;
    }
    let start = spec.start_nt();
    let had_start = spec.start.is_some();
    spec.start = Some(start);
    let g = Cfg::of(&spec);
    let p = g.productive();
    let keep: Vec<bool> = g
        .rules
        .iter()
        .take(spec.rules.len())
        .map(|r| {
            r.rhs.iter().all(|c| match c {
                C::N(n) => p[*n],
                _ => true,
            })
        })
        .collect();
    let mut i = 0;
    spec.rules.retain(|_| {
        i += 1;
        keep[i - 1]
    });
    if !spec.rules.iter().any(|r| r.lhs == start) {
        return None;
    }
    let g = Cfg::of(&spec);
    let r = g.reachable();
    spec.rules.retain(|x| r[x.lhs]);
    // drop duplicate rules
    let mut seen = std::collections::HashSet::new();
    spec.rules.retain(|x| seen.insert((x.lhs, x.rhs.clone())));
    if !had_start {
        // default start symbol: first rule
        let pos = spec.rules.iter().position(|r| r.lhs == start).unwrap();
        let r = spec.rules.remove(pos);
        spec.rules.insert(0, r);
        spec.start = None;
    }
    compact(&mut spec);
    Some(spec)
}
/// Removes unused nonterminals, classes and terminals.
pub fn compact(spec: &mut Spec) {
    compact_keep(spec, &[]);
}
/// The same, keeping the given terminals; returns the renumbering of the terminals.
pub fn compact_keep(spec: &mut Spec, keep: &[usize]) -> Vec<usize> {
    let mut un = vec![false; spec.nts.len()];
    let mut ut = vec![false; spec.terms.len()];
    keep.iter().for_each(|t| ut[*t] = true);
    let mut uc = vec![false; spec.classes.len()];
    if let Some(s) = spec.start {
        un[s] = true;
    }
    for r in &spec.rules {
        un[r.lhs] = true;
        for i in &r.rhs {
            match &i.sym {
                S::T(t) => ut[*t] = true,
                S::N(n) => un[*n] = true,
                S::Alt(v) => v.iter().for_each(|t| ut[*t] = true),
                S::Class(c) => {
                    uc[*c] = true;
                    spec.classes[*c].members.iter().for_each(|t| ut[*t] = true)
                }
                S::Err => {}
            }
        }
        if let Some(p) = r.prec {
            ut[p] = true;
        }
    }
    for (_, v) in &spec.prec {
        v.iter().for_each(|t| ut[*t] = true);
    }
    for (f, v) in &spec.fallback {
        ut[*f] = true;
        v.iter().for_each(|t| ut[*t] = true);
    }
    if let Some(w) = spec.wildcard {
        ut[w] = true;
    }
    fn remap(u: &[bool]) -> Vec<usize> {
        let mut k = 0;
        u.iter()
            .map(|b| {
                if *b {
                    k += 1;
                    k - 1
                } else {
                    usize::MAX
                }
            })
            .collect()
    }
    let (mt, mn, mc) = (remap(&ut), remap(&un), remap(&uc));
    let mut i = 0;
    spec.terms.retain(|_| {
        i += 1;
        ut[i - 1]
    });
    i = 0;
    spec.nts.retain(|_| {
        i += 1;
        un[i - 1]
    });
    i = 0;
    spec.classes.retain(|_| {
        i += 1;
        uc[i - 1]
    });
    for c in &mut spec.classes {
        c.members.iter_mut().for_each(|t| *t = mt[*t]);
    }
    for r in &mut spec.rules {
        r.lhs = mn[r.lhs];
        for it in &mut r.rhs {
            match &mut it.sym {
                S::T(t) => *t = mt[*t],
                S::N(n) => *n = mn[*n],
                S::Alt(v) => v.iter_mut().for_each(|t| *t = mt[*t]),
                S::Class(c) => *c = mc[*c],
                S::Err => {}
            }
        }
        if let Some(p) = &mut r.prec {
            *p = mt[*p];
        }
    }
    if let Some(s) = &mut spec.start {
        *s = mn[*s];
    }
    for (_, v) in &mut spec.prec {
        v.iter_mut().for_each(|t| *t = mt[*t]);
    }
    for (f, v) in &mut spec.fallback {
        *f = mt[*f];
        v.iter_mut().for_each(|t| *t = mt[*t]);
    }
    if let Some(w) = &mut spec.wildcard {
        *w = mt[*w];
    }
    mt
}

#[derive(Clone)]
pub struct GenP {
    pub max_t: usize,
    pub max_n: usize,
    pub sugar: usize,
    pub error: usize,
}
impl Default for GenP {
    fn default() -> Self {
        GenP { max_t: 6, max_n: 5, sugar: 0, error: 0 }
    }
}

/// Unbiased random CFG (may well be ambiguous); symbols named, no types.
pub fn random_cfg(s: &mut Src, p: &GenP) -> Option<Spec> {
    clean(random_raw(s, p))
}
/// The same without removing unproductive, unreachable or duplicate rules.
pub fn random_raw(s: &mut Src, p: &GenP) -> Spec {
    let nt = s.range(2, p.max_t);
    let nn = s.range(1, p.max_n);
    let mut spec = Spec::empty();
    for i in 0..nt {
        let name = tname(s, i);
        spec.terms.push(Sym { name, ty: Ty::Unset });
    }
    for i in 0..nn + 1 {
        let name = nname(s, i);
        spec.nts.push(Sym { name, ty: Ty::Unset });
    }
    if p.sugar > 0 && s.chance(25 + p.sugar) && nt >= 3 {
        for k in 0..s.range(1, 2) {
            let n = s.range(2, 3.min(nt));
            let mut v: Vec<usize> = (0..nt).collect();
            s.shuffle(&mut v);
            v.truncate(n);
            spec.classes.push(Class { name: format!("Cls{}", k), members: v });
        }
    }
    let tw = s.range(35, 75);
    let empt = s.range(2, 25);
    for n in 0..=nn {
        let k = if n == 0 { s.range(1, 2) } else { s.range(1, 3) + s.chance(15) as usize };
        for _ in 0..k {
            let len = if s.chance(empt) { 0 } else { s.weighted(&[35, 35, 22, 8]) + 1 };
            let mut rhs = Vec::new();
            for _ in 0..len {
                let sym = if p.error > 0 && s.chance(p.error) {
                    S::Err
                } else if s.chance(tw) {
                    if s.chance(p.sugar) && nt >= 3 {
                        if !spec.classes.is_empty() && s.chance(65) {
                            S::Class(s.below(spec.classes.len()))
                        } else {
                            let mut v: Vec<usize> = (0..nt).collect();
                            s.shuffle(&mut v);
                            v.truncate(s.range(2, 3));
                            S::Alt(v)
                        }
                    } else {
                        S::T(s.below(nt))
                    }
                } else {
                    S::N(1 + s.below(nn))
                };
                let mut i = it(sym);
                if i.sym != S::Err && s.chance(p.sugar) {
                    i.opt = true;
                }
                rhs.push(i);
            }
            spec.rules.push(rule(n, rhs));
        }
    }
    // the start symbol is nonterminal 0, which never occurs on a right-hand side; place it either
    // first or under %start_symbol
    if s.chance(40) {
        spec.start = Some(0);
        s.shuffle(&mut spec.rules);
    }
    spec
}
/// Contexts p_i and nonterminals n_j that all derive the same string, told apart by a suffix token
/// that depends on (i, j): LALR(1), LR(1) but not LALR(1), or ambiguous, depending on the choices.
pub fn merging_cfg(s: &mut Src) -> Spec {
    let mut spec = Spec::empty();
    let (np, nj, ns, nw) = (s.range(1, 3), s.range(2, 3), s.range(2, 5), s.range(1, 2));
    let nt = np + ns + nw;
    for i in 0..nt {
        let name = tname(s, i);
        spec.terms.push(Sym { name, ty: Ty::Unset });
    }
    for i in 0..nj + 2 {
        let name = nname(s, i);
        spec.nts.push(Sym { name, ty: Ty::Unset });
    }
    let w: Vec<usize> = (0..s.range(0, 2)).map(|_| np + ns + s.below(nw)).collect();
    let mut seen = std::collections::HashSet::new();
    let first = if s.chance(30) {
        spec.rules.push(rule(0, vec![it(S::N(1))]));
        1
    } else {
        0
    };
    for i in 0..np {
        for j in 0..nj {
            if s.chance(25) {
                continue;
            }
            let sfx = s.below(ns + 1);
            let mut rhs = vec![it(S::T(i)), it(S::N(2 + j))];
            if sfx < ns {
                rhs.push(it(S::T(np + sfx)));
            }
            if seen.insert(rhs.clone()) {
                spec.rules.push(rule(first, rhs));
            }
        }
    }
    for j in 0..nj {
        spec.rules.push(rule(2 + j, w.iter().map(|t| it(S::T(*t))).collect()));
    }
    spec
}
/// Random precedence directives and rule overrides.
pub fn precedences(s: &mut Src, spec: &mut Spec) {
    if spec.terms.is_empty() {
        return;
    }
    let pc = *s.pick(&[100, 100, 80, 50]);
    let pseudo = if s.chance(25) {
        spec.terms.push(Sym { name: "Pseudo".into(), ty: Ty::Unset });
        Some(spec.terms.len() - 1)
    } else {
        None
    };
    let mut ts: Vec<usize> = (0..spec.terms.len()).filter(|_| s.chance(pc)).collect();
    s.shuffle(&mut ts);
    let nl = s.range(1, 4);
    spec.prec = (0..nl).map(|_| (*s.pick(&[Assoc::Left, Assoc::Left, Assoc::Right, Assoc::Right, Assoc::Non]), vec![])).collect();
    for t in ts {
        spec.prec[s.below(nl)].1.push(t);
    }
    spec.prec.retain(|p| !p.1.is_empty());
    let po = *s.pick(&[0, 15, 40]);
    for i in 0..spec.rules.len() {
        if s.chance(po) {
            spec.rules[i].prec = Some(match pseudo {
                Some(p) if s.chance(40) => p,
                _ => s.below(spec.terms.len()),
            });
        }
    }
}

/// "Realistic" grammar: statements, nested blocks, separated lists, layered expressions, built from
/// random parts with mostly disjoint leading tokens.
pub fn template_cfg(s: &mut Src, p: &GenP, size: usize) -> Option<Spec> {
    struct B {
        spec: Spec,
    }
    impl B {
        fn t(&mut self, s: &mut Src) -> usize {
            let i = self.spec.terms.len();
            let name = tname(s, i);
            self.spec.terms.push(Sym { name, ty: Ty::Unset });
            i
        }
        fn n(&mut self, s: &mut Src) -> usize {
            let i = self.spec.nts.len();
            let name = nname(s, i);
            self.spec.nts.push(Sym { name, ty: Ty::Unset });
            i
        }
        fn r(&mut self, l: usize, rhs: Vec<Item>) {
            self.spec.rules.push(rule(l, rhs));
        }
        fn list(&mut self, s: &mut Src, item: S) -> usize {
            let l = self.n(s);
            let me = it(S::N(l));
            let x = it(item);
            match s.below(7) {
                0 => {
                    self.r(l, vec![]);
                    self.r(l, vec![me, x]);
                }
                1 => {
                    self.r(l, vec![x.clone()]);
                    self.r(l, vec![me, x]);
                }
                2 => {
                    let c = self.t(s);
                    self.r(l, vec![x.clone()]);
                    self.r(l, vec![me, it(S::T(c)), x]);
                }
                3 => {
                    let c = self.t(s);
                    self.r(l, vec![x.clone()]);
                    self.r(l, vec![x, it(S::T(c)), me]);
                }
                4 => {
                    self.r(l, vec![]);
                    self.r(l, vec![x, me]);
                }
                5 => {
                    // optional trailing separator
                    let c = self.t(s);
                    self.r(l, vec![x.clone()]);
                    self.r(l, vec![x.clone(), it(S::T(c))]);
                    self.r(l, vec![x, it(S::T(c)), me]);
                }
                _ => {
                    let c = self.t(s);
                    self.r(l, vec![]);
                    self.r(l, vec![me, x, it(S::T(c))]);
                }
            }
            l
        }
    }
    let mut b = B { spec: Spec::empty() };
    let start = b.n(s);
    let expr = b.n(s);
    let stmt = b.n(s);
    // expression levels
    let atom = b.n(s);
    let mut cur = atom;
    for lv in 0..s.range(0, 2) {
        let next = if lv == 0 && s.chance(50) { expr } else { b.n(s) };
        let op = b.t(s);
        if s.chance(60) {
            b.r(next, vec![it(S::N(next)), it(S::T(op)), it(S::N(cur))]);
        } else {
            b.r(next, vec![it(S::N(cur)), it(S::T(op)), it(S::N(next))]);
        }
        b.r(next, vec![it(S::N(cur))]);
        cur = next;
        if cur == expr {
            break;
        }
    }
    if cur != expr {
        b.r(expr, vec![it(S::N(cur))]);
    }
    let num = b.t(s);
    b.r(atom, vec![it(S::T(num))]);
    for _ in 0..s.range(0, 2) {
        let (l, r) = (b.t(s), b.t(s));
        match s.below(4) {
            0 => b.r(atom, vec![it(S::T(l)), it(S::N(expr)), it(S::T(r))]),
            1 => {
                let li = b.list(s, S::N(expr));
                b.r(atom, vec![it(S::T(l)), it(S::N(li)), it(S::T(r))])
            }
            2 => b.r(atom, vec![it(S::T(l)), it(S::N(atom))]),
            _ => {
                let id = b.t(s);
                let li = b.list(s, S::N(expr));
                b.r(atom, vec![it(S::T(id)), it(S::T(l)), it(S::N(li)), it(S::T(r))]);
                b.r(atom, vec![it(S::T(id))]);
            }
        }
    }
    let stmts = b.list(s, S::N(stmt));
    for _ in 0..s.range(1, size) {
        let k = b.t(s);
        let e = it(S::N(expr));
        match s.below(8) {
            0 => {
                let z = b.t(s);
                b.r(stmt, vec![it(S::T(k)), e, it(S::T(z))])
            }
            1 => {
                let z = b.t(s);
                b.r(stmt, vec![it(S::T(k)), it(S::N(stmts)), it(S::T(z))])
            }
            2 => {
                let (th, el, fi) = (b.t(s), b.t(s), b.t(s));
                b.r(stmt, vec![it(S::T(k)), e.clone(), it(S::T(th)), it(S::N(stmts)), it(S::T(fi))]);
                b.r(stmt, vec![it(S::T(k)), e, it(S::T(th)), it(S::N(stmts)), it(S::T(el)), it(S::N(stmts)), it(S::T(fi))]);
            }
            3 => {
                let mut o = it(S::N(expr));
                o.opt = p.sugar > 0;
                let z = b.t(s);
                b.r(stmt, vec![it(S::T(k)), o, it(S::T(z))])
            }
            4 => {
                // optional modifier nonterminal
                let m = b.n(s);
                let f = b.t(s);
                b.r(m, vec![]);
                b.r(m, vec![it(S::T(f))]);
                let z = b.t(s);
                b.r(stmt, vec![it(S::T(k)), it(S::N(m)), e, it(S::T(z))])
            }
            5 => {
                // reduce/reduce decided by one token of lookahead
                let (n1, n2) = (b.n(s), b.n(s));
                let (a, u, v) = (b.t(s), b.t(s), b.t(s));
                b.r(n1, vec![it(S::T(a))]);
                b.r(n2, vec![it(S::T(a))]);
                b.r(stmt, vec![it(S::T(k)), it(S::N(n1)), it(S::T(u))]);
                b.r(stmt, vec![it(S::T(k)), it(S::N(n2)), it(S::T(v))]);
            }
            6 => {
                if p.error > 0 {
                    let z = b.t(s);
                    b.r(stmt, vec![it(S::T(k)), it(S::Err), it(S::T(z))]);
                    b.r(stmt, vec![it(S::T(k)), e, it(S::T(z))]);
                } else {
                    let z = b.t(s);
                    b.r(stmt, vec![it(S::T(k)), it(S::T(z))]);
                }
            }
            _ => {
                if p.sugar > 0 {
                    let (x, y) = (b.t(s), b.t(s));
                    let mut o = it(S::Alt(vec![k, x]));
                    o.opt = s.chance(30);
                    let li = b.t(s);
                    let e2 = it(S::T(li));
                    b.r(stmt, vec![o, e2, it(S::T(y))]);
                } else {
                    let li = b.list(s, S::N(expr));
                    let (o, z) = (b.t(s), b.t(s));
                    b.r(stmt, vec![it(S::T(k)), it(S::T(o)), it(S::N(li)), it(S::T(z))])
                }
            }
        }
    }
    if p.error > 0 {
        match s.below(3) {
            0 => {
                let z = b.t(s);
                b.r(stmt, vec![it(S::Err), it(S::T(z))]);
            }
            1 => {
                let (o, z) = (b.t(s), b.t(s));
                b.r(atom, vec![it(S::T(o)), it(S::Err), it(S::T(z))]);
            }
            _ => {}
        }
    }
    match s.below(3) {
        0 => b.r(start, vec![it(S::N(stmts))]),
        1 => {
            let e = b.t(s);
            b.r(start, vec![it(S::N(stmts)), it(S::T(e))])
        }
        _ => {
            b.r(start, vec![it(S::N(stmts))]);
            if s.chance(50) {
                let e = b.t(s);
                b.r(start, vec![it(S::T(e)), it(S::N(expr))]);
            }
        }
    }
    let mut spec = b.spec;
    if s.chance(40) {
        spec.start = Some(start);
        s.shuffle(&mut spec.rules);
    } else {
        let pos = spec.rules.iter().position(|r| r.lhs == start).unwrap();
        let r = spec.rules.remove(pos);
        spec.rules.insert(0, r);
    }
    clean(spec)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Want {
    Any,
    NonSlr,
    Nullable,
    Big,
    Template,
}
pub const WANTS: [Want; 5] = [Want::Any, Want::NonSlr, Want::Nullable, Want::Big, Want::Template];

/// Makes the lookaheads of a nonterminal observable. For a rule `l ::= α n β` and a rule `n ::= γ` it
/// adds `d ::= γ` and `l ::= α d f` for some new tokens f, often so many that reducing to d is what
/// the state does by default: then the reduction to n happens only on the lookaheads computed for it.
pub fn distinguish(s: &mut Src, spec: &mut Spec, sugar: usize) {
    let start = spec.start_nt();
    let mut at = Vec::new();
    for (ri, r) in spec.rules.iter().enumerate() {
        for (k, i) in r.rhs.iter().enumerate() {
            if let S::N(n) = i.sym {
                if n != start && !i.opt {
                    at.push((ri, k, n));
                }
            }
        }
    }
    if at.is_empty() {
        return;
    }
    let (ri, k, n) = *s.pick(&at);
    let ys: Vec<usize> = (0..spec.rules.len()).filter(|y| spec.rules[*y].lhs == n).collect();
    if ys.is_empty() {
        return;
    }
    let y = *s.pick(&ys);
    let d = spec.nts.len();
    let name = nname(s, 100 + d);
    assert!(spec.nts.iter().all(|x| x.name != name));
    spec.nts.push(Sym { name, ty: Ty::Unset });
    let m = s.weighted(&[25, 15, 15, 15, 15, 15]) + 1;
    let f: Vec<usize> = (0..m)
        .map(|_| {
            let i = spec.terms.len();
            let name = tname(s, 100 + i);
            assert!(spec.terms.iter().all(|x| x.name != name));
            spec.terms.push(Sym { name, ty: Ty::Unset });
            i
        })
        .collect();
    let mut pre: Vec<Item> = spec.rules[ri].rhs[..k].to_vec();
    let lhs = spec.rules[ri].lhs;
    pre.push(it(S::N(d)));
    let copy = spec.rules[y].rhs.clone();
    spec.rules.push(rule(d, copy));
    let with = |spec: &mut Spec, sym: S| {
        let mut v = pre.clone();
        v.push(it(sym));
        spec.rules.push(rule(lhs, v));
    };
    if m > 1 && sugar > 0 && s.chance(50) {
        with(spec, S::Alt(f));
    } else if m > 1 && s.chance(50) {
        let x = spec.nts.len();
        let name = nname(s, 100 + x);
        assert!(spec.nts.iter().all(|x| x.name != name));
    spec.nts.push(Sym { name, ty: Ty::Unset });
        with(spec, S::N(x));
        for t in f {
            spec.rules.push(rule(x, vec![it(S::T(t))]));
        }
    } else {
        for t in f {
            with(spec, S::T(t));
        }
    }
}

/// Inserts a new nullable nonterminal somewhere in a rule, mostly right behind another nonterminal, so
/// that what follows the latter depends on how the empty string spreads: left-, right- and mutually
/// recursive lists, and nonterminals that are empty only because others are.
pub fn vanish(s: &mut Src, spec: &mut Spec) {
    if spec.rules.is_empty() {
        return;
    }
    let mut at = Vec::new();
    for (ri, r) in spec.rules.iter().enumerate() {
        for k in 0..=r.rhs.len() {
            let w = if k > 0 && matches!(r.rhs[k - 1].sym, S::N(_)) { 4 } else { 1 };
            at.extend(std::iter::repeat((ri, k)).take(w));
        }
    }
    let (ri, k) = *s.pick(&at);
    let start = spec.start_nt();
    let old: Vec<usize> = (0..spec.nts.len()).filter(|n| *n != start).collect();
    let fresh_n = |s: &mut Src, spec: &mut Spec| {
        let d = spec.nts.len();
        let name = nname(s, 200 + d);
        assert!(spec.nts.iter().all(|x| x.name != name));
        spec.nts.push(Sym { name, ty: Ty::Unset });
        d
    };
    let item = |s: &mut Src, spec: &mut Spec| {
        if !old.is_empty() && s.chance(25) {
            return it(S::N(*s.pick(&old)));
        }
        let d = spec.terms.len();
        let name = tname(s, 200 + d);
        assert!(spec.terms.iter().all(|x| x.name != name));
        spec.terms.push(Sym { name, ty: Ty::Unset });
        it(S::T(d))
    };
    let l = fresh_n(s, spec);
    let me = it(S::N(l));
    let mut new: Vec<Rule> = vec![];
    match s.below(8) {
        0 | 1 => {
            let x = item(s, spec);
            new.push(rule(l, vec![]));
            new.push(rule(l, vec![me, x]));
        }
        2 => {
            let x = item(s, spec);
            new.push(rule(l, vec![]));
            new.push(rule(l, vec![x, me]));
        }
        3 => {
            // l: m; m: empty | m x
            let m = fresh_n(s, spec);
            let x = item(s, spec);
            new.push(rule(l, vec![it(S::N(m))]));
            new.push(rule(m, vec![]));
            new.push(rule(m, vec![it(S::N(m)), x]));
        }
        4 => {
            // l: m o; m: empty | x; o: empty | y
            let (m, o) = (fresh_n(s, spec), fresh_n(s, spec));
            let (x, y) = (item(s, spec), item(s, spec));
            new.push(rule(l, vec![it(S::N(m)), it(S::N(o))]));
            new.push(rule(m, vec![]));
            new.push(rule(m, vec![x]));
            new.push(rule(o, vec![]));
            new.push(rule(o, vec![y]));
        }
        5 => {
            // l: empty | m x; m: l y
            let m = fresh_n(s, spec);
            let (x, y) = (item(s, spec), item(s, spec));
            new.push(rule(l, vec![]));
            new.push(rule(l, vec![it(S::N(m)), x]));
            new.push(rule(m, vec![me, y]));
        }
        6 => {
            // l: l x | m; m: empty | y; also l: l x y | m
            let m = fresh_n(s, spec);
            let (x, y) = (item(s, spec), item(s, spec));
            new.push(rule(l, vec![me.clone(), x.clone()]));
            if s.chance(40) {
                new.push(rule(l, vec![me, x, y.clone()]));
            }
            new.push(rule(l, vec![it(S::N(m))]));
            new.push(rule(m, vec![]));
            new.push(rule(m, vec![y]));
        }
        _ => {
            new.push(rule(l, vec![]));
            if s.chance(50) {
                let x = item(s, spec);
                new.push(rule(l, vec![x]));
            }
        }
    }
    spec.rules[ri].rhs.insert(k, it(S::N(l)));
    s.shuffle(&mut new);
    if spec.start.is_some() {
        for r in new {
            let p = s.below(spec.rules.len() + 1);
            spec.rules.insert(p, r);
        }
    } else {
        spec.rules.extend(new);
    }
}

/// A conflict-free grammar with the wanted feature if one is found within the try budget, else the
/// best conflict-free one seen.
pub fn lalr_grammar(s: &mut Src, p: &GenP, want: Want) -> Option<Spec> {
    let mut best: Option<(i64, Spec)> = None;
    let tries = 60;
    for k in 0..tries {
        let spec = match want {
            Want::Template => {
                let n = s.range(2, 6);
                template_cfg(s, p, n)
            }
            Want::Big if k % 2 == 0 => {
                let n = s.range(4, 12);
                template_cfg(s, p, n)
            }
            Want::Big => {
                let q = GenP { max_t: p.max_t + 4, max_n: p.max_n + 3, ..p.clone() };
                random_cfg(s, &q)
            }
            _ => random_cfg(s, p),
        };
        let Some(mut spec) = spec else { continue };
        if s.chance(25) {
            for _ in 0..s.range(1, 2) {
                vanish(s, &mut spec);
            }
        }
        if s.chance(40) {
            for _ in 0..s.range(1, 2) {
                distinguish(s, &mut spec, p.sugar);
            }
        }
        let g = Cfg::of(&spec);
        if !g.reduced() || g.mixed_prec {
            continue;
        }
        let Some(l) = Lalr::build_limited(&g, 400) else { continue };
        if !l.plain() {
            continue;
        }
        let ns = l.kernels.len() as i64;
        let nnull = g.nullable.iter().filter(|b| **b).count() as i64;
        let (score, good) = match want {
            Want::Any | Want::Template => (ns.min(12), ns >= 8),
            Want::NonSlr => {
                let n = !l.slr(&g);
                (ns.min(10) + 100 * n as i64, n && ns >= 8)
            }
            Want::Nullable => (ns.min(10) + 10 * nnull, nnull >= 2 && ns >= 8),
            Want::Big => (ns.min(60), ns >= 20),
        };
        if best.as_ref().map_or(true, |b| score > b.0) {
            best = Some((score, spec));
        }
        if good {
            break;
        }
    }
    let mut spec = best?.1;
    if s.chance(12) {
        lengthen(s, &mut spec);
    }
    Some(spec)
}
/// makes one rule long (more than 10 symbols) if the grammar stays conflict-free
pub fn lengthen(s: &mut Src, spec: &mut Spec) {
    for _ in 0..4 {
        let mut sp = spec.clone();
        let Some(ri) = (!sp.rules.is_empty()).then(|| s.below(sp.rules.len())) else { return };
        let n = s.range(11, 24);
        let own: Vec<usize> = (0..sp.terms.len()).filter(|t| sp.wildcard != Some(*t)).collect();
        if own.is_empty() {
            return;
        }
        let r = &mut sp.rules[ri].rhs;
        while r.len() < n {
            // mostly at the end; now and then a nonterminal of this rule once more
            let at = if s.chance(70) { r.len() } else { s.below(r.len() + 1) };
            let x = if s.chance(12) && !r.is_empty() { r[s.below(r.len())].clone() } else { it(S::T(*s.pick(&own))) };
            r.insert(at, x);
        }
        let g = Cfg::of(&sp);
        if !g.reduced() || g.mixed_prec {
            continue;
        }
        if Lalr::build_limited(&g, 500).map_or(false, |l| l.plain()) {
            *spec = sp;
            return;
        }
    }
}
/// rules whose code is the same text, with aliases named by their order only
pub fn shared(s: &mut Src, spec: &mut Spec) {
    spec.anum = true;
    let k = s.range(1, 2);
    spec.rules.iter_mut().for_each(|r| r.id %= k);
}

pub struct Deco {
    pub typed: usize,   // % of symbols typed
    pub units: usize,   // % of typed symbols that are ()
    pub aliases: usize, // % of aliasable items aliased
    pub nocode: usize,  // % of rules without code where allowed
    pub order: usize,   // % shuffled declarations
}
impl Deco {
    pub fn full() -> Deco {
        Deco { typed: 100, units: 0, aliases: 100, nocode: 0, order: 30 }
    }
    pub fn mixed(s: &mut Src) -> Deco {
        Deco { typed: *s.pick(&[100, 70, 40]), units: *s.pick(&[0, 0, 10]), aliases: *s.pick(&[100, 80, 50]), nocode: *s.pick(&[0, 15, 40]), order: 30 }
    }
}
pub fn all_same(spec: &Spec, v: &[usize]) -> bool {
    v.iter().all(|t| spec.tty(*t) == spec.tty(v[0]))
}
/// Assigns types, aliases and code.
pub fn decorate(s: &mut Src, spec: &mut Spec, d: &Deco) {
    let nk = s.range(1, 3) as u32;
    let ty = |s: &mut Src| {
        if s.chance(d.typed) {
            if s.chance(d.units) {
                Ty::Unit
            } else {
                Ty::W(s.below(nk as usize) as u32)
            }
        } else {
            Ty::Unset
        }
    };
    for i in 0..spec.terms.len() {
        if spec.wildcard != Some(i) {
            spec.terms[i].ty = ty(s);
        }
    }
    for i in 0..spec.nts.len() {
        spec.nts[i].ty = ty(s);
    }
    if spec.uses_error() {
        spec.err_ty = ty(s);
    }
    // members of compounds mostly share a type so that aliases are possible
    // (optional ones must: the value of `X?` has X's type)
    let mut groups: Vec<(Vec<usize>, bool)> = spec.classes.iter().map(|c| (c.members.clone(), false)).collect();
    for r in &spec.rules {
        for i in &r.rhs {
            match &i.sym {
                S::Alt(v) => groups.push((v.clone(), i.opt)),
                S::Class(c) if i.opt => groups[*c].1 = true,
                _ => {}
            }
        }
    }
    groups.sort_by_key(|g| g.1);
    for (v, must) in &groups {
        if *must || s.chance(75) {
            let t = spec.terms[v[0]].ty.clone();
            for m in v {
                spec.terms[*m].ty = t.clone();
            }
        }
    }
    // a fallback and the tokens falling back to it share a type; the last fallback of a chain may
    // be untyped instead
    if !spec.fallback.is_empty() {
        loop {
            let mut ch = false;
            for (f, v) in spec.fallback.clone() {
                for t in v {
                    if spec.terms[t].ty != spec.terms[f].ty {
                        spec.terms[t].ty = spec.terms[f].ty.clone();
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let inner: Vec<usize> = spec.fallback.iter().flat_map(|f| f.1.clone()).collect();
        let roots: Vec<usize> = spec.fallback.iter().map(|f| f.0).filter(|f| !inner.contains(f)).collect();
        for f in roots {
            let grouped = groups.iter().any(|(g, _)| g.contains(&f));
            if !grouped && spec.default_ty.is_none() && !spec.extra_tok && s.chance(25) {
                spec.terms[f].ty = Ty::Unset;
            }
        }
    }
    // overlapping optional groups
    for _ in 0..groups.len() {
        for (v, must) in &groups {
            if *must && !all_same(spec, v) {
                for m in v {
                    spec.terms[*m].ty = Ty::Unset;
                }
                // and with them everything connected by fallbacks
                for _ in 0..spec.terms.len() {
                    for (f, w) in spec.fallback.clone() {
                        if w.iter().any(|t| !spec.terms[*t].ty.set()) || !spec.terms[f].ty.set() && (spec.default_ty.is_some() || spec.extra_tok || w.iter().any(|t| v.contains(t))) {
                            spec.terms[f].ty = Ty::Unset;
                            w.iter().for_each(|t| spec.terms[*t].ty = Ty::Unset);
                        }
                    }
                }
            }
        }
    }
    aliases_and_code(s, spec, d);
    if s.chance(d.order) {
        spec.order = (0..16).map(|_| s.u32()).collect();
    }
    renumber(spec);
}
/// optional compounds have one type
/// other spellings of the types, of the extra argument's and of the error's; each type consistently
pub fn shapes(s: &mut Src, spec: &mut Spec) {
    let all = s.chance(15).then(|| 9);
    let m: Vec<Option<u8>> = (0..12).map(|_| if all.is_some() { all } else if s.chance(60) { Some(s.below(SHAPES) as u8) } else { None }).collect();
    fn f(t: &mut Ty, m: &[Option<u8>]) {
        match t {
            Ty::W(k) => {
                if let Some(x) = m[*k as usize % m.len()] {
                    *t = Ty::Sh(x, Box::new(t.clone()));
                }
            }
            Ty::Opt(t) | Ty::Pair(t) => f(t, m),
            _ => {}
        }
    }
    spec.terms.iter_mut().for_each(|t| f(&mut t.ty, &m));
    spec.nts.iter_mut().for_each(|t| f(&mut t.ty, &m));
    f(&mut spec.err_ty, &m);
    if let Some(t) = &mut spec.default_ty {
        f(t, &m);
    }
    spec.eshape = s.below(8) as u8;
    if spec.dflt & (8 | 16) == 0 {
        spec.dflt |= (s.below(4) as u8) << 6;
    }
}
/// every payload one that is counted
pub fn counted(spec: &mut Spec) {
    fn f(t: &mut Ty) {
        match t {
            Ty::W(_) => *t = Ty::Sh(10, Box::new(t.clone())),
            Ty::Opt(t) | Ty::Pair(t) => f(t),
            _ => {}
        }
    }
    spec.terms.iter_mut().for_each(|t| f(&mut t.ty));
    spec.nts.iter_mut().for_each(|t| f(&mut t.ty));
    f(&mut spec.err_ty);
    if let Some(t) = &mut spec.default_ty {
        f(t);
    }
}
pub fn typable(spec: &Spec) -> bool {
    spec.rules.iter().all(|r| r.rhs.iter().all(|i| !i.opt || !matches!(i.sym, S::Alt(_) | S::Class(_)) || all_same(spec, &spec.members(&i.sym))))
}
pub fn can_alias(spec: &Spec, i: &Item) -> bool {
    match &i.sym {
        S::T(t) => spec.wildcard != Some(*t),
        S::Alt(_) | S::Class(_) => all_same(spec, &spec.members(&i.sym)),
        _ => true,
    }
}
pub fn aliases_and_code(s: &mut Src, spec: &mut Spec, d: &Deco) {
    for ri in 0..spec.rules.len() {
        let mut r = spec.rules[ri].clone();
        for i in r.rhs.iter_mut() {
            i.alias = Alias::No;
            if !can_alias(spec, i) {
                continue;
            }
            let t = spec.item_ty(i);
            let pc = if t.set() { d.aliases } else { d.aliases / 3 };
            if s.chance(pc) {
                i.alias = match s.weighted(&[70, 12, 14, 4]) {
                    0 => Alias::Id,
                    1 => Alias::Mut,
                    2 => Alias::Pat,
                    _ if d.aliases < 100 => Alias::Wild,
                    _ => Alias::Id,
                };
            }
        }
        let lt = spec.nty(r.lhs);
        r.code = Code::Act;
        if s.chance(d.nocode) {
            if !lt.set() {
                r.code = Code::None;
            } else {
                let typed: Vec<usize> = (0..r.rhs.len()).filter(|k| spec.item_ty(&r.rhs[*k]).set()).collect();
                if typed.len() == 1 && spec.item_ty(&r.rhs[typed[0]]) == lt && can_alias(spec, &r.rhs[typed[0]]) {
                    r.code = Code::None;
                    r.rhs.iter_mut().for_each(|i| i.alias = Alias::No);
                }
            }
        }
        spec.rules[ri] = r;
    }
}

/// All strings over the terminals that are viable prefixes, breadth first, up to `max` nodes, each
/// reported with its viable continuations and membership (from the Earley oracle).
pub struct Node {
    pub toks: Vec<usize>,
    pub next: Vec<usize>,
    pub accepts: bool,
}
pub fn viable_trie(g: &Cfg, s: &mut Src, max: usize, maxlen: usize) -> Vec<Node> {
    let mut out: Vec<Node> = Vec::new();
    let mut level: Vec<Vec<usize>> = vec![vec![]];
    while !level.is_empty() && out.len() < max {
        let mut next_level = Vec::new();
        s.shuffle(&mut level);
        for toks in &level {
            if out.len() >= max {
                break;
            }
            let mut e = Earley::new(g);
            for t in toks {
                assert!(e.push(*t), "trie prefix must be viable");
            }
            let next = e.next();
            if toks.len() < maxlen {
                for t in &next {
                    let mut v = toks.clone();
                    v.push(*t);
                    next_level.push(v);
                }
            }
            out.push(Node { toks: toks.clone(), next, accepts: e.accepts() });
        }
        level = next_level;
    }
    out
}
/// one random edit (insertion, deletion, substitution, transposition, duplication)
pub fn mutate(s: &mut Src, v: &[usize], nt: usize) -> Vec<usize> {
    let mut v = v.to_vec();
    if nt == 0 {
        return v;
    }
    match s.below(5) {
        0 => v.insert(s.below(v.len() + 1), s.below(nt)),
        1 if !v.is_empty() => {
            v.remove(s.below(v.len()));
        }
        2 if !v.is_empty() => {
            let i = s.below(v.len());
            v[i] = s.below(nt);
        }
        3 if v.len() >= 2 => {
            let i = s.below(v.len() - 1);
            v.swap(i, i + 1);
        }
        4 if !v.is_empty() => {
            let i = s.below(v.len());
            let t = v[i];
            v.insert(i, t);
        }
        _ => v.push(s.below(nt)),
    }
    v
}
