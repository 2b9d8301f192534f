//! Reference driver over the *uncompressed* reference table: what a caller of the generated parser
//! should observe.  `Defaults` selects whether states with an error lookup may first perform their
//! default reduction (the code's policy) or not; properties that must not depend on that policy are
//! only compared where both agree.
use crate::cfg::*;
use crate::lalr::*;
use crate::spec::*;
use std::fmt;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// rule id, bound values, extra value seen, result id or error
    R { id: usize, args: Vec<String>, ext: Option<u64>, out: Result<u64, u64> },
    /// syntax-error code: token (index:value), expected (name, token), extra, result
    Y { tok: Option<String>, exp: Vec<(String, Option<String>)>, ext: Option<u64>, out: Result<u64, u64> },
    F { ext: Option<u64> },
    O { tok: Option<String>, ext: Option<u64> },
    /// result of one caller operation
    Ret(String),
    Other(String),
}
impl fmt::Display for Ev {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let ex = |e: &Option<u64>| e.map_or(String::new(), |e| format!("@{}", e));
        let res = |o: &Result<u64, u64>| match o {
            Ok(v) => format!("={}", v),
            Err(e) => format!("!{}", e),
        };
        match self {
            Ev::R { id, args, ext, out } => write!(f, "R{}({}){}{}", id, args.join(";"), ex(ext), res(out)),
            Ev::Y { tok, exp, ext, out } => {
                let e: Vec<String> = exp.iter().map(|(n, t)| match t { Some(t) => format!("{}={}", n, t), None => n.clone() }).collect();
                write!(f, "Y{}[{}]{}{}", tok.as_deref().unwrap_or("-"), e.join(","), ex(ext), res(out))
            }
            Ev::F { ext } => write!(f, "F{}", ex(ext)),
            Ev::O { tok, ext } => write!(f, "O{}{}", tok.as_deref().unwrap_or("-"), ex(ext)),
            Ev::Ret(s) => write!(f, "<{}>", s),
            Ev::Other(s) => write!(f, "{}", s),
        }
    }
}
pub fn show(t: &[Ev]) -> String {
    t.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(" ")
}

fn split_tail(s: &str) -> (String, Option<u64>, Option<Result<u64, u64>>) {
    // "...[@ext][=v|!e]"
    let mut s = s.to_string();
    let mut out = None;
    if let Some(p) = s.rfind(|c| c == '=' || c == '!') {
        if s[p + 1..].chars().all(|c| c.is_ascii_digit()) && p + 1 < s.len() {
            let v: u64 = s[p + 1..].parse().unwrap();
            out = Some(if &s[p..p + 1] == "=" { Ok(v) } else { Err(v) });
            s.truncate(p);
        }
    }
    let mut ext = None;
    if let Some(p) = s.rfind('@') {
        if let Ok(v) = s[p + 1..].parse() {
            ext = Some(v);
            s.truncate(p);
        }
    }
    (s, ext, out)
}
/// Parses one instance's trace as printed by rt.
pub fn parse_trace(t: &str) -> Vec<Ev> {
    t.split(' ')
        .filter(|s| !s.is_empty())
        .map(|w| {
            let other = || Ev::Other(w.to_string());
            if let Some(r) = w.strip_prefix('<') {
                return Ev::Ret(r.strip_suffix('>').unwrap_or(r).to_string());
            }
            match w.as_bytes()[0] {
                b'R' => {
                    let (s, ext, out) = split_tail(&w[1..]);
                    let (Some(p), Some(out)) = (s.find('('), out) else { return other() };
                    let Ok(id) = s[..p].parse() else { return other() };
                    let a = &s[p + 1..];
                    let a = a.strip_suffix(')').unwrap_or(a);
                    let args = if a.is_empty() { vec![] } else { a.split(';').map(|x| x.to_string()).collect() };
                    Ev::R { id, args, ext, out }
                }
                b'Y' => {
                    let Some(p) = w.find('[') else { return other() };
                    let Some(q) = w.rfind(']') else { return other() };
                    let (_, ext, out) = split_tail(&w[q + 1..]);
                    let Some(out) = out else { return other() };
                    let tok = if &w[1..p] == "-" { None } else { Some(w[1..p].to_string()) };
                    let exp = w[p + 1..q]
                        .split(',')
                        .filter(|s| !s.is_empty())
                        .map(|s| match s.split_once('=') {
                            Some((a, b)) => (a.to_string(), Some(b.to_string())),
                            None => (s.to_string(), None),
                        })
                        .collect();
                    Ev::Y { tok, exp, ext, out }
                }
                b'F' => Ev::F { ext: split_tail(&w[1..]).1 },
                b'O' => {
                    let (s, ext, _) = split_tail(&w[1..]);
                    Ev::O { tok: if s == "-" { None } else { Some(s) }, ext }
                }
                _ => other(),
            }
        })
        .collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Defaults {
    None,
    Lemon,
    /// per state, from `Inst::dec`; Lemon elsewhere
    Chosen,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Act {
    Err,
    Shift(usize),
    Reduce(usize),
}
#[derive(Clone, Default, Debug)]
pub struct Plan {
    pub fail_act: Option<u64>,
    /// None: always Err; Some(None): always Ok; Some(Some(k)): Ok except the k-th
    pub se_ok: Option<Option<u64>>,
    /// the number of payloads held is part of the trace
    pub live: bool,
}
impl Plan {
    pub fn parse(s: &str) -> Plan {
        let mut p = Plan::default();
        for f in s.split(',') {
            if let Some(k) = f.strip_prefix('a') {
                p.fail_act = k.parse().ok();
            } else if let Some(k) = f.strip_prefix('s') {
                p.se_ok = Some(k.parse().ok());
            } else if f == "O" {
                p.se_ok = Some(None);
            } else if f == "l" {
                p.live = true;
            }
        }
        p
    }
}

/// Grammar model shared by all runs of one specification.
pub struct Model<'a> {
    pub spec: &'a Spec,
    pub g: Cfg,
    pub l: Lalr,
    fb: Vec<Option<usize>>,
    dflt: Vec<Option<usize>>,
    /// the default of the state was chosen among equally frequent reductions
    pub dflt_tie: Vec<bool>,
}
pub fn mix(v: u64, r: u64) -> u64 {
    (v ^ r.wrapping_mul(0x9E37_79B9)).wrapping_mul(0x0100_0000_01B3).rotate_left(17) & 0xffff_ffff
}

#[derive(Clone)]
pub struct Inst<'a, 'b> {
    m: &'b Model<'a>,
    pol: Defaults,
    plan: Plan,
    pub stack: Vec<(usize, bool, Val)>,
    error_count: u32,
    failed: bool,
    dead: bool,
    pub ext: u64,
    nact: u64,
    nse: u64,
    pub log: Vec<Ev>,
    pub max_depth: usize,
    pub limit: usize,
    pub tie_used: bool,
    /// a non-default reduction happened on a token that then failed, i.e. the policies may differ
    pub default_used: bool,
    pub dropped: Vec<usize>,
    pub fallbacks: usize,
    pub wildcards: usize,
    pub recoveries: usize,
    /// how each shifted token was interpreted
    pub shifted_as: Vec<(usize, usize)>,
    pub runaway: bool,
    /// uses of an omitted %syntax_error, %parse_fail, %stack_overflow
    pub defaulted: [u64; 3],
    tokno: usize,
    gone: bool,
    /// at every detected error: the states on the stack, the offending token (nt = end of input)
    pub errs: Vec<(Vec<usize>, usize)>,
    /// for every call of the syntax-error code, its index in `errs`
    pub yerrs: Vec<usize>,
    pub dec: std::collections::BTreeMap<usize, Option<usize>>,
    /// states with a choice of default reduction, in order of first use, and the log length then
    pub seen: Vec<(usize, usize)>,
}

impl<'a> Model<'a> {
    pub fn new(spec: &'a Spec) -> Model<'a> {
        let g = Cfg::of(spec);
        let l = Lalr::build(&g);
        Self::with(spec, g, l)
    }
    pub fn with(spec: &'a Spec, g: Cfg, l: Lalr) -> Model<'a> {
        let mut fb = vec![None; g.nt];
        for (f, v) in &spec.fallback {
            for t in v {
                fb[*t] = Some(*f);
            }
        }
        let mut m = Model { spec, g, l, fb, dflt: vec![], dflt_tie: vec![] };
        m.defaults();
        m
    }
    /// the code's documented default policy: the most frequent reduction of a state
    fn defaults(&mut self) {
        let ns = self.l.table.len();
        self.dflt = vec![None; ns];
        self.dflt_tie = vec![false; ns];
        for s in 0..ns {
            let row = &self.l.table[s];
            if let Some(w) = self.spec.wildcard {
                if row[w] != Cell::Err {
                    continue;
                }
            }
            if row.iter().any(|c| *c == Cell::Non) {
                continue;
            }
            let mut cnt: std::collections::BTreeMap<usize, usize> = Default::default();
            for c in row {
                if let Cell::Reduce(r) = c {
                    if self.g.rules[*r].lhs != self.g.start {
                        *cnt.entry(*r).or_insert(0) += 1;
                    }
                }
            }
            if let Some((_, n)) = cnt.iter().max_by_key(|x| x.1) {
                let best: Vec<usize> = cnt.iter().filter(|x| x.1 == n).map(|x| *x.0).collect();
                // with fallbacks the code excludes some lookaheads from the count
                self.dflt_tie[s] = best.len() > 1 || (0..self.g.nt).any(|t| matches!(row[t], Cell::Reduce(_)) && self.fb[t].is_some());
                self.dflt[s] = Some(best[0]);
            }
        }
    }
    /// the action for terminal t (nt = end of input) in state s and how t was interpreted
    fn lookup(&self, s: usize, t: usize) -> (Cell, usize) {
        let row = &self.l.table[s];
        if t == self.g.nt {
            return (row[t], t);
        }
        let mut x = t;
        loop {
            if row[x] != Cell::Err {
                return (row[x], x);
            }
            match self.fb[x] {
                Some(f) => x = f,
                None => break,
            }
        }
        if let Some(w) = self.spec.wildcard {
            return (row[w], w);
        }
        (Cell::Err, t)
    }
    /// what an error lookup in state s may do: the most frequent reduction, nothing, or another
    /// reduction of the state
    pub fn choices(&self, s: usize) -> Vec<Option<usize>> {
        let mut v = vec![self.dflt[s]];
        if self.dflt[s].is_some() {
            v.push(None);
        }
        for c in &self.l.table[s] {
            if let Cell::Reduce(r) = c {
                if self.g.rules[*r].lhs != self.g.start && !v.contains(&Some(*r)) {
                    v.push(Some(*r));
                }
            }
        }
        v
    }
    pub fn fallback_of(&self, t: usize) -> Option<usize> {
        self.fb[t]
    }
    pub fn start<'b>(&'b self, pol: Defaults, plan: Plan, ext: u64) -> Inst<'a, 'b> {
        let (limit, _) = self.spec.stack.clone().unwrap_or((100, StackTy::Vec));
        Inst {
            m: self,
            pol,
            stack: vec![(0, false, Val::U)],
            error_count: 0,
            failed: false,
            dead: false,
            ext,
            nact: 0,
            nse: 0,
            log: vec![Ev::Ret(if plan.live { "new~0".into() } else { "new".into() })],
            plan,
            max_depth: 1,
            limit,
            tie_used: false,
            default_used: false,
            dropped: vec![],
            fallbacks: 0,
            wildcards: 0,
            recoveries: 0,
            shifted_as: vec![],
            runaway: false,
            defaulted: [0; 3],
            tokno: 0,
            gone: false,
            errs: vec![],
            yerrs: vec![],
            dec: Default::default(),
            seen: vec![],
        }
    }
    /// set of acceptable terminals in a state, by lookup (LALR table)
    pub fn acceptable(&self, s: usize) -> Vec<usize> {
        (0..self.g.nt).filter(|t| !matches!(self.lookup(s, *t).0, Cell::Err | Cell::Non)).collect()
    }
    /// terminals t that would really be shifted from this stack
    pub fn truly_acceptable(&self, states: &[usize]) -> Vec<usize> {
        (0..self.g.nt).filter(|t| self.would_shift(states, *t)).collect()
    }
    pub fn would_shift(&self, states: &[usize], t: usize) -> bool {
        let mut st = states.to_vec();
        for _ in 0..10_000 {
            match self.lookup(*st.last().unwrap(), t).0 {
                Cell::Shift(_) => return true,
                Cell::Reduce(r) => {
                    let rule = &self.g.rules[r];
                    if rule.lhs == self.g.start {
                        return t == self.g.nt;
                    }
                    st.truncate(st.len() - rule.rhs.len());
                    let n = self.l.ngo[*st.last().unwrap()][&rule.lhs];
                    st.push(n);
                }
                _ => return false,
            }
        }
        false
    }
    /// every stack (list of states) reachable from `states` by reductions some table entry performs
    pub fn reduction_variants(&self, states: &[usize]) -> Vec<Vec<usize>> {
        let mut out = vec![states.to_vec()];
        let mut i = 0;
        while i < out.len() && out.len() < 200 {
            let st = out[i].clone();
            i += 1;
            let mut rs: Vec<usize> = self.l.table[*st.last().unwrap()].iter().filter_map(|c| if let Cell::Reduce(r) = c { Some(*r) } else { None }).collect();
            rs.sort();
            rs.dedup();
            for r in rs {
                let rule = &self.g.rules[r];
                if rule.lhs == self.g.start {
                    continue;
                }
                let mut s2 = st.clone();
                s2.truncate(s2.len() - rule.rhs.len());
                let n = self.l.ngo[*s2.last().unwrap()][&rule.lhs];
                s2.push(n);
                if !out.contains(&s2) {
                    out.push(s2);
                }
            }
        }
        out
    }
}

impl<'a, 'b> Inst<'a, 'b> {
    fn e(&self) -> Option<u64> {
        if self.m.spec.extra_arg {
            Some(self.ext)
        } else {
            None
        }
    }
    fn errv(&self, e: u64) -> u64 {
        if self.m.spec.err_unit() {
            0
        } else {
            e
        }
    }
    fn act(&mut self, s: usize, t: usize) -> Act {
        let (c, x) = self.m.lookup(s, t);
        match c {
            Cell::Shift(n) => {
                if x != t {
                    if Some(x) == self.m.spec.wildcard && self.m.fb.get(t).copied().flatten() != Some(x) {
                        self.wildcards += 1;
                    } else {
                        self.fallbacks += 1;
                    }
                }
                self.shifted_as.push((t, x));
                Act::Shift(n)
            }
            Cell::Reduce(r) => Act::Reduce(r),
            Cell::Non => Act::Err,
            Cell::Err => {
                if self.pol == Defaults::Chosen {
                    if !self.seen.iter().any(|x| x.0 == s) && self.m.choices(s).len() > 1 {
                        self.seen.push((s, self.log.len()));
                    }
                    if let Some(d) = self.dec.get(&s) {
                        return match d {
                            Some(r) => Act::Reduce(*r),
                            None => Act::Err,
                        };
                    }
                }
                if self.pol != Defaults::None {
                    if let Some(r) = self.m.dflt[s] {
                        self.default_used = true;
                        if self.m.dflt_tie[s] {
                            self.tie_used = true;
                        }
                        return Act::Reduce(r);
                    }
                }
                Act::Err
            }
        }
    }
    /// executes the reduction; Ok(Some(v)) = accepted with v
    fn reduce(&mut self, r: usize) -> Result<Option<Val>, u64> {
        let rule = &self.m.g.rules[r];
        let n = rule.rhs.len();
        let at = self.stack.len() - n;
        let vals: Vec<Val> = self.stack.drain(at..).map(|x| x.2).collect();
        let v = match rule.origin {
            Origin::OptNone => Val::N,
            Origin::OptSome => Val::S(Box::new(vals.into_iter().next().unwrap())),
            Origin::Rule(i) => self.code(i, vals)?,
        };
        if rule.lhs == self.m.g.start {
            return Ok(Some(v));
        }
        let s = self.m.l.ngo[self.stack.last().unwrap().0][&rule.lhs];
        self.push(s, false, v, None)?;
        Ok(None)
    }
    fn code(&mut self, i: usize, vals: Vec<Val>) -> Result<Val, u64> {
        let spec = self.m.spec;
        let r = &spec.rules[i];
        match &r.code {
            Code::None => {
                if !spec.nty(r.lhs).set() {
                    return Ok(Val::U);
                }
                let k = r.rhs.iter().position(|it| spec.item_ty(it).set()).expect("forward");
                Ok(vals[k].clone())
            }
            Code::Fwd(k) => Ok(vals[*k].clone()),
            Code::NoneV => Ok(Val::N),
            Code::SomeOf(k) => Ok(Val::S(Box::new(vals[*k].clone()))),
            Code::Act => {
                let args: Vec<String> = r
                    .rhs
                    .iter()
                    .zip(&vals)
                    .filter(|(it, _)| matches!(it.alias, Alias::Id | Alias::Mut | Alias::Pat))
                    .map(|(_, v)| v.to_string())
                    .collect();
                let n = self.nact;
                self.nact += 1;
                let fail = self.plan.fail_act == Some(n);
                let out = if fail { Err(100_000 + n) } else { Ok(1000 + n) };
                self.log.push(Ev::R { id: r.id, args, ext: self.e(), out });
                self.ext = mix(self.ext, r.id as u64 + 1);
                match out {
                    Ok(v) => Ok(spec.nty(r.lhs).val(v, v)),
                    Err(e) => Err(self.errv(e)),
                }
            }
        }
    }
    fn push(&mut self, s: usize, err: bool, v: Val, tok: Option<String>) -> Result<(), u64> {
        if self.limit != 0 && self.stack.len() >= self.limit {
            if !self.m.spec.given(4) {
                self.defaulted[2] += 1;
                return Err(self.errv(777));
            }
            self.log.push(Ev::O { tok, ext: self.e() });
            self.ext = mix(self.ext, 0x50);
            return Err(self.errv(600_000));
        }
        self.stack.push((s, err, v));
        self.max_depth = self.max_depth.max(self.stack.len());
        Ok(())
    }
    fn parse_fail(&mut self) -> u64 {
        if !self.m.spec.given(2) {
            self.defaulted[1] += 1;
            return self.errv(777);
        }
        self.log.push(Ev::F { ext: self.e() });
        self.ext = mix(self.ext, 0xfa);
        self.errv(400_000)
    }
    /// syntax-error code; the value of the `error` symbol on success
    fn syntax_error(&mut self, tok: &str, exp: Vec<(String, Option<String>)>) -> Result<Val, u64> {
        if !self.m.spec.given(1) {
            self.defaulted[0] += 1;
            return Err(self.errv(777));
        }
        let k = self.nse;
        self.nse += 1;
        self.yerrs.push(self.errs.len() - 1);
        let ok = match self.plan.se_ok {
            None => false,
            Some(None) => true,
            Some(Some(x)) => x != k,
        };
        let out = if ok { Ok(500_000 + k) } else { Err(300_000 + k) };
        self.log.push(Ev::Y { tok: Some(tok.to_string()), exp, ext: self.e(), out });
        self.ext = mix(self.ext, 0x5e);
        match out {
            Ok(v) => Ok(self.m.spec.ety().val(v, v)),
            Err(e) => Err(self.errv(e)),
        }
    }
    fn expected(&self) -> Vec<(String, Option<String>)> {
        let s = self.stack.last().unwrap().0;
        self.m
            .acceptable(s)
            .into_iter()
            .map(|t| {
                let tok = if self.m.spec.tty(t).set() { None } else { Some(format!("{}:u", t)) };
                (self.m.spec.terms[t].name.clone(), tok)
            })
            .collect()
    }
    fn token(&mut self, t: usize, val: Val) -> Result<Option<Val>, u64> {
        let eoi = t == self.m.g.nt;
        let show = format!("{}:{}", t, val);
        let mut steps = 0;
        loop {
            steps += 1;
            if steps > 20_000 {
                self.runaway = true;
                return Err(0);
            }
            let top = self.stack.last().unwrap().0;
            match self.act(top, t) {
                Act::Shift(s) => {
                    let x = self.shifted_as.last().unwrap().1;
                    // an untyped replacement token carries nothing for an alias to bind
                    let val = if x != t && !self.m.spec.tty(x).set() { Val::U } else { val };
                    self.push(s, false, val, Some(show))?;
                    self.error_count = self.error_count.saturating_sub(1);
                    return Ok(None);
                }
                Act::Reduce(r) => {
                    if let Some(v) = self.reduce(r)? {
                        return Ok(Some(v));
                    }
                }
                Act::Err => {
                    let exp = self.expected();
                    self.errs.push((self.states(), t));
                    if eoi {
                        return Err(self.parse_fail());
                    }
                    if let Some(en) = self.m.g.error {
                        loop {
                            let Some((s, is_err, _)) = self.stack.last() else {
                                return Err(self.parse_fail());
                            };
                            if *is_err {
                                break;
                            }
                            if let Some(n) = self.m.l.ngo[*s].get(&en) {
                                let n = *n;
                                let v = self.syntax_error(&show, exp)?;
                                self.push(n, true, v, None)?;
                                break;
                            }
                            self.stack.pop();
                        }
                        self.recoveries += 1;
                    } else if self.error_count == 0 {
                        self.syntax_error(&show, exp)?;
                    }
                    self.dropped.push(self.tokno);
                    self.error_count = 3;
                    return Ok(None);
                }
            }
        }
    }
    /// one caller operation (see rt.rs)
    pub fn op(&mut self, k: char, a: &[u64]) {
        self.op_inner(k, a);
        if self.plan.live {
            let n = if self.gone || self.dead {
                "0".to_string()
            } else if self.failed {
                "?".to_string()
            } else {
                self.held().to_string()
            };
            if let Some(Ev::Ret(r)) = self.log.last_mut() {
                *r = format!("{}~{}", r, n);
            }
        }
    }
    /// how many payloads are on the stack
    pub fn held(&self) -> usize {
        self.stack.iter().map(|x| x.2.held()).sum()
    }
    fn op_inner(&mut self, k: char, a: &[u64]) {
        let g = |i: usize| a.get(i).copied().unwrap_or(0);
        let ret = |m: &mut Self, s: String| m.log.push(Ev::Ret(s));
        if self.gone {
            return ret(self, "panic".into());
        }
        match k {
            't' => self.call(Some((g(0) as usize, g(1), g(2)))),
            'e' => self.call(None),
            'd' => {
                self.gone = true;
                ret(self, "drop".into())
            }
            'k' => {
                let s = self.m.spec.tok_access(g(0) as usize, g(1), g(2), g(3));
                ret(self, format!("tk{}", s))
            }
            'x' if !self.m.spec.extra_arg => ret(self, "exNone".into()),
            'X' if !self.m.spec.extra_arg => ret(self, "set".into()),
            'i' if !self.m.spec.extra_arg => ret(self, "ieNone".into()),
            _ if self.dead => ret(self, "panic".into()),
            'x' => ret(self, format!("exSome({})", self.ext)),
            'X' => {
                self.ext = g(0);
                ret(self, "set".into())
            }
            'i' => {
                self.dead = true;
                ret(self, format!("ieSome({})", self.ext))
            }
            _ => unreachable!(),
        }
    }
    pub fn call(&mut self, t: Option<(usize, u64, u64)>) {
        if self.dead {
            self.log.push(Ev::Ret("panic".into()));
            return;
        }
        if self.failed {
            self.log.push(Ev::Ret("panic".into()));
            if t.is_none() {
                self.dead = true;
            }
            return;
        }
        let (ti, v) = match t {
            Some((t, v, x)) => (t, self.m.spec.tty(t).val(v, x)),
            None => (self.m.g.nt, Val::U),
        };
        let r = self.token(ti, v);
        self.tokno += 1;
        let s = match r {
            Err(e) => {
                self.failed = true;
                format!("err{}", e)
            }
            Ok(None) => "ok".to_string(),
            Ok(Some(v)) => match self.e() {
                Some(x) => format!("acc{}@{}", v, x),
                None => format!("acc{}", v),
            },
        };
        if t.is_none() {
            self.dead = true;
        }
        self.log.push(Ev::Ret(s));
    }
    pub fn states(&self) -> Vec<usize> {
        self.stack.iter().map(|x| x.0).collect()
    }
    pub fn is_failed(&self) -> bool {
        self.failed
    }
}
