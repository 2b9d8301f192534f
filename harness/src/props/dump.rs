//! C24 the printed automaton is the parser's automaton.
use super::drive::render;
use super::*;
use crate::choice::Src;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Default, Debug)]
struct State {
    /// (number, rule text with `*` as a symbol)
    items: Vec<(Option<usize>, Vec<String>)>,
    /// symbol, action, what it leads to, mark
    acts: Vec<(String, String, Option<usize>, String)>,
}
#[derive(Default, Debug)]
struct Dump {
    states: Vec<State>,
    symbols: Option<Vec<String>>,
}

fn parse(text: &str) -> Result<Dump, String> {
    let mut d = Dump::default();
    // 0: before a state, 1: its items, 2: its actions, 3: symbols
    let mut at = 0;
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        let bad = || Err(format!("unexpected line {:?}", l));
        match (at, &w[..]) {
            (3, []) => {}
            (3, [n, rest @ ..]) => {
                let v = d.symbols.as_mut().unwrap();
                if *n != format!("{}:", v.len()) || rest.len() > 1 {
                    return bad();
                }
                v.push(rest.first().unwrap_or(&"").to_string());
            }
            (0, []) => {}
            (1, []) => at = 2,
            (2, []) => at = 0,
            (0, ["State", n]) => {
                if *n != format!("{}:", d.states.len()) {
                    return bad();
                }
                d.states.push(State::default());
                at = 1;
            }
            (0, [s]) if !s.is_empty() && s.chars().all(|c| c == '-') => {}
            (0, ["Symbols:"]) => {
                d.symbols = Some(vec![]);
                at = 3;
            }
            (1, v) => {
                let num = v[0].strip_prefix('(').and_then(|x| x.strip_suffix(')')).and_then(|x| x.parse().ok());
                let v = if num.is_some() { &v[1..] } else { v };
                if v.len() < 3 || v[1] != "::=" || v.iter().filter(|x| **x == "*").count() != 1 {
                    return bad();
                }
                let mut r: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                r.remove(1);
                d.states.last_mut().unwrap().items.push((num, r));
            }
            (2, [y, a @ ("accept" | "error"), rest @ ..]) => d.states.last_mut().unwrap().acts.push((y.to_string(), a.to_string(), None, rest.join(" "))),
            (2, [y, a @ ("shift" | "reduce"), n, rest @ ..]) => {
                let Ok(n) = n.parse() else { return bad() };
                d.states.last_mut().unwrap().acts.push((y.to_string(), a.to_string(), Some(n), rest.join(" ")));
            }
            _ => return bad(),
        }
    }
    Ok(d)
}

/// a symbol of a rule, comparable between the dump and the specification
type Sy = BTreeSet<String>;
fn sy(s: &str) -> Sy {
    s.split('|').map(|x| x.to_string()).collect()
}
fn one(s: &str) -> Sy {
    std::iter::once(s.to_string()).collect()
}
/// names of the symbols of the grammar; None for a generated nonterminal
fn nname(spec: &Spec, g: &Cfg, n: usize) -> Option<String> {
    if n < spec.nts.len() {
        Some(spec.nts[n].name.clone())
    } else if g.error == Some(n) {
        Some("error".into())
    } else {
        None
    }
}
const CONF: &str = "** Parsing conflict **";
const DROP: &str = "-- dropped by precedence";

/// the preconditions that make the dump readable without doubt
fn readable(spec: &Spec, g: &Cfg) -> bool {
    let mut seen = HashSet::new();
    g.rules.iter().all(|r| {
        let k: Vec<Result<BTreeSet<usize>, usize>> = r.rhs.iter().map(|c| match c { C::T(v, _) => Ok(v.iter().copied().collect()), C::N(n) => Err(*n) }).collect();
        // generated nonterminals are told apart by their only symbol
        let l = if nname(spec, g, r.lhs).is_some() { r.lhs } else { usize::MAX };
        (l == usize::MAX && k.is_empty()) || seen.insert((l, k))
    })
}

fn compare(spec: &Spec, g: &Cfg, l: &Lalr, d: &Dump) -> Result<(), String> {
    let t = |i: usize| if i == g.nt { "$".to_string() } else { spec.terms[i].name.clone() };
    // the generated nonterminals by the symbol they make optional
    let mut gen_of: HashMap<String, usize> = HashMap::new();
    let user: HashSet<String> = (0..g.nn).filter_map(|n| nname(spec, g, n)).collect();
    let base = |c: &C| -> Sy {
        match c {
            C::T(v, _) => v.iter().map(|x| t(*x)).collect(),
            C::N(n) => one(&nname(spec, g, *n).unwrap_or_default()),
        }
    };
    for st in &d.states {
        for (_, it) in &st.items {
            let rhs: Vec<&String> = it[1..].iter().filter(|x| *x != "*").collect();
            if !user.contains(&it[0]) && rhs.len() == 1 {
                let want = sy(rhs[0]);
                let n = g.rules.iter().find(|r| r.origin == Origin::OptSome && base(&r.rhs[0]) == want).map(|r| r.lhs);
                match n {
                    Some(n) => {
                        if *gen_of.entry(it[0].clone()).or_insert(n) != n {
                            return Err(format!("{} has two rules", it[0]));
                        }
                    }
                    None => return Err(format!("the item {:?} is not of the grammar", it)),
                }
            }
        }
    }
    let gname = |n: usize| gen_of.iter().find(|x| *x.1 == n).map(|x| x.0.clone());
    let name = |n: usize| nname(spec, g, n).or_else(|| gname(n)).unwrap_or_else(|| "?".into());
    let rkey = |r: usize| -> (String, Vec<Sy>) {
        let r = &g.rules[r];
        (name(r.lhs), r.rhs.iter().map(|c| if let C::N(n) = c { one(&name(*n)) } else { base(c) }).collect())
    };
    let rules: HashMap<(String, Vec<Sy>), usize> = (0..g.rules.len()).map(|r| (rkey(r), r)).collect();
    if rules.len() != g.rules.len() {
        // an optional symbol no state has an item for, or rules alike
        return Err("not all rules of the grammar are in the dump".into());
    }
    if d.states.len() != l.kernels.len() {
        return Err(format!("{} states in the dump, the LALR(1) automaton has {}", d.states.len(), l.kernels.len()));
    }
    let sets: HashMap<Vec<LItem>, usize> = l
        .closures
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let mut c = c.clone();
            c.sort();
            (c, i)
        })
        .collect();
    let mut to = vec![];
    let mut num: BTreeMap<usize, usize> = BTreeMap::new();
    for (si, st) in d.states.iter().enumerate() {
        let mut set = vec![];
        for (n, it) in &st.items {
            let dot = it[1..].iter().position(|x| x == "*").unwrap();
            let rhs: Vec<Sy> = it[1..].iter().filter(|x| *x != "*").map(|x| sy(x)).collect();
            let Some(r) = rules.get(&(it[0].clone(), rhs)) else { return Err(format!("state {}: the item {:?} is not of the grammar", si, it.join(" "))) };
            set.push((*r, dot));
            if n.is_some() != (dot == g.rules[*r].rhs.len()) {
                return Err(format!("state {}: {} item {:?}", si, if n.is_some() { "numbered incomplete" } else { "unnumbered complete" }, it.join(" ")));
            }
            if let Some(n) = n {
                if *num.entry(*n).or_insert(*r) != *r {
                    return Err(format!("two rules have the number {}", n));
                }
            }
        }
        let all = set.len();
        set.sort();
        set.dedup();
        match sets.get(&set) {
            Some(k) if all == set.len() && !to.contains(k) && (si != 0 || *k == 0) => to.push(*k),
            _ => return Err(format!("state {} of the dump has items no state of the LALR(1) automaton has (or has them twice): {:?}", si, st.items)),
        }
    }
    if num.values().collect::<HashSet<_>>().len() != num.len() {
        return Err("a rule has two numbers".into());
    }
    let num_of: HashMap<usize, usize> = num.iter().map(|(n, r)| (*r, *n)).collect();
    let pos: HashMap<usize, usize> = to.iter().enumerate().map(|(i, k)| (*k, i)).collect();
    for (si, st) in d.states.iter().enumerate() {
        let k = to[si];
        let reds: Vec<usize> = l.closures[k].iter().filter(|(r, d)| *d == g.rules[*r].rhs.len()).map(|x| x.0).collect();
        for x in 0..=g.nt {
            let n = t(x);
            let sh = if x < g.nt { l.tgo[k].get(&x).map(|s| pos[s]) } else { None };
            let rs: Vec<usize> = reds.iter().copied().filter(|r| l.la.get(&(k, *r)).map_or(false, |b| b.get(x))).collect();
            let mut got: Vec<(String, Option<usize>, String)> = st.acts.iter().filter(|a| a.0 == n).map(|a| (a.1.clone(), a.2, a.3.clone())).collect();
            let cnt = sh.is_some() as usize + rs.len();
            let cell = l.table[k][x];
            let mut want: Vec<(String, Option<usize>, String)> = vec![];
            if let Some(s) = sh {
                let m = match cell {
                    Cell::Reduce(_) => DROP,
                    _ => "",
                };
                want.push(if cell == Cell::Non { ("error".into(), None, "".into()) } else { ("shift".into(), Some(s), m.into()) });
            }
            for r in &rs {
                let resolved = l.conflicts.iter().find(|c| c.state == k && c.term == x).map_or(true, |c| c.resolved);
                let m = match cell {
                    Cell::Reduce(w) if w == *r => "",
                    _ if resolved => DROP,
                    _ => CONF,
                };
                want.push(("reduce".into(), num_of.get(r).copied(), m.into()));
            }
            if cnt >= 3 {
                // the marks of three or more competing actions are not specified
                for v in [&mut got, &mut want] {
                    v.iter_mut().for_each(|a| {
                        a.2.clear();
                        if a.0 == "error" {
                            (a.0, a.1) = ("shift".into(), sh);
                        }
                    });
                }
            }
            if cnt == 2 && rs.len() == 2 && want.iter().any(|a| a.2 == CONF) {
                // either of the two may carry the mark (the order of generated rules is free)
                if got.iter().filter(|a| a.2 == CONF).count() == 1 {
                    for v in [&mut got, &mut want] {
                        v.iter_mut().filter(|a| a.2 == CONF).for_each(|a| a.2.clear());
                    }
                }
            }
            got.sort();
            want.sort();
            if got != want {
                return Err(format!("state {} on {}: the dump has {:?}, the LALR(1) automaton {:?}", si, n, got, want));
            }
        }
        for x in 0..g.nn {
            let n = name(x);
            let got: Vec<(&str, Option<usize>, &str)> = st.acts.iter().filter(|a| a.0 == n).map(|a| (&a.1[..], a.2, &a.3[..])).collect();
            let mut want = vec![];
            if let Some(s) = l.ngo[k].get(&x) {
                want.push(("shift", Some(pos[s]), ""));
            }
            if k == 0 && x == g.start {
                want.push(("accept", None, ""));
            }
            if got != want {
                return Err(format!("state {} on {}: the dump has {:?}, the LALR(1) automaton {:?}", si, n, got, want));
            }
        }
        if let Some(a) = st.acts.iter().find(|a| (0..=g.nt).all(|x| t(x) != a.0) && (0..g.nn).all(|x| name(x) != a.0)) {
            return Err(format!("state {}: action on the unknown symbol {}", si, a.0));
        }
    }
    if let Some(v) = &d.symbols {
        let mut used: Vec<String> = (0..g.nn).filter(|n| g.rules.iter().any(|r| r.lhs == *n || r.rhs.contains(&C::N(*n)))).map(name).collect();
        used.sort();
        used.dedup();
        used.push("$".into());
        for r in &g.rules {
            for c in &r.rhs {
                if let C::T(ts, _) = c {
                    used.extend(ts.iter().map(|x| t(*x)));
                }
            }
        }
        for u in used {
            if v.iter().filter(|x| **x == u).count() != 1 {
                return Err(format!("the symbol {} is not once in the list of symbols", u));
            }
        }
    }
    Ok(())
}

pub struct C24;
impl Prop for C24 {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "one case = one specification (conflict-free, with conflicts settled by precedence, or with unresolved conflicts) and the text pomelo prints for it: on the compiler's output because of %verbose, or in the error about conflicts; the text is read back and compared with the reference LALR(1) automaton up to the numbering of states and rules. Non-trivial: at least 5 states. Distinct by rules and precedences."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 6000, thorough: 150000, shard: 60, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut j = super::conf::C03.gen(s, idx)?;
        let sp = &mut j.specs[0];
        sp.order.clear();
        sp.verbose = s.chance(85);
        if s.chance(10) {
            // what plays no part in the automaton
            let n = sp.terms.len();
            if n >= 3 && sp.prec.is_empty() && sp.tty(0) == sp.tty(1) {
                sp.fallback.push((0, vec![1]));
            }
        }
        if s.chance(15) {
            j.nums = vec![s.u32() as u64];
            let r = super::name::renamed(&j.specs[0], j.nums[0]);
            j.specs[0] = r;
        }
        Some(j)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        vec![Unit { src: format!("{} pomelo::pomelo! {{\n{}\n}} {}", MARK, job.specs[0].macro_input(), MARK), mode: Mode::Expand }]
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        let plain = Spec { fallback: vec![], ..spec.clone() };
        if spec.rules.is_empty() || !super::conf::well_formed_spec(&plain) {
            return Ok(());
        }
        let g = Cfg::of(spec);
        let Some(l) = Lalr::build_limited(&g, 1500) else { return Ok(()) };
        if g.mixed_prec || l.overlap || (l.crowded && !spec.prec.is_empty()) {
            t.count("skipped: outcome not specified");
            return Ok(());
        }
        if !l.can_reduce.iter().all(|x| *x) {
            t.count("skipped: a rule is never reduced");
            return Ok(());
        }
        if !readable(spec, &g) {
            t.count("skipped: rules alike");
            return Ok(());
        }
        let out = obs.outs.first().cloned().unwrap_or_default();
        let (text, kind) = match &obs.units[0] {
            St::Ok if !l.unresolved() => {
                if !spec.verbose {
                    t.count("accepted without %verbose");
                    t.eval(l.kernels.len() >= 5, &(&spec.rules, &spec.prec, &spec.start));
                    return if out.trim().is_empty() { Ok(()) } else { fail(None, format!("printed without %verbose: {}", out.chars().take(200).collect::<String>())) };
                }
                (out, if l.conflicts.is_empty() { "dump without conflicts" } else { "dump with conflicts settled by precedence" })
            }
            St::Rejected(m) if l.unresolved() => {
                let Some(x) = m.strip_prefix("Parsing conflicts:") else { return fail(None, format!("the error does not show the automaton: {}", m)) };
                (x.to_string(), "error about conflicts")
            }
            _ => {
                t.count("skipped: other outcome (C03)");
                return Ok(());
            }
        };
        let d = match parse(&text) {
            Ok(d) => d,
            Err(m) => return fail(None, format!("the dump cannot be read: {}", m)),
        };
        t.eval(l.kernels.len() >= 5, &(&spec.rules, &spec.prec, &spec.start));
        t.count(kind);
        t.add("states compared", d.states.len() as u64);
        if g.rules.iter().any(|r| r.origin == Origin::OptSome) {
            t.count("with optional symbols");
        }
        if l.kernels.len() > 6 {
            t.sample(|| format!("{} -> {} states, {}", render(spec), d.states.len(), kind));
        }
        if let Err(m) = compare(spec, &g, &l, &d) {
            return fail(None, m);
        }
        if d.symbols.is_some() != spec.verbose {
            return fail(None, format!("the list of symbols is {}", if spec.verbose { "missing" } else { "printed without %verbose" }));
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![
            ("distinct", 2000),
            ("dump without conflicts", 800),
            ("dump with conflicts settled by precedence", 150),
            ("error about conflicts", 500),
            ("accepted without %verbose", 100),
            ("with optional symbols", 50),
        ]
    }
}
