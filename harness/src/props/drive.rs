//! Comparison of observed traces with the reference machine.
use super::*;

pub fn norm(tr: &[Ev], exp: bool) -> Vec<Ev> {
    tr.iter()
        .map(|e| match e {
            Ev::Ret(s) if s.starts_with("panic:") && s != "panic:RUNAWAY" => Ev::Ret("panic".into()),
            Ev::Y { tok, exp: x, ext, out } => {
                let mut x = if exp { x.clone() } else { vec![] };
                x.sort();
                Ev::Y { tok: tok.clone(), exp: x, ext: *ext, out: *out }
            }
            e => e.clone(),
        })
        .collect()
}
pub fn diff(want: &[Ev], got: &[Ev]) -> String {
    let k = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap_or(0);
    let at = |v: &[Ev]| v.get(k).map_or("nothing".to_string(), |e| e.to_string());
    let pre = &got[k.saturating_sub(6).min(got.len())..k.min(got.len())];
    format!("event #{}: expected {}, got {} (after: {})", k, at(want), at(got), show(pre))
}
/// The reference machine run over the operations of a case, one instance per entry of `c.g`.
pub fn run<'a, 'b>(ms: &'b [Model<'a>], c: &Case, pol: Defaults) -> Vec<Inst<'a, 'b>> {
    let mut v: Vec<Option<Inst<'a, 'b>>> = c.g.iter().map(|_| None).collect();
    for o in &c.ops {
        if o.k == 'n' {
            let plan = Plan::parse(&c.plans[o.i % c.plans.len()]);
            v[o.i] = Some(ms[c.g[o.i]].start(pol, plan, o.a[0]));
        } else {
            v[o.i].as_mut().expect("instance created first").op(o.k, &o.a);
        }
    }
    v.into_iter().map(|i| i.expect("instance created")).collect()
}
/// every instance is created exactly once, before its first use
pub fn well_formed(c: &Case, ms: usize) -> bool {
    let mut made = vec![0; c.g.len()];
    for o in &c.ops {
        if o.i >= c.g.len() {
            return false;
        }
        if o.k == 'n' {
            made[o.i] += 1;
        } else if made[o.i] == 0 {
            return false;
        }
    }
    c.g.iter().all(|g| *g < ms) && made.iter().all(|m| *m == 1)
}
pub enum Agree<'a, 'b> {
    /// the machine's run that the observation equals (per instance)
    Yes(Vec<Inst<'a, 'b>>),
    /// outside the specified domain
    Skip(&'static str),
    No(String),
}
/// one instance of the case alone
fn run_one<'a, 'b>(ms: &'b [Model<'a>], c: &Case, i: usize, pol: Defaults, dec: &[(usize, Option<usize>)]) -> Inst<'a, 'b> {
    let mut v: Option<Inst<'a, 'b>> = None;
    for o in c.ops.iter().filter(|o| o.i == i) {
        if o.k == 'n' {
            let mut x = ms[c.g[i]].start(pol, Plan::parse(&c.plans[i % c.plans.len()]), o.a[0]);
            x.dec = dec.iter().copied().collect();
            v = Some(x);
        } else {
            v.as_mut().expect("instance created first").op(o.k, &o.a);
        }
    }
    v.expect("instance created")
}
/// Compares the traces of a case with the reference machine. Whether, and by which rule, a state
/// whose lookup fails first performs a default reduction is not specified: any per-state choice that
/// explains the trace is accepted.
pub fn agree<'a, 'b>(ms: &'b [Model<'a>], c: &Case, traces: &[Vec<Ev>], exp: bool) -> Agree<'a, 'b> {
    if !well_formed(c, ms.len()) {
        return Agree::Skip("malformed case");
    }
    if traces.len() != c.g.len() {
        return Agree::No(format!("{} instance traces for {} instances", traces.len(), c.g.len()));
    }
    let mut out = Vec::new();
    for (k, t) in traces.iter().enumerate() {
        let got = norm(t, exp);
        let mut path: Vec<(usize, usize)> = vec![]; // state, index among its choices
        let mut first_diff = None;
        let mut tries = 0;
        let found = loop {
            tries += 1;
            if tries > 400 {
                return Agree::Skip("too many default reductions to choose from");
            }
            let dec: Vec<(usize, Option<usize>)> = path.iter().map(|(s, i)| (*s, ms[c.g[k]].choices(*s)[*i])).collect();
            let inst = run_one(ms, c, k, Defaults::Chosen, &dec);
            if inst.runaway {
                return Agree::Skip("unbounded empty reductions");
            }
            let want = norm(&inst.log, exp);
            if want == got {
                break Some(inst);
            }
            if first_diff.is_none() {
                first_diff = Some(diff(&want, &got));
            }
            // reconsider the latest choice made before the first difference
            let at = (0..want.len().max(got.len())).find(|i| want.get(*i) != got.get(*i)).unwrap();
            let old: std::collections::HashMap<usize, usize> = path.iter().copied().collect();
            path = inst.seen.iter().filter(|x| x.1 <= at).map(|x| (x.0, old.get(&x.0).copied().unwrap_or(0))).collect();
            while let Some((s, i)) = path.pop() {
                if i + 1 < ms[c.g[k]].choices(s).len() {
                    path.push((s, i + 1));
                    break;
                }
            }
            if path.is_empty() {
                break None;
            }
        };
        match found {
            Some(i) => out.push(i),
            None => return Agree::No(first_diff.unwrap()),
        }
    }
    Agree::Yes(out)
}
pub fn traces(obs: &Obs, c: usize) -> Option<Vec<Vec<Ev>>> {
    Some(obs.traces(c)?.into_iter().map(parse_trace).collect())
}
/// Well-formed grammars whose table is fully determined: what the machine-based checks work on.
pub fn determined(spec: &Spec, max_states: usize) -> Option<(Cfg, Lalr)> {
    if spec.rules.is_empty() || !nocode_ok(spec) {
        return None;
    }
    // a fallback has the type of the tokens falling back to it, or none
    for (f, v) in &spec.fallback {
        let t = spec.tty(*f);
        if t.set() && v.iter().any(|x| spec.tty(*x) != t) {
            return None;
        }
    }
    let g = Cfg::of(spec);
    if !g.reduced() || g.mixed_prec || (!spec.prec.is_empty() && g.can_loop()) {
        return None;
    }
    let l = Lalr::build_limited(&g, max_states)?;
    if !l.ok() || l.overlap || (l.crowded && !spec.prec.is_empty()) {
        return None;
    }
    // an explicit %nonassoc error next to fallbacks or wildcards is not specified
    if (!spec.fallback.is_empty() || spec.wildcard.is_some()) && l.table.iter().any(|r| r.contains(&Cell::Non)) {
        return None;
    }
    Some((g, l))
}
pub fn render(spec: &Spec) -> String {
    spec.macro_input().replace('\n', " ")
}
/// description of a case's tokens
pub fn toks_of(spec: &Spec, c: &Case) -> String {
    toks_str(spec, &c.tokens())
}
