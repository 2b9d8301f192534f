pub mod bad;
pub mod conf;
pub mod custom;
pub mod drive;
pub mod dump;
pub mod env;
pub mod err;
pub mod held;
pub mod how;
pub mod iface;
pub mod lang;
pub mod name;
pub mod place;
pub mod same;
pub mod size;
pub mod tok;
pub mod typ;

use crate::cfg::*;
use crate::engine::*;
use crate::lalr::*;
use crate::machine::*;
use crate::spec::*;

pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "C01" => Box::new(lang::C01),
        "C02" => Box::new(lang::C02),
        "C03" => Box::new(conf::C03),
        "C04" => Box::new(conf::C04),
        "C05" => Box::new(lang::C05),
        "C06" => Box::new(err::C06),
        "C07" => Box::new(err::C07),
        "C08" => Box::new(err::C08),
        "C09" => Box::new(env::C09),
        "C10" => Box::new(tok::C10),
        "C11" => Box::new(tok::C11),
        "C12" => Box::new(tok::C12),
        "C13" => Box::new(typ::C13),
        "C14" => Box::new(err::C14),
        "C15" => Box::new(env::C15),
        "C16" => Box::new(env::C16),
        "C17" => Box::new(size::C17),
        "C18" => Box::new(bad::C18),
        "C19" => Box::new(env::C19),
        "C20" => Box::new(env::C20),
        "C22" => Box::new(err::C22),
        "C23" => Box::new(name::C23),
        "C24" => Box::new(dump::C24),
        "C25" => Box::new(place::C25),
        "C26" => Box::new(how::C26),
        "C28" => Box::new(iface::C28),
        "C29" => Box::new(held::C29),
        "C27" => Box::new(same::C27),
        "C21" => Box::new(custom::C21),
        _ => return None,
    })
}

pub fn unit(spec: &Spec) -> Unit {
    Unit { src: spec.unit(), mode: Mode::Full }
}

/// One caller operation of a trace: what ran inside it and what it returned.
#[derive(Debug, Clone)]
pub struct Call {
    pub evs: Vec<Ev>,
    pub ret: String,
}
pub fn calls(t: &[Ev]) -> Vec<Call> {
    let mut v = Vec::new();
    let mut cur = Vec::new();
    for e in t {
        match e {
            Ev::Ret(r) => v.push(Call { evs: std::mem::take(&mut cur), ret: r.clone() }),
            e => cur.push(e.clone()),
        }
    }
    if !cur.is_empty() {
        v.push(Call { evs: cur, ret: "NORET".into() });
    }
    v
}
/// The trace of a single-instance case: None when its unit was not accepted; Err when the program
/// died or panicked where it must not.
pub fn trace(obs: &Obs, c: usize) -> Option<Vec<Ev>> {
    let t = obs.cases[c].as_ref()?;
    Some(parse_trace(t))
}
/// The unit is in the domain of the property, so it must be accepted and must compile.
pub fn accepted(obs: &Obs, u: usize) -> Result<(), Fail> {
    let m = match &obs.units[u] {
        St::Ok => return Ok(()),
        St::Rejected(m) => format!("rejected: {}", m),
        St::Panicked(m) => format!("made the macro panic: {}", m),
        St::TypeErr(m) => format!("expanded to code that does not compile: {}", m),
        St::Died(m) => format!("made the compiler fail: {}", m),
    };
    Err(Fail { msg: format!("a valid conflict-free specification was {}", m), case: None })
}
pub fn died(obs: &Obs, c: usize) -> Option<&str> {
    obs.cases[c].as_deref().filter(|t| t.starts_with("DIED"))
}
pub fn toks_str(spec: &Spec, t: &[usize]) -> String {
    t.iter().map(|t| spec.terms[*t].name.clone()).collect::<Vec<_>>().join(" ")
}
/// payload given to the i-th token of Case::toks
pub fn payload(i: usize) -> (u64, u64) {
    (10 + i as u64, 5000 + i as u64)
}
/// the arguments actually used in the case (robust against shrinking)
pub fn token_args(c: &Case) -> Vec<(usize, u64, u64)> {
    c.ops.iter().filter(|o| o.k == 't').map(|o| (o.a[0] as usize, o.a[1], o.a[2])).collect()
}
/// shape `n t* e?`
pub fn simple_shape(c: &Case) -> bool {
    c.ops.first().map_or(false, |o| o.k == 'n') && c.ops[1..].iter().enumerate().all(|(i, o)| o.k == 't' || (o.k == 'e' && i + 2 == c.ops.len()))
}
pub fn ends(c: &Case) -> bool {
    c.ops.last().map_or(false, |o| o.k == 'e')
}
/// Typed rules without code have exactly one typed symbol, of the type of the rule.
pub fn nocode_ok(spec: &Spec) -> bool {
    spec.rules.iter().all(|r| {
        if r.code != Code::None || !spec.nty(r.lhs).set() {
            return true;
        }
        let t: Vec<Ty> = r.rhs.iter().map(|i| spec.item_ty(i)).filter(|t| t.set()).collect();
        t.len() == 1 && t[0] == spec.nty(r.lhs)
    })
}
pub fn plain_spec(spec: &Spec) -> Option<(Cfg, Lalr)> {
    if spec.rules.is_empty() || !nocode_ok(spec) || !spec.prec.is_empty() || !spec.fallback.is_empty() || spec.wildcard.is_some() || spec.uses_error() {
        return None;
    }
    let g = Cfg::of(spec);
    if !g.reduced() || g.mixed_prec {
        return None;
    }
    let l = Lalr::build_limited(&g, 3000)?;
    if !l.plain() {
        return None;
    }
    Some((g, l))
}
pub fn features(t: &mut Tally, g: &Cfg, l: &Lalr) {
    t.count("grammars");
    let n = l.kernels.len();
    t.count(match n {
        0..=9 => "grammars with <10 states",
        10..=19 => "grammars with 10-19 states",
        20..=49 => "grammars with 20-49 states",
        _ => "grammars with >=50 states",
    });
    if !l.slr(g) {
        t.count("grammars not SLR(1)");
    }
    if g.nullable.iter().any(|x| *x) {
        t.count("grammars with nullable nonterminals");
    }
}

/// Cross-checks of the oracles against each other; no pomelo involved.
pub fn selftest(n: u64) -> i32 {
    use crate::choice::Src;
    use crate::earley::Earley;
    use crate::gen;
    let mut done = 0;
    let mut la = 0;
    let mut strings = 0;
    for i in 0..n {
        let mut s = Src::new("selftest", 1, i);
        let p = gen::GenP { sugar: if i % 3 == 0 { 20 } else { 0 }, ..Default::default() };
        let Some(spec) = (if i % 2 == 0 { gen::random_cfg(&mut s, &p) } else { gen::lalr_grammar(&mut s, &p, gen::WANTS[i as usize / 2 % 5]) }) else { continue };
        let g = Cfg::of(&spec);
        if !g.reduced() {
            continue;
        }
        let Some(l) = Lalr::build_limited(&g, 120) else { continue };
        if !l.overlap {
            if let Some(c) = l.canonical_lookaheads(&g, 600) {
                la += 1;
                for (k, b) in &l.la {
                    if c.get(k) != Some(b) {
                        println!("lookahead mismatch at {:?} of\n{}", k, spec.macro_input());
                        return 1;
                    }
                }
                if c.len() != l.la.len() {
                    println!("lookahead count mismatch of\n{}", spec.macro_input());
                    return 1;
                }
            }
        }
        done += 1;
        if !l.plain() {
            continue;
        }
        let mut sp2 = spec.clone();
        gen::decorate(&mut s, &mut sp2, &gen::Deco::full());
        let m = Model::new(&sp2);
        for _ in 0..30 {
            let mut v = g.sentence(&mut s, 12);
            for _ in 0..s.below(3) {
                v = gen::mutate(&mut s, &v, g.nt);
            }
            strings += 1;
            for pol in [Defaults::None, Defaults::Lemon] {
                let mut inst = m.start(pol, Plan::default(), 7);
                let mut e = Earley::new(&g);
                let mut bad = None;
                for (i, t) in v.iter().enumerate() {
                    inst.call(Some((*t, 1, 1)));
                    let ok = e.push(*t);
                    if ok == inst.is_failed() {
                        bad = Some(i);
                        break;
                    }
                    if !ok {
                        bad = Some(usize::MAX);
                        break;
                    }
                }
                if bad.is_none() {
                    inst.call(None);
                    if e.accepts() == inst.is_failed() {
                        bad = Some(v.len());
                    }
                }
                if let Some(b) = bad {
                    if b != usize::MAX {
                        println!("earley/model disagree at {} of {:?}\n{}", b, v, spec.macro_input());
                        return 1;
                    }
                }
            }
        }
    }
    println!("selftest: {} grammars, {} lookahead cross-checks, {} strings", done, la, strings);
    0
}
