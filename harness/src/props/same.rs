//! C27: the expansion is a function of the specification.
use super::*;
use crate::choice::Src;

const COPIES: usize = 6;
pub struct C27;
impl Prop for C27 {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "one case = one specification expanded eight times, in three runs of the compiler: the text of the expansion, the dump of %verbose, or the error message and its place, must be the same each time. Valid specifications (with several optional symbols), specifications with conflicts, and such with one to three documented rules broken at once. Non-trivial: a specification of at least four declarations. Distinct by text."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1200, thorough: 40000, shard: 20, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut job = Job { kind: String::new(), specs: vec![], texts: vec![], nums: vec![], cases: vec![] };
        if s.chance(35) {
            let sp = super::bad::base(s, idx)?;
            job.texts.push(super::bad::several(s, &sp, idx));
            job.kind = "broken".into();
            return Some(job);
        }
        let sp = super::env::C16.gen(s, idx)?.specs.remove(0);
        let mut t: Vec<String> = sp.decls();
        // further symbols, apart from all others
        let st = &sp.nts[sp.start_nt()].name;
        for k in 0..s.below(4) {
            let mut rhs = format!("Zq{}", k);
            for i in 0..s.range(1, 4) {
                let o = s.below(6);
                rhs.push_str(&match s.below(4) {
                    0 => format!(" Zo{} Zr{}", o, i),
                    1 | 2 => format!(" Zo{}? Zr{}", o, i),
                    _ => format!(" Zo{}|Zp{}? Zr{}", o, o, i),
                });
            }
            t.push(format!("{} ::= {} {{ ::core::unreachable!() }}", st, rhs));
        }
        for o in 0..6 {
            if t.iter().any(|x| x.contains(&format!("Zo{}", o))) && s.chance(40) {
                let ty = *s.pick(&["u8", "Vec<u8>", "(u8, u8)"]);
                t.insert(s.below(t.len()), format!("%type Zo{} {};", o, ty));
                t.insert(s.below(t.len()), format!("%type Zp{} {};", o, ty));
            }
        }
        if s.chance(25) {
            let c = |x: &str| format!("{} ::= Zc {} {{ ::core::unreachable!() }}", st, x);
            t.extend([c("zx Zr"), c("zy Zr"), c("zx Zs"), c("zy Zt"), "zx ::= Zx;".into(), "zy ::= Zx;".into()]);
        }
        for i in 0..s.weighted(&[40, 15, 15, 15, 15]) {
            let items: String = (0..s.range(1, 3)).map(|j| s.pick(&["use ::core::fmt::Debug as Zd@; ", "pub fn zf@() {} ", "const ZC@: u8 = 1; ", "pub type Zt@ = u8; "]).replace('@', &format!("{}_{}", i, j))).collect();
            t.insert(s.below(t.len() + 1), format!("%include {{ {}}}", items));
        }
        job.texts.push(t.join("\n"));
        job.kind = "whole".into();
        Some(job)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let t = &job.texts[0];
        let mut v: Vec<Unit> = (0..COPIES).map(|_| Unit { src: format!("pomelo::pomelo! {{\n{}\n}}", t), mode: Mode::Print }).collect();
        let d = if t.contains("%verbose;") { String::new() } else { "%verbose;".to_string() };
        v.extend((0..2).map(|_| Unit { src: format!("{} pomelo::pomelo! {{ {}\n{}\n}} {}", MARK, d, t, MARK), mode: Mode::Expand }));
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let text = &job.texts[0];
        let u = &obs.units;
        // a crash is the matter of C18
        if u.iter().any(|x| matches!(x, St::Died(_))) {
            return Ok(());
        }
        let first = |a: &str, b: &str| a.lines().zip(b.lines()).find(|(x, y)| x != y).map_or(String::new(), |(x, y)| format!("{}\n/ {}", x.chars().take(300).collect::<String>(), y.chars().take(300).collect::<String>()));
        for k in 1..COPIES + 2 {
            let j = if k < COPIES { 0 } else { COPIES };
            if k == j {
                continue;
            }
            if u[k] != u[j] {
                let (a, b) = (format!("{:?}", u[j]).replace("\\n", "\n"), format!("{:?}", u[k]).replace("\\n", "\n"));
                return fail(None, format!("two expansions differ in their outcome:\n{}\nof\n{}", first(&a, &b), text));
            }
            if obs.lines.get(j) != obs.lines.get(k) {
                return fail(None, format!("the error {:?} is reported at different places of\n{}", u[j], text));
            }
            if obs.outs.get(j) != obs.outs.get(k) {
                return fail(None, format!("two {} differ:\n{}\nof\n{}", if j == 0 { "expansions" } else { "dumps" }, first(&obs.outs[j], &obs.outs[k]), text));
            }
        }
        let what = match &u[0] {
            St::Ok => "expanded",
            St::Rejected(m) if m.starts_with("Parsing conflicts") => "conflicts",
            St::Rejected(_) => "broken",
            _ => "other",
        };
        t.count(what);
        if what == "expanded" {
            let n = obs.outs[0].lines().count();
            if n < 50 {
                return fail(None, format!("the expanded text has {} lines", n));
            }
            let opt = text.matches("? ").count();
            t.count(if opt >= 2 { "expanded, several optional symbols" } else { "expanded, fewer optional symbols" });
            if text.len() < 400 && opt >= 2 {
                t.sample(|| format!("{} lines of code, {} bytes of dump: {}", n, obs.outs[COPIES].len(), text.replace('\n', " ")));
            }
        }
        t.eval(text.lines().count() >= 4, text);
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 900), ("expanded, several optional symbols", 150), ("conflicts", 100), ("broken", 150)]
    }
}
