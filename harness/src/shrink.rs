//! Structural shrinking of a failing job.  Candidates are judged by the property itself, so a
//! candidate outside the property's domain simply does not fail.
use crate::engine::*;
use crate::gen;
use crate::spec::*;

fn usable(sp: &Spec) -> bool {
    !sp.rules.is_empty() && sp.rules.iter().any(|r| r.lhs == sp.start_nt())
}
/// drops terminals nothing refers to, renumbering the tokens of the cases
fn drop_terms(job: &Job) -> Option<Job> {
    if job.specs.len() != 1 {
        return None;
    }
    let mut j = job.clone();
    let keep: Vec<usize> = job.cases.iter().flat_map(|c| c.ops.iter()).filter(|o| o.k == 't' || o.k == 'k').map(|o| o.a[0] as usize).collect();
    let map = gen::compact_keep(&mut j.specs[0], &keep);
    if j.specs[0].terms.len() == job.specs[0].terms.len() && j.specs[0].nts.len() == job.specs[0].nts.len() {
        return None;
    }
    for c in &mut j.cases {
        for o in &mut c.ops {
            if o.k == 't' || o.k == 'k' {
                o.a[0] = map[o.a[0] as usize] as u64;
            }
        }
    }
    Some(j)
}

fn strip_alias(r: &mut Rule) {
    if let Code::Fwd(_) | Code::SomeOf(_) = r.code {
        return;
    }
    for i in &mut r.rhs {
        i.alias = Alias::No;
    }
}

pub fn candidates(job: &Job, case: Option<usize>) -> Vec<Job> {
    let mut v: Vec<Job> = Vec::new();
    if job.cases.len() > 1 {
        if let Some(c) = case {
            if c < job.cases.len() {
                let mut j = job.clone();
                j.cases = vec![job.cases[c].clone()];
                return vec![j];
            }
        }
        let h = job.cases.len() / 2;
        for r in [0..h, h..job.cases.len()] {
            let mut j = job.clone();
            j.cases.drain(r);
            v.push(j);
        }
        if job.cases.len() <= 8 {
            for k in 0..job.cases.len() {
                let mut j = job.clone();
                j.cases.remove(k);
                v.push(j);
            }
        }
    }
    for (ci, c) in job.cases.iter().enumerate() {
        let ts: Vec<usize> = (0..c.ops.len()).filter(|i| c.ops[*i].k != 'n').collect();
        let mut size = ts.len() / 2;
        while size >= 1 {
            for start in (0..ts.len()).step_by(size) {
                let rm: Vec<usize> = ts[start..(start + size).min(ts.len())].to_vec();
                let mut j = job.clone();
                let mut k = 0;
                j.cases[ci].ops.retain(|_| {
                    k += 1;
                    !rm.contains(&(k - 1))
                });
                v.push(j);
            }
            size /= 2;
        }
        if c.g.len() > 1 {
            for i in 0..c.g.len() {
                let mut j = job.clone();
                j.cases[ci].ops.retain(|o| o.i != i || o.k == 'n');
                v.push(j);
            }
        }
    }
    if (job.kind == "break" || job.kind == "rule" || job.kind == "rust") && job.nums.len() > 2 {
        for k in 0..job.nums.len() / 2 {
            let mut j = job.clone();
            j.nums = j.nums[2 * k..2 * k + 2].to_vec();
            v.push(j);
        }
    }
    if job.texts.len() > 1 {
        for t in &job.texts {
            let mut j = job.clone();
            j.texts = vec![t.clone()];
            v.push(j);
        }
        return v;
    }
    for (ti, t) in job.texts.iter().enumerate() {
        let lines: Vec<&str> = t.lines().collect();
        let mut size = (lines.len() + 1) / 2;
        while size >= 1 && lines.len() > 1 {
            for start in (0..lines.len()).step_by(size) {
                let mut j = job.clone();
                j.texts[ti] = lines.iter().enumerate().filter(|(i, _)| *i < start || *i >= start + size).map(|x| *x.1).collect::<Vec<_>>().join("\n");
                v.push(j);
            }
            size /= 2;
        }
        let words: Vec<&str> = t.split(' ').collect();
        if lines.len() <= 2 && words.len() > 1 {
            for start in 0..words.len() {
                let mut j = job.clone();
                j.texts[ti] = words.iter().enumerate().filter(|(i, _)| *i != start).map(|x| *x.1).collect::<Vec<_>>().join(" ");
                v.push(j);
            }
        }
    }
    for si in 0..job.specs.len() {
        let sp = &job.specs[si];
        let mut push = |f: &dyn Fn(&mut Spec)| {
            let mut j = job.clone();
            f(&mut j.specs[si]);
            if j != *job && usable(&j.specs[si]) {
                v.push(j);
            }
        };
        push(&|s| s.order = vec![]);
        push(&|s| s.verbose = false);
        push(&|s| s.module = None);
        push(&|s| s.raw = vec![]);
        push(&|s| s.extra_arg = false);
        push(&|s| s.extra_tok = false);
        push(&|s| s.wildcard = None);
        push(&|s| s.default_ty = None);
        push(&|s| s.stack = Some((0, StackTy::Vec)));
        push(&|s| {
            fn f(t: &mut Ty) {
                match t {
                    Ty::Sh(_, u) => *t = (**u).clone(),
                    Ty::Opt(t) | Ty::Pair(t) => f(t),
                    _ => {}
                }
            }
            s.terms.iter_mut().for_each(|t| f(&mut t.ty));
            s.nts.iter_mut().for_each(|t| f(&mut t.ty));
            f(&mut s.err_ty);
            s.default_ty.iter_mut().for_each(f);
        });
        push(&|s| s.eshape = 0);
        push(&|s| s.anum = false);
        push(&|s| s.dflt &= 63);
        for b in [1, 2, 4, 8, 16] {
            push(&|s| s.dflt &= !b);
        }
        push(&|s| s.start = None);
        push(&|s| {
            // all types, aliases and code
            s.terms.iter_mut().for_each(|t| t.ty = Ty::Unset);
            s.nts.iter_mut().for_each(|t| t.ty = Ty::Unset);
            s.err_ty = Ty::Unset;
            s.rules.iter_mut().for_each(|r| {
                r.code = Code::Act;
                r.rhs.iter_mut().for_each(|i| i.alias = Alias::No)
            });
        });
        push(&|s| s.rules.iter_mut().for_each(|r| if r.code == Code::Act { strip_alias(r) }));
        push(&|s| s.rules.iter_mut().for_each(|r| if r.code == Code::None { r.code = Code::Act }));
        push(&|s| s.rules.iter_mut().for_each(|r| r.rhs.iter_mut().for_each(|i| if matches!(i.alias, Alias::Mut | Alias::Pat | Alias::Wild) { i.alias = Alias::Id })));
        push(&|s| {
            for (i, t) in s.terms.iter_mut().enumerate() {
                t.name = format!("T{}", i)
            }
            for (i, t) in s.nts.iter_mut().enumerate() {
                t.name = format!("n{}", i)
            }
        });
        if let Some(c) = &sp.cust {
            push(&|s| s.cust = None);
            let cu = |f: &dyn Fn(&mut Custom)| {
                let mut c = c.clone();
                f(&mut c);
                c
            };
            for n in [
                cu(&|c| c.opts = vec![]),
                cu(&|c| c.opts.retain(|o| o.starts_with("t:"))),
                cu(&|c| c.opts.retain(|o| !o.starts_with("i:"))),
                cu(&|c| c.tok = None),
                cu(&|c| c.par = None),
                cu(&|c| c.swap = false),
                cu(&|c| c.wh = false),
                cu(&|c| c.dfl = false),
                cu(&|c| c.pwh = false),
                cu(&|c| c.pdfl = false),
                cu(&|c| c.pe = 0),
                cu(&|c| c.inside = false),
                cu(&|c| c.wrap = false),
                cu(&|c| c.methods = false),
                cu(&|c| c.alias = false),
            ] {
                push(&|s| s.cust = Some(n.clone()));
            }
            for i in 0..c.opts.len() {
                push(&|s| {
                    s.cust.as_mut().unwrap().opts.remove(i);
                });
            }
            push(&|s| {
                let f = |t: &mut Ty| *t = t.conc();
                s.terms.iter_mut().for_each(|t| f(&mut t.ty));
                s.nts.iter_mut().for_each(|t| f(&mut t.ty));
                f(&mut s.err_ty);
                if let Some(t) = &mut s.default_ty {
                    f(t)
                }
            });
        }
        let n = sp.rules.len();
        let mut size = n / 2;
        while size >= 1 {
            for start in (0..n).step_by(size) {
                push(&|s| {
                    let mut i = 0;
                    s.rules.retain(|_| {
                        i += 1;
                        i - 1 < start || i - 1 >= start + size
                    });
                });
            }
            size /= 2;
            if n > 60 && size < 4 {
                break;
            }
        }
        for i in 0..sp.prec.len() {
            push(&|s| {
                s.prec.remove(i);
            });
        }
        for i in 0..sp.fallback.len() {
            push(&|s| {
                s.fallback.remove(i);
            });
            for k in 0..sp.fallback[i].1.len() {
                if sp.fallback[i].1.len() > 1 {
                    push(&|s| {
                        s.fallback[i].1.remove(k);
                    });
                }
            }
        }
        if n <= 40 {
            for i in 0..n {
                for k in 0..sp.rules[i].rhs.len() {
                    if !matches!(sp.rules[i].code, Code::Fwd(_) | Code::SomeOf(_)) {
                        push(&|s| {
                            s.rules[i].rhs.remove(k);
                        });
                    }
                    push(&|s| s.rules[i].rhs[k].opt = false);
                    if let S::Alt(_) | S::Class(_) = &sp.rules[i].rhs[k].sym {
                        push(&|s| {
                            let m = s.members(&s.rules[i].rhs[k].sym);
                            s.rules[i].rhs[k].sym = S::T(m[0]);
                        });
                    }
                }
                push(&|s| s.rules[i].prec = None);
                push(&|s| if s.rules[i].code == Code::Act { strip_alias(&mut s.rules[i]) });
            }
        }
        for i in 0..sp.terms.len().min(40) {
            push(&|s| s.terms[i].ty = Ty::Unset);
        }
        for i in 0..sp.nts.len().min(40) {
            push(&|s| s.nts[i].ty = Ty::Unset);
        }
    }
    v.extend(drop_terms(job));
    v
}
/// Failures of another kind (a specification made invalid by a cut) are not the one being shrunk.
fn class(m: &str) -> String {
    match m.split_once("specification was ") {
        None => String::new(),
        Some((_, r)) => r.split_whitespace().filter(|w| w.chars().all(|c| c.is_ascii_lowercase())).take(8).collect::<Vec<_>>().join(" "),
    }
}
/// Greedy shrinking in parallel batches: each round evaluates all candidates and continues with the
/// first (largest cut) that still fails.
pub fn shrink(env: &Env, prop: &dyn Prop, job: Job, fail: Fail, rounds: usize) -> (Job, Fail) {
    let mut job = job;
    let mut fail = fail;
    let cl = class(&fail.msg);
    let t0 = std::time::Instant::now();
    let mut seen = std::collections::HashSet::new();
    for _ in 0..rounds {
        if t0.elapsed().as_secs() > 150 {
            break;
        }
        let mut c: Vec<Job> = candidates(&job, fail.case).into_iter().filter(|j| seen.insert(hash_of(j))).collect();
        if c.len() > 160 {
            for j in c.drain(160..) {
                seen.remove(&hash_of(&j));
            }
        }
        if c.is_empty() {
            break;
        }
        let shard = ((c.len() + env.threads - 1) / env.threads).clamp(1, 20);
        let Ok(obs) = observe(env, prop, &c, shard) else {
            break;
        };
        let mut hit = None;
        for (j, o) in c.into_iter().zip(obs) {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| prop.judge(&j, &o, &mut Tally::default())));
            if let Ok(Err(f)) = r {
                if class(&f.msg) != cl {
                    continue;
                }
                hit = Some((j, f));
                break;
            }
        }
        match hit {
            Some((j, f)) => {
                job = j;
                fail = f;
            }
            None => {
                if seen.len() < 160 {
                    break;
                }
                // candidates beyond the truncation may remain
                if candidates(&job, fail.case).iter().all(|j| seen.contains(&hash_of(j))) {
                    break;
                }
            }
        }
    }
    (job, fail)
}
