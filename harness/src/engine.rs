//! Compiles generated units against the pomelo built from /repo's working tree, runs the generated
//! test programs and hands every job's observations to the property's judge.
use crate::choice::Src;
use crate::spec::Spec;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Op {
    pub i: usize,
    pub k: char,
    pub a: Vec<u64>,
    pub th: Option<usize>,
}
impl Op {
    pub fn new(k: char, a: &[u64]) -> Op {
        Op { i: 0, k, a: a.to_vec(), th: None }
    }
    pub fn on(mut self, i: usize) -> Op {
        self.i = i;
        self
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Case {
    pub g: Vec<usize>,
    pub plans: Vec<String>,
    pub ops: Vec<Op>,
}
impl Case {
    /// new, the tokens (with distinct payloads), optionally end of input
    pub fn toks(g: usize, toks: &[usize], end: bool, plan: &str) -> Case {
        let mut ops = vec![Op::new('n', &[7])];
        for (i, t) in toks.iter().enumerate() {
            ops.push(Op::new('t', &[*t as u64, 10 + i as u64, 5000 + i as u64]));
        }
        if end {
            ops.push(Op::new('e', &[]));
        }
        Case { g: vec![g], plans: vec![plan.into()], ops }
    }
    pub fn tokens(&self) -> Vec<usize> {
        self.ops.iter().filter(|o| o.k == 't').map(|o| o.a[0] as usize).collect()
    }
    pub fn line(&self, base: usize) -> String {
        let mut s = self.g.iter().map(|g| (g + base).to_string()).collect::<Vec<_>>().join(",");
        s.push(' ');
        s.push_str(&self.plans.iter().map(|p| if p.is_empty() { "-" } else { p }).collect::<Vec<_>>().join("/"));
        for o in &self.ops {
            s.push(' ');
            if self.g.len() > 1 {
                s.push_str(&format!("{}:", o.i));
            }
            s.push(o.k);
            s.push_str(&o.a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("."));
            if let Some(t) = o.th {
                s.push_str(&format!("@{}", t));
            }
        }
        s
    }
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Job {
    pub kind: String,
    pub specs: Vec<Spec>,
    pub texts: Vec<String>,
    pub nums: Vec<u64>,
    pub cases: Vec<Case>,
}
impl Job {
    pub fn of(kind: &str, spec: Spec, cases: Vec<Case>) -> Job {
        Job { kind: kind.into(), specs: vec![spec], texts: vec![], nums: vec![], cases }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    /// compiled and linked; the module defines `new`
    Full,
    /// as Full, in a crate of this edition (two digits) that knows pomelo as `zpomelo` if so
    World(u8, bool),
    /// compiled, not runnable
    Check,
    /// compiled in a crate of this edition (two digits) without warnings or unsafe code
    Strict(u8),
    /// compiled without std, as part of a library, in this edition (two digits)
    NoStd(u8),
    /// macro expansion only
    Expand,
    /// macro expansion only; the output is the text of the expanded module, printed by one of two
    /// runs of the compiler
    Print,
}
#[derive(Clone, Debug)]
pub struct Unit {
    pub src: String,
    pub mode: Mode,
}
impl Unit {
    fn runs(&self) -> bool {
        matches!(self.mode, Mode::Full | Mode::World(..))
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum St {
    Ok,
    /// compile error produced by the macro
    Rejected(String),
    Panicked(String),
    /// errors in the expanded code
    TypeErr(String),
    /// rustc was killed (CPU limit or signal) by this unit alone
    Died(String),
}
pub struct Obs {
    pub units: Vec<St>,
    /// per case: the trace line, or "DIED:why"; None if a unit it needs is not Ok
    pub cases: Vec<Option<String>>,
    /// per unit that has two vattr::mark!{}: what the compiler printed in between
    pub outs: Vec<String>,
    /// per unit: the lines (first and last, of the unit's source, from 0) each error points at
    pub lines: Vec<Vec<(isize, isize)>>,
}
pub const MARK: &str = "::vattr::mark! {}";
impl Obs {
    pub fn traces(&self, i: usize) -> Option<Vec<&str>> {
        self.cases[i].as_ref().map(|s| s.split('|').map(|x| x.trim()).collect())
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub msg: String,
    pub case: Option<usize>,
}
pub fn fail<T>(case: impl Into<Option<usize>>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { msg: msg.into(), case: case.into() })
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
}
pub fn hash_of<T: Hash>(t: &T) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    t.hash(&mut h);
    h.finish()
}
impl Tally {
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.counters.entry(k.into()).or_insert(0) += n
    }
    /// one evaluated case
    pub fn eval<T: Hash>(&mut self, nontrivial: bool, key: &T) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash_of(key));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 {
            let s = f();
            self.samples.push(s);
        }
    }
    fn merge(&mut self, o: Tally) {
        self.evals += o.evals;
        for (k, v) in o.counters {
            *self.counters.entry(k).or_insert(0) += v;
        }
        self.distinct.extend(o.distinct);
        if self.samples.len() < 4 {
            self.samples.extend(o.samples);
            self.samples.truncate(4);
        }
    }
}

pub struct Budget {
    pub quick: usize,
    pub thorough: usize,
    /// jobs per compiled crate
    pub shard: usize,
    /// CPU seconds rustc may take for one shard
    pub cpu: u64,
}
pub trait Prop: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn budget(&self) -> Budget;
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job>;
    fn units(&self, job: &Job) -> Vec<Unit>;
    /// cases actually run (default: those of the job); may add derived ones
    fn cases(&self, job: &Job) -> Vec<Case> {
        job.cases.clone()
    }
    /// Err: the property is violated. A job whose preconditions do not hold (possible while
    /// shrinking) must return Ok.
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail>;
    /// minimum values some counters must reach in a run of the quick tier; otherwise the check
    /// reports an error (its generator or the engine is broken)
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![]
    }
}

pub struct Env {
    pub pomelo: PathBuf,
    pub deps: PathBuf,
    pub rt: PathBuf,
    pub va: PathBuf,
    pub work: PathBuf,
    pub root: PathBuf,
    pub threads: usize,
}
impl Env {
    pub fn load() -> Env {
        let v = |k: &str| PathBuf::from(std::env::var(k).unwrap_or_else(|_| panic!("{} not set (run through check.sh)", k)));
        let build = std::fs::read_to_string(v("PV_BUILD_JSON")).expect("build json");
        let mut pomelo = None;
        for l in build.lines() {
            let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if j["reason"] == "compiler-artifact" && j["target"]["name"] == "pomelo" {
                for f in j["filenames"].as_array().unwrap() {
                    if f.as_str().unwrap().ends_with(".rlib") {
                        pomelo = Some(PathBuf::from(f.as_str().unwrap()));
                    }
                }
            }
        }
        let pomelo = pomelo.expect("pomelo rlib in build.json");
        let deps = if pomelo.parent().unwrap().ends_with("deps") { pomelo.parent().unwrap().to_path_buf() } else { pomelo.parent().unwrap().join("deps") };
        let work = v("PV_WORK").join(format!("{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&work);
        std::fs::create_dir_all(&work).unwrap();
        Env { pomelo, deps, rt: v("PV_RT"), va: v("PV_VA"), work, root: v("PV_ROOT"), threads: std::thread::available_parallelism().map_or(8, |n| n.get()).min(16) }
    }
}
impl Drop for Env {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.work);
    }
}

pub struct Out {
    pub ok: bool,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}
pub fn run_limited(cpu: u64, mem_gb: u64, prog: &Path, args: &[String]) -> Out {
    let mut c = Command::new("prlimit");
    c.arg(format!("--cpu={}:{}", cpu, cpu + 2)).arg(format!("--as={}", mem_gb << 30)).arg("--core=0").arg(prog).args(args);
    c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    let mut ch = c.spawn().expect("spawn");
    let mut e = ch.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut b = Vec::new();
        let _ = e.read_to_end(&mut b);
        b
    });
    let mut o = Vec::new();
    let _ = ch.stdout.take().unwrap().read_to_end(&mut o);
    let st = ch.wait().expect("wait");
    let e = h.join().unwrap();
    Out { ok: st.success(), signal: st.signal(), stdout: String::from_utf8_lossy(&o).into_owned(), stderr: String::from_utf8_lossy(&e).into_owned() }
}

fn rustc() -> PathBuf {
    static R: Mutex<Option<PathBuf>> = Mutex::new(None);
    let mut r = R.lock().unwrap();
    if r.is_none() {
        // the real compiler, not the rustup proxy
        let o = Command::new("rustc").args(["--print", "sysroot"]).output().expect("rustc");
        *r = Some(PathBuf::from(String::from_utf8_lossy(&o.stdout).trim()).join("bin/rustc"));
    }
    r.clone().unwrap()
}

struct Shard<'a> {
    env: &'a Env,
    dir: PathBuf,
    cpu: u64,
    seq: usize,
    outs: Vec<String>,
    lines: Vec<Vec<(isize, isize)>>,
}
const SENTINEL: &str = "pv sentinel";
struct Diag {
    line: Option<usize>,
    /// what the primary spans cover, wherever they come from
    at: Vec<(usize, usize)>,
    msg: String,
    coded: bool,
    panic: Option<String>,
}
fn outer_line(span: &serde_json::Value) -> Option<usize> {
    let mut s = span;
    let mut line = None;
    loop {
        if s["file_name"].as_str().map_or(false, |f| f.ends_with("main.rs")) {
            line = s["line_start"].as_u64().map(|x| x as usize);
        }
        if s["expansion"].is_object() {
            s = &s["expansion"]["span"];
        } else {
            return line;
        }
    }
}
fn diags(stderr: &str) -> Vec<Diag> {
    let mut v = Vec::new();
    for l in stderr.lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if j["level"] != "error" && j["level"] != "error: internal compiler error" {
            continue;
        }
        let msg = j["message"].as_str().unwrap_or("").to_string();
        if msg.starts_with("aborting due to") || msg.starts_with("For more information") {
            continue;
        }
        let spans = j["spans"].as_array().cloned().unwrap_or_default();
        let line = spans.iter().filter(|s| s["is_primary"] == true).chain(spans.iter()).find_map(outer_line);
        let num = |x: &serde_json::Value| x.as_u64().unwrap_or(0) as usize;
        let at = spans.iter().filter(|s| s["is_primary"] == true && s["file_name"].as_str().map_or(false, |f| f.ends_with("main.rs"))).map(|s| (num(&s["line_start"]), num(&s["line_end"]))).collect();
        let mut panic = None;
        if msg.contains("panicked") && j["code"].is_null() {
            let h = j["children"].as_array().and_then(|c| c.iter().find_map(|x| x["message"].as_str().map(|s| s.to_string())));
            panic = Some(h.unwrap_or_default());
        }
        v.push(Diag { line, at, msg, coded: !j["code"].is_null(), panic });
    }
    v
}

impl<'a> Shard<'a> {
    /// Compiles the units with the given indices in one crate; returns statuses and, if some units
    /// of mode Full are Ok, the program with the positions of the units in its table.
    fn compile(&mut self, units: &[Unit], idx: &[usize], st: &mut [Option<St>], link: bool) -> Result<Option<(PathBuf, Vec<usize>)>, String> {
        let mut live: Vec<usize> = idx.to_vec();
        let expand = matches!(units[idx[0]].mode, Mode::Expand | Mode::Print);
        let nostd = if let Mode::NoStd(e) = units[idx[0]].mode { Some(e) } else { None };
        let strict = matches!(units[idx[0]].mode, Mode::Strict(_));
        let (edition, dep) = match units[idx[0]].mode {
            Mode::NoStd(e) => (e, "pomelo"),
            Mode::Strict(e) => (e, "pomelo"),
            Mode::World(e, true) => (e, "zpomelo"),
            Mode::World(e, false) => (e, "pomelo"),
            _ => (21, "pomelo"),
        };
        for _round in 0..12 {
            if live.is_empty() {
                return Ok(None);
            }
            self.seq += 1;
            let dir = self.dir.join(format!("c{}", self.seq));
            std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
            let main = dir.join("main.rs");
            let mut src = format!("{}\n", if nostd.is_some() { "#![no_std] #![allow(warnings)]" } else if strict { "#![deny(warnings)] #![allow(unused_parens, unreachable_patterns, non_camel_case_types)] #![forbid(unsafe_code)]" } else { "#![allow(warnings)]" });
            let mut line = 2;
            let mut at: Vec<(usize, usize)> = Vec::new();
            for u in &live {
                let b = format!("{}mod g{} {{\n{}\n}}\n", if strict { "pub " } else { "" }, u, units[*u].src);
                at.push((line, *u));
                line += b.matches('\n').count();
                src.push_str(&b);
            }
            let full: Vec<usize> = live.iter().copied().filter(|u| units[*u].runs()).collect();
            if expand {
                src.push_str(&format!("compile_error!(\"{}\");\nfn main() {{}}\n", SENTINEL));
            } else if nostd.is_none() && !strict {
                src.push_str(&format!("fn main() {{ rt::main(&[{}]); }}\n", full.iter().map(|u| format!("g{}::new as rt::Mk", u)).collect::<Vec<_>>().join(", ")));
            }
            std::fs::write(&main, &src).map_err(|e| e.to_string())?;
            let exe = dir.join("prog");
            let mut args: Vec<String> = vec![format!("--edition=20{}", edition)];
            args.extend(["--crate-name=main", if nostd.is_some() || strict { "--crate-type=lib" } else { "--crate-type=bin" }, "-Copt-level=0", "-Cdebuginfo=0", "--cap-lints=allow", "--error-format=json"].map(String::from));
            if strict {
                args.retain(|a| a != "--cap-lints=allow");
            }
            args.push(format!("-Ldependency={}", self.env.deps.display()));
            args.push(format!("--extern={}={}", dep, self.env.pomelo.display()));
            args.push(format!("--extern=rt={}", self.env.rt.display()));
            args.push(format!("--extern=vattr={}", self.env.va.display()));
            if link && !expand && !full.is_empty() {
                args.push(format!("-o{}", exe.display()));
            } else {
                args.push("--emit=metadata".into());
                args.push(format!("-o{}", dir.join("m.rmeta").display()));
            }
            args.push(main.display().to_string());
            let t0 = std::time::Instant::now();
            let o = run_limited(self.cpu, 12, &rustc(), &args);
            if std::env::var("PV_TIMES").is_ok() {
                eprintln!("TIME {:.1}", t0.elapsed().as_secs_f64());
            }
            if std::env::var("PV_KEEP").is_err() {
                let _ = std::fs::remove_file(&main);
            }
            let ds = diags(&o.stderr);
            let crashed = o.signal.is_some() || (!o.ok && ds.is_empty()) || ds.iter().any(|d| d.msg.contains("internal compiler error"));
            if crashed {
                let why = match o.signal {
                    Some(24) | Some(9) => "rustc exceeded its CPU limit".to_string(),
                    Some(s) => format!("rustc died with signal {}", s),
                    None => {
                        let t = o.stderr.lines().filter(|l| !l.starts_with('{')).collect::<Vec<_>>().join(" ");
                        format!("rustc crashed: {}", t.chars().take(300).collect::<String>())
                    }
                };
                if live.len() == 1 {
                    st[live[0]] = Some(St::Died(why));
                    return Ok(None);
                }
                // find the culprits, one half at a time, by expansion only; then go on without them
                let mut stack = vec![live.clone()];
                let mut dead = Vec::new();
                while let Some(v) = stack.pop() {
                    let us: Vec<Unit> = units.iter().map(|u| Unit { src: if dep == "pomelo" { u.src.clone() } else { u.src.replace(dep, "pomelo") }, mode: Mode::Expand }).collect();
                    if v.len() == 1 {
                        let mut tmp: Vec<Option<St>> = vec![None; units.len()];
                        let cpu = self.cpu;
                        self.cpu = cpu.min(40);
                        let r = self.compile(&us, &v, &mut tmp, false);
                        self.cpu = cpu;
                        r?;
                        if let Some(St::Died(w)) = &tmp[v[0]] {
                            st[v[0]] = Some(St::Died(w.clone()));
                            dead.push(v[0]);
                        }
                        continue;
                    }
                    if !self.survives(&us, &v, edition)? {
                        let (a, b) = v.split_at(v.len() / 2);
                        stack.push(b.to_vec());
                        stack.push(a.to_vec());
                    }
                }
                if dead.is_empty() {
                    return Err(format!("{} on a batch, but on none of its units", why));
                }
                live.retain(|u| !dead.contains(u));
                continue;
            }
            let mut bad: BTreeMap<usize, Vec<Diag>> = BTreeMap::new();
            let mut sentinel = false;
            for d in ds {
                if d.msg == SENTINEL {
                    sentinel = true;
                    continue;
                }
                if expand && d.coded {
                    continue;
                }
                let Some(l) = d.line else {
                    return Err(format!("unattributed compiler error: {}", d.msg));
                };
                let u = at.iter().rev().find(|(s, _)| *s <= l).map(|x| x.1);
                match u {
                    Some(u) if l < line => {
                        let first = at.iter().find(|x| x.1 == u).unwrap().0 as isize + 1;
                        self.lines.resize(units.len(), vec![]);
                        self.lines[u].extend(d.at.iter().map(|(a, b)| (*a as isize - first, *b as isize - first)));
                        bad.entry(u).or_default().push(d)
                    }
                    _ => return Err(format!("error outside the units: {}", d.msg)),
                }
            }
            let marked: Vec<usize> = live.iter().copied().filter(|u| units[*u].src.matches(MARK).count() == 2).collect();
            if expand && sentinel && !marked.is_empty() {
                let t: Vec<&str> = o.stdout.split("@@mark\n").collect();
                if t.len() != 2 * marked.len() + 1 || t.iter().step_by(2).any(|x| !x.is_empty()) {
                    return Err(format!("the compiler's output is not between marks: {}", o.stdout.chars().take(500).collect::<String>()));
                }
                self.outs.resize(units.len(), String::new());
                for (k, u) in marked.iter().enumerate() {
                    self.outs[*u] = t[2 * k + 1].to_string();
                }
            }
            if expand && !sentinel {
                return Err(format!("expansion did not reach the end of the crate: {}", o.stderr.chars().take(500).collect::<String>()));
            }
            for (u, ds) in &bad {
                let s = if let Some(p) = ds.iter().find_map(|d| d.panic.clone()) {
                    St::Panicked(p)
                } else if let Some(d) = ds.iter().find(|d| !d.coded) {
                    if ds.iter().all(|d| !d.coded) {
                        St::Rejected(d.msg.clone())
                    } else {
                        St::TypeErr(ds.iter().map(|d| d.msg.clone()).collect::<Vec<_>>().join(" / "))
                    }
                } else {
                    St::TypeErr(ds.iter().map(|d| d.msg.clone()).collect::<Vec<_>>().join(" / "))
                };
                st[*u] = Some(s);
            }
            if expand {
                for u in &live {
                    if st[*u].is_none() {
                        st[*u] = Some(St::Ok);
                    }
                }
                return Ok(None);
            }
            if bad.is_empty() {
                if !o.ok {
                    return Err(format!("rustc failed without attributable errors: {}", o.stderr.chars().take(500).collect::<String>()));
                }
                for u in &live {
                    st[*u] = Some(St::Ok);
                }
                if full.is_empty() || !link {
                    return Ok(None);
                }
                return Ok(Some((exe, full)));
            }
            live.retain(|u| !bad.contains_key(u));
        }
        Err("too many compile rounds".into())
    }
    /// the expanded text of each unit
    fn print(&mut self, units: &[Unit], live: &[usize]) -> Result<(), String> {
        if live.is_empty() {
            return Ok(());
        }
        self.seq += 1;
        let dir = self.dir.join(format!("c{}", self.seq));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let main = dir.join("main.rs");
        let mut src = String::from("#![allow(warnings)]\n");
        for u in live {
            src.push_str(&format!("mod g{} {{\n{}\n}}\n", u, units[*u].src));
        }
        src.push_str("fn main() {}\n");
        std::fs::write(&main, &src).map_err(|e| e.to_string())?;
        let mut args: Vec<String> = ["RUSTC_BOOTSTRAP=1", &rustc().display().to_string(), "--edition=2021", "--crate-name=main", "--crate-type=bin", "--cap-lints=allow", "-Zunpretty=expanded"].iter().map(|s| s.to_string()).collect();
        args.push(format!("-Ldependency={}", self.env.deps.display()));
        args.push(format!("--extern=pomelo={}", self.env.pomelo.display()));
        args.push(format!("--extern=rt={}", self.env.rt.display()));
        args.push(format!("--extern=vattr={}", self.env.va.display()));
        args.push(main.display().to_string());
        let o = run_limited(self.cpu, 12, Path::new("env"), &args);
        // names that the unit does not have are no matter here
        if !o.ok && !o.stdout.contains("\nfn main() {}") {
            return Err(format!("the expansion is not printed: {}", o.stderr.chars().take(500).collect::<String>()));
        }
        let mut cur = None;
        for l in o.stdout.lines() {
            if let Some(u) = l.strip_prefix("mod g").and_then(|x| x.strip_suffix(" {")).and_then(|x| x.parse::<usize>().ok()) {
                cur = Some(u);
            } else if l == "}" {
                cur = None;
            } else if let Some(u) = cur {
                self.outs[u].push_str(l);
                self.outs[u].push('\n');
            }
        }
        if let Some(u) = live.iter().find(|u| self.outs[**u].is_empty()) {
            return Err(format!("no expanded text of unit {}", u));
        }
        Ok(())
    }
    fn survives(&mut self, us: &[Unit], v: &[usize], edition: u8) -> Result<bool, String> {
        self.seq += 1;
        let dir = self.dir.join(format!("c{}", self.seq));
        std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
        let main = dir.join("main.rs");
        let mut src = String::from("#![allow(warnings)]\n");
        for u in v {
            src.push_str(&format!("mod g{} {{\n{}\n}}\n", u, us[*u].src));
        }
        src.push_str(&format!("compile_error!(\"{}\");\nfn main() {{}}\n", SENTINEL));
        std::fs::write(&main, &src).map_err(|e| e.to_string())?;
        let mut args: Vec<String> = ["--crate-name=main", "--crate-type=bin", "--cap-lints=allow", "--error-format=json", "--emit=metadata"].iter().map(|s| s.to_string()).collect();
        args.push(format!("--edition=20{}", edition));
        args.push(format!("-Ldependency={}", self.env.deps.display()));
        args.push(format!("--extern=pomelo={}", self.env.pomelo.display()));
        args.push(format!("--extern=rt={}", self.env.rt.display()));
        args.push(format!("--extern=vattr={}", self.env.va.display()));
        args.push(format!("-o{}", dir.join("m.rmeta").display()));
        args.push(main.display().to_string());
        let o = run_limited(self.cpu.min(40), 12, &rustc(), &args);
        Ok(o.signal.is_none() && o.stderr.contains(SENTINEL) && !o.stderr.contains("internal compiler error"))
    }

    fn exec(&self, exe: &Path, lines: &[String]) -> Result<Vec<String>, String> {
        let f = exe.with_file_name("cases");
        std::fs::write(&f, lines.join("\n") + "\n").map_err(|e| e.to_string())?;
        let mut out: Vec<Option<String>> = vec![None; lines.len()];
        let mut first = 0;
        let mut deaths = 0;
        while first < lines.len() {
            let o = run_limited(30, 4, exe, &[f.display().to_string(), first.to_string()]);
            let mut done = false;
            let mut next = first;
            for l in o.stdout.split_inclusive('\n') {
                if l == "END\n" {
                    done = true;
                    break;
                }
                if !l.ends_with('\n') {
                    break;
                }
                let (i, t) = l.trim_end_matches('\n').split_once(' ').ok_or("bad output line")?;
                let i: usize = i.parse().map_err(|_| "bad output line".to_string())?;
                out[i] = Some(t.to_string());
                next = i + 1;
            }
            if done {
                break;
            }
            if next >= lines.len() {
                return Err(format!("test program failed after its last case: {}", o.stderr));
            }
            // confirm on its own, with a fresh CPU allowance
            let o2 = run_limited(10, 4, exe, &[f.display().to_string(), next.to_string(), "1".into()]);
            let t = match (o2.signal, o2.ok) {
                (None, true) => o2.stdout.lines().next().and_then(|l| l.split_once(' ')).map(|x| x.1.to_string()).ok_or("bad output line")?,
                (Some(24), _) | (Some(9), _) => "DIED:no_result_within_10s_CPU".to_string(),
                (Some(s), _) => format!("DIED:signal_{}", s),
                (None, false) => format!("DIED:{}", o2.stderr.split_whitespace().collect::<Vec<_>>().join("_").chars().take(200).collect::<String>()),
            };
            out[next] = Some(t);
            first = next + 1;
            deaths += 1;
            if deaths > 3 {
                break; // the rest of this program's cases stay unobserved
            }
        }
        Ok(out.into_iter().map(|o| o.unwrap_or_else(|| "UNOBSERVED".into())).collect())
    }

    /// Observations of all jobs.
    pub fn run(&mut self, prop: &dyn Prop, jobs: &[Job]) -> Result<Vec<Obs>, String> {
        let mut units: Vec<Unit> = Vec::new();
        let mut base = Vec::new();
        for j in jobs {
            base.push(units.len());
            units.extend(prop.units(j));
        }
        base.push(units.len());
        let mut st: Vec<Option<St>> = vec![None; units.len()];
        let ex: Vec<usize> = (0..units.len()).filter(|u| units[*u].mode == Mode::Expand).collect();
        if !ex.is_empty() {
            self.compile(&units, &ex, &mut st, false)?;
        }
        let pr: Vec<usize> = (0..units.len()).filter(|u| units[*u].mode == Mode::Print).collect();
        if !pr.is_empty() {
            self.compile(&units, &pr, &mut st, false)?;
            self.outs.resize(units.len(), String::new());
            for half in 0..2 {
                let live: Vec<usize> = pr.iter().copied().filter(|u| u % 2 == half && st[*u] == Some(St::Ok)).collect();
                self.print(&units, &live)?;
            }
        }
        for e in [18, 21, 24] {
            for mode in [Mode::NoStd(e), Mode::Strict(e)] {
                let ns: Vec<usize> = (0..units.len()).filter(|u| units[*u].mode == mode).collect();
                if !ns.is_empty() {
                    self.compile(&units, &ns, &mut st, false)?;
                }
            }
        }
        let fu: Vec<usize> = (0..units.len()).filter(|u| matches!(units[*u].mode, Mode::Full | Mode::Check)).collect();
        let mut progs = vec![];
        if !fu.is_empty() {
            progs.extend(self.compile(&units, &fu, &mut st, true)?);
        }
        let mut worlds: Vec<(u8, bool)> = units.iter().filter_map(|u| if let Mode::World(e, n) = u.mode { Some((e, n)) } else { None }).collect();
        worlds.sort();
        worlds.dedup();
        for (e, n) in worlds {
            let fu: Vec<usize> = (0..units.len()).filter(|u| units[*u].mode == Mode::World(e, n)).collect();
            progs.extend(self.compile(&units, &fu, &mut st, true)?);
        }
        let st: Vec<St> = st.into_iter().map(|s| s.ok_or("unit without status".to_string())).collect::<Result<_, _>>()?;
        let mut lines: Vec<Vec<String>> = vec![vec![]; progs.len()];
        let mut who: Vec<Vec<(usize, usize)>> = vec![vec![]; progs.len()];
        let mut obs: Vec<Obs> = Vec::new();
        for (k, j) in jobs.iter().enumerate() {
            let us = st[base[k]..base[k + 1]].to_vec();
            let cs = prop.cases(j);
            let o = Obs { outs: self.outs.get(base[k]..base[k + 1]).map_or(vec![], |x| x.to_vec()), lines: self.lines.get(base[k]..base[k + 1]).map_or(vec![vec![]; us.len()], |x| x.to_vec()), units: us, cases: vec![None; cs.len()] };
            for (c, case) in cs.iter().enumerate() {
                if case.g.iter().any(|g| *g >= o.units.len() || o.units[*g] != St::Ok) {
                    continue;
                }
                // all parsers of a case are in one program
                for (p, (_, table)) in progs.iter().enumerate() {
                    let at: Vec<Option<usize>> = case.g.iter().map(|g| table.iter().position(|t| *t == base[k] + *g)).collect();
                    if let Some(g) = at.into_iter().collect::<Option<Vec<usize>>>() {
                        let mut x = case.clone();
                        x.g = g;
                        who[p].push((k, c));
                        lines[p].push(x.line(0));
                        break;
                    }
                }
            }
            obs.push(o);
        }
        for (p, (exe, _)) in progs.iter().enumerate() {
            if !lines[p].is_empty() {
                let r = self.exec(exe, &lines[p])?;
                for ((k, c), t) in who[p].iter().zip(r) {
                    obs[*k].cases[*c] = if t == "UNOBSERVED" { None } else { Some(t) };
                }
            }
        }
        if std::env::var("PV_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
        Ok(obs)
    }
}

/// Runs jobs in parallel shards.
pub fn observe(env: &Env, prop: &dyn Prop, jobs: &[Job], shard: usize) -> Result<Vec<Obs>, String> {
    let n = (jobs.len() + shard - 1) / shard;
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<Option<Result<Vec<Obs>, String>>>> = Mutex::new((0..n).map(|_| None).collect());
    static UNIQ: AtomicUsize = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..env.threads.min(n) {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= n {
                    break;
                }
                let js = &jobs[k * shard..((k + 1) * shard).min(jobs.len())];
                let mut s = Shard { env, dir: env.work.join(format!("o{}", UNIQ.fetch_add(1, Ordering::SeqCst))), cpu: prop.budget().cpu, seq: 0, outs: vec![], lines: vec![] };
                let r = s.run(prop, js);
                res.lock().unwrap()[k] = Some(r);
            });
        }
    });
    let mut v = Vec::new();
    for r in res.into_inner().unwrap() {
        v.extend(r.unwrap()?);
    }
    Ok(v)
}

pub struct Found {
    pub job: Job,
    pub fail: Fail,
    pub idx: u64,
}
pub struct Run {
    pub tally: Tally,
    pub found: Vec<Found>,
    pub errors: Vec<String>,
    pub generated: usize,
    /// the time ran out
    pub cut: bool,
}
/// The whole exploration of a property: job indices [0, n) in shards.
/// Ends early after `wall` seconds, or a quarter of it once a violation is found.
pub fn explore(env: &Env, prop: &dyn Prop, seed: u64, n: usize, wall: u64) -> Run {
    let t0 = std::time::Instant::now();
    let shard = prop.budget().shard;
    let ns = (n + shard - 1) / shard;
    let next = AtomicUsize::new(0);
    let out: Mutex<BTreeMap<usize, (Tally, Vec<Found>, Vec<String>, usize)>> = Mutex::new(BTreeMap::new());
    let stop = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for w in 0..env.threads.min(ns.max(1)) {
            let (next, out, stop) = (&next, &out, &stop);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    let st = stop.load(Ordering::SeqCst);
                    let t = t0.elapsed().as_secs();
                    if k >= ns || st >= 6 || st > 0 && t > wall / 4 || t > wall {
                        break;
                    }
                    let mut jobs = Vec::new();
                    let mut ids = Vec::new();
                    let mut tally = Tally::default();
                    for i in k * shard..((k + 1) * shard).min(n) {
                        let mut s = Src::new(prop.id(), seed, i as u64);
                        match prop.gen(&mut s, i as u64) {
                            Some(j) => {
                                jobs.push(j);
                                ids.push(i as u64);
                            }
                            None => tally.count("generator gave up"),
                        }
                    }
                    let ng = jobs.len();
                    let mut found = Vec::new();
                    let mut errors = Vec::new();
                    let mut s = Shard { env, dir: env.work.join(format!("w{}s{}", w, k)), cpu: prop.budget().cpu, seq: 0, outs: vec![], lines: vec![] };
                    if !jobs.is_empty() {
                        match s.run(prop, &jobs) {
                            Err(e) => errors.push(format!("shard {}: {}", k, e)),
                            Ok(obs) => {
                                for ((j, o), i) in jobs.into_iter().zip(obs).zip(ids) {
                                    if let Err(f) = prop.judge(&j, &o, &mut tally) {
                                        stop.fetch_add(1, Ordering::SeqCst);
                                        found.push(Found { job: j, fail: f, idx: i });
                                    }
                                }
                            }
                        }
                    }
                    out.lock().unwrap().insert(k, (tally, found, errors, ng));
                })
                .unwrap();
        }
    });
    let mut r = Run { tally: Tally::default(), found: vec![], errors: vec![], generated: 0, cut: t0.elapsed().as_secs() > wall };
    for (_, (t, f, e, g)) in out.into_inner().unwrap() {
        r.tally.merge(t);
        r.found.extend(f);
        r.errors.extend(e);
        r.generated += g;
    }
    r
}
