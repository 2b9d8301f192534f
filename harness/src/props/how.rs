//! C26: how and where the macro is called carries no meaning.
use super::drive::*;
use super::*;
use crate::choice::Src;
use crate::gen;

pub const FORMS: &[&str] = &["global path", "imported under another name", "parentheses", "brackets", "one token tree at a time", "through two macros", "a part as an expression", "fragments", "fragments inside a nested macro", "in a nested module", "twice side by side", "renamed crate", "in a function body", "among items with common names", "fragments in a function body", "other punctuation"];
/// the calling crate: its edition, and whether it knows the crate by another name
pub const WORLDS: &[(&str, u8, bool)] = &[("edition 2018", 18, false), ("edition 2024", 24, false), ("dependency of another name", 21, true), ("edition 2018, dependency of another name", 18, true), ("edition 2024, dependency of another name", 24, true)];
fn form_name(k: usize) -> &'static str {
    FORMS.get(k).copied().unwrap_or_else(|| WORLDS[k - FORMS.len()].0)
}

/// declarations with parts of them turned into macro fragments: the text, the matcher, the arguments
fn fragments(s: &mut Src, spec: &Spec) -> (String, String, String) {
    let mut pat = String::new();
    let mut arg = String::new();
    let mut n = 0;
    let mut frag = |kind: &str, text: &str| -> String {
        let v = format!("$f{}", n);
        n += 1;
        pat.push_str(&format!("{{ {}:{} }} ", v, kind));
        arg.push_str(&format!("{{ {} }}\n", text));
        v
    };
    let mut out = vec![];
    // a type is written in one way throughout: every type, or none, of a text is a fragment
    let mut types: Vec<(String, Option<String>)> = vec![];
    let mut ty = |s: &mut Src, t: &str, frag: &mut dyn FnMut(&str, &str) -> String| -> String {
        if t == "()" || t.is_empty() {
            return t.to_string();
        }
        if !types.iter().any(|x| x.0 == t) {
            let f = s.chance(60).then(|| frag("ty", t));
            types.push((t.to_string(), f));
        }
        types.iter().find(|x| x.0 == t).unwrap().1.clone().unwrap_or_else(|| t.to_string())
    };
    for d in spec.decls() {
        if let Some(rest) = d.strip_prefix('%') {
            let (h, body) = rest.split_once(' ').unwrap_or((rest, ""));
            let body1 = body.trim_end_matches(';');
            match h {
                "syntax_error" | "parse_fail" | "stack_overflow" if s.chance(70) => out.push(format!("%{} {}", h, frag("block", body))),
                "extra_argument" | "default_type" | "error" | "extra_token" => out.push(format!("%{} {};", h, ty(s, body1, &mut frag))),
                "type" if !body.contains('#') && body1.contains(' ') => {
                    let (a, b) = body1.split_once(' ').unwrap();
                    let a = if s.chance(20) { frag("ident", a) } else { a.to_string() };
                    out.push(format!("%type {} {};", a, ty(s, b, &mut frag)));
                }
                "stack_size" => {
                    let (a, b) = body1.split_once(' ').unwrap_or((body1, ""));
                    let a = if s.chance(50) { frag("literal", a) } else { a.to_string() };
                    out.push(format!("%stack_size {} {};", a, ty(s, b, &mut frag)));
                }
                "module" | "start_symbol" | "wildcard" | "left" | "right" | "nonassoc" | "fallback" | "token_class" => {
                    let ids: Vec<String> = body1.split_whitespace().map(|x| if s.chance(30) { frag("ident", x) } else { x.to_string() }).collect();
                    out.push(format!("%{} {};", h, ids.join(" ")));
                }
                _ => out.push(d),
            }
            continue;
        }
        // a rule; an action that is a fragment needs its patterns to be fragments as well
        let (head, code) = match d.find('{') {
            Some(p) => (&d[..p], Some(&d[p..])),
            None => (d.trim_end_matches(';'), None),
        };
        let whole = code.is_some() && s.chance(60);
        let mut t = String::new();
        let c: Vec<char> = head.chars().collect();
        let mut i = 0;
        while i < c.len() {
            if c[i] == '(' {
                let mut depth = 0;
                let b = i + 1;
                while depth > 0 || i < b {
                    match c[i] {
                        '(' => depth += 1,
                        ')' => depth -= 1,
                        _ => {}
                    }
                    i += 1;
                }
                let p: String = c[b..i - 1].iter().collect();
                t.push_str(&format!("({})", if whole {
                    // in edition 2018 a `pat` fragment has no alternatives at its top
                    frag("pat", &if p.contains('|') { format!("({})", p) } else { p })
                } else {
                    p
                }));
            } else if c[i].is_alphabetic() || c[i] == '_' {
                let b = i;
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_' || c[i] == '#') {
                    i += 1;
                }
                let w: String = c[b..i].iter().collect();
                t.push_str(&if s.chance(10) { frag("ident", &w) } else { w });
            } else {
                t.push(c[i]);
                i += 1;
            }
        }
        match code {
            Some(x) if whole => out.push(format!("{} {}", t, frag("block", x))),
            Some(x) => out.push(format!("{} {}", t, x)),
            None => out.push(format!("{};", t)),
        }
    }
    (out.join("\n"), pat, arg)
}
/// the same declarations with the optional semicolons there or not, lists given in several parts,
/// declarations that say nothing, comments
fn punctuated(s: &mut Src, spec: &Spec) -> String {
    let mut out: Vec<String> = vec![];
    let ds = spec.decls();
    for (i, d) in ds.iter().enumerate() {
        if s.chance(10) {
            out.push(s.pick(&["%include {}", "%include {};", "%left;", "%nonassoc ;", "// %left X;", "/* %error (); */", "%include { /* } */ }"]).to_string());
        }
        let mut d = d.clone();
        let next = ds.get(i + 1).map_or(true, |n| n.starts_with('%'));
        if d.ends_with('}') && !d.ends_with("{}") {
            if s.chance(60) {
                d.push_str(s.pick(&[";", " ;", "\n;"]));
            }
        } else if !d.starts_with('%') && d.ends_with(';') && next && s.chance(80) {
            d.pop();
            out.push(d);
            continue;
        } else if let Some(l) = d.strip_prefix("%fallback ") {
            let v: Vec<&str> = l.trim_end_matches(';').split_whitespace().collect();
            if v.len() > 2 && s.chance(70) {
                let at = s.range(2, v.len() - 1);
                out.push(format!("%fallback {} {};", v[0], v[1..at].join(" ")));
                d = format!("%fallback {} {};", v[0], v[at..].join("\n"));
            }
        }
        out.push(d);
    }
    out.join("\n")
}
/// the unit for a specification whose macro call is written in this form
pub fn form(spec: &Spec, k: usize, seed: u64) -> Unit {
    let mut s = Src::new("C26f", seed, k as u64);
    if k >= FORMS.len() {
        let (_, edition, renamed) = WORLDS[k - FORMS.len()];
        let mut u = form(spec, s.below(FORMS.len()), seed);
        u.mode = Mode::World(edition, renamed);
        if renamed {
            u.src = u.src.replace("pomelo::", "zpomelo::").replace("crate pomelo ", "crate zpomelo ");
        }
        return u;
    }
    let body = matches!(FORMS[k], "in a function body" | "among items with common names" | "fragments in a function body");
    let mut sp = spec.clone();
    if body {
        sp.cust = Some(Custom { inside: true, ..Default::default() });
    }
    let t = sp.macro_input();
    let m = sp.module_name();
    let frag = |s: &mut Src, sp: &Spec, call: &str| {
        let (t, p, a) = fragments(s, sp);
        format!("macro_rules! wrapped {{ ({}) => {{ {}! {{\n{}\n}} }} }}\nwrapped! {{ {} }}\n", p, call, t, a)
    };
    let src = match FORMS[k] {
        "global path" => format!("::pomelo::pomelo! {{\n{}\n}}\n{}", t, sp.glue()),
        "imported under another name" => format!("use ::pomelo::pomelo as Option;\nOption! {{ {} }}\n{}", t.replace('\n', " "), sp.glue()),
        "other punctuation" => format!("pomelo::pomelo! {{\n{}\n}}\n{}", punctuated(&mut s, &sp), sp.glue()),
        "parentheses" => format!("#[cfg(all())]\npomelo::pomelo!(\n{}\n);\n{}", t, sp.glue()),
        "brackets" => format!("{}\npomelo::pomelo![ {} ];", sp.glue(), t),
        "one token tree at a time" => format!("macro_rules! pass {{ ($($t:tt)*) => {{ pomelo::pomelo! {{ $($t)* }} }} }}\npass! {{\n{}\n}}\n{}", t, sp.glue()),
        "through two macros" => format!(
            "macro_rules! outer {{ ($h:tt; $($t:tt)*) => {{ outer! {{ @ ::pomelo; $h $($t)* }} }}; (@ $p:path; $($t:tt)*) => {{ inner! {{ $($t)* }} }} }}\nmacro_rules! inner {{ ($($t:tt)*) => {{ ::pomelo::pomelo! {{ $($t)* }} }} }}\nouter! {{ %; include {{}} {} }}\n{}",
            t,
            sp.glue()
        ),
        "a part as an expression" => {
            // all that the action code calls comes in as an expression
            let t2 = t.replace("::rt::actx(", "$f(").replace("::rt::act(", "$g(");
            format!("macro_rules! part {{ ($f:expr, $g:expr) => {{ pomelo::pomelo! {{\n{}\n}} }} }}\npart!(::rt::actx, ::rt::act);\n{}", t2, sp.glue())
        }
        "fragments" => format!("{}{}", frag(&mut s, &sp, "pomelo::pomelo"), sp.glue()),
        "fragments inside a nested macro" => format!("macro_rules! pass {{ ($($t:tt)*) => {{ pomelo::pomelo! {{ $($t)* }} }} }}\n{}{}", frag(&mut s, &sp, "pass"), sp.glue()),
        "in a nested module" => format!("pub mod nested {{ pub mod nested2 {{\n{}{} }} }}\npub use self::nested::nested2::new;\n", sp.invocation(), sp.glue()),
        "twice side by side" => {
            let mut o = sp.clone();
            o.module = Some(format!("{}_2", m));
            o.cust = Some(Custom { inside: true, ..Default::default() });
            if s.chance(50) {
                format!("{}{}{}", o.invocation(), sp.invocation(), sp.glue())
            } else {
                format!("{}{}{}", sp.invocation(), o.invocation(), sp.glue())
            }
        }
        "renamed crate" => format!("extern crate pomelo as zcrate;\nzcrate::pomelo! {{\n{}\n}}\n{}", t, sp.glue()),
        "in a function body" => format!("pub fn new(x: u64) -> Box<dyn ::rt::Drv> {{\n::pomelo::pomelo! {{\n{}\n}}\n{}::new(x)\n}}\n", t, m),
        "among items with common names" => format!(
            "pub struct Option; pub enum Result {{ Ok, Err, Some, None }} pub use self::Result::*; pub struct Vec; pub struct Box; pub trait Iterator {{}} pub trait Default {{}} pub trait Clone {{}} pub struct Parser; pub enum Token {{}} pub type i32 = (); pub type usize = (); pub const YYNSTATE: u8 = 0; pub fn token_value() {{}} pub struct YYMinorType;\npomelo::pomelo! {{\n{}\n}}\npub use self::{}::new;\n",
            t, m
        ),
        "fragments in a function body" => format!("pub fn new(x: u64) -> Box<dyn ::rt::Drv> {{\n{}{}::new(x)\n}}\n", frag(&mut s, &sp, "::pomelo::pomelo"), m),
        _ => unreachable!(),
    };
    Unit { src, mode: Mode::Full }
}

pub struct C26;
impl Prop for C26 {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "one case = one token sequence on the parsers of one specification whose macro call is written plainly and in three other forms (other path, crate or macro name, delimiters; in a function body or nested module, among items with common names, twice side by side; passed through one or two macro_rules macros as token trees, or with actions, error code, patterns, types, names and literals coming in as fragments; with the optional semicolons there or not, %fallback lists in parts, empty declarations); the forms must be accepted or rejected together, and traces must be equal. Non-trivial: at least 2 actions ran, or an error was reported. Distinct by (rules, forms, sequence)."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 600, thorough: 20000, shard: 10, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let mut j = super::env::C16.gen(s, idx)?;
        let sp = &mut j.specs[0];
        sp.cust = None;
        sp.extra_arg = s.chance(60);
        sp.handlers = s.chance(90);
        if s.chance(40) {
            sp.stack = Some((s.range(4, 40), *s.pick(&[StackTy::Vec, StackTy::V])));
        }
        if sp.wildcard.is_none() && sp.default_ty.is_none() && s.chance(15) {
            sp.extra_tok = true;
        }
        gen::aliases_and_code(s, sp, &gen::Deco { typed: 70, units: 10, aliases: 90, nocode: 10, order: 0 });
        if s.chance(30) {
            sp.module = Some(s.pick(&["lemon", "r#gen", "parser", "core", "alloc"]).to_string());
        }
        for c in &mut j.cases {
            if s.chance(50) {
                c.plans = vec!["O".into()];
            }
        }
        let mut ks: Vec<u64> = (0..FORMS.len() as u64).collect();
        s.shuffle(&mut ks);
        // one program per world: all jobs of a shard share one
        ks[2] = FORMS.len() as u64 + idx / self.budget().shard as u64 % WORLDS.len() as u64;
        j.nums = ks[..3].iter().flat_map(|k| [*k, s.u32() as u64]).collect();
        Some(j)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        let mut v = vec![unit(&job.specs[0])];
        v.extend(job.nums.chunks(2).map(|p| form(&job.specs[0], p[0] as usize, p[1])));
        v
    }
    fn cases(&self, job: &Job) -> Vec<Case> {
        let nv = 1 + job.nums.len() / 2;
        let looping = {
            let g = Cfg::of(&job.specs[0]);
            !job.specs[0].prec.is_empty() && g.can_loop()
        };
        let mut v = vec![];
        for c in &job.cases {
            for k in 0..nv {
                let mut c = c.clone();
                if looping {
                    c.ops.truncate(1);
                }
                c.g = vec![k];
                v.push(c);
            }
        }
        v
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let spec = &job.specs[0];
        if spec.rules.is_empty() || spec.cust.is_some() {
            return Ok(());
        }
        let kind = |s: &St| match s {
            St::Ok => "accepted",
            St::Rejected(_) => "rejected",
            St::Panicked(_) => "panic",
            St::TypeErr(_) => "type error",
            St::Died(_) => "died",
        };
        let nv = 1 + job.nums.len() / 2;
        let name = |k: usize| form_name(job.nums[2 * (k - 1)] as usize);
        for k in 1..nv {
            // in a function body the missing module is an error of its own (and the numbers in a report of
            // conflicts differ from one expansion to the next)
            let both = matches!((&obs.units[0], &obs.units[k]), (St::Rejected(a), St::TypeErr(b)) if b.contains(a.lines().next().unwrap_or("")));
            if !both && kind(&obs.units[k]) != kind(&obs.units[0]) {
                return fail(None, format!("the specification is {}, but {} when the call is written {:?}: {:?} / {:?}\n{}", kind(&obs.units[0]), kind(&obs.units[k]), name(k), obs.units[0], obs.units[k], form(spec, job.nums[2 * k - 2] as usize, job.nums[2 * k - 1]).src));
            }
            t.count(&format!("{}: {}", name(k), kind(&obs.units[k])));
        }
        if obs.units[0] != St::Ok {
            t.eval(spec.rules.len() >= 3, &(&spec.rules, &spec.prec, &job.nums));
            return Ok(());
        }
        for (ci, c) in job.cases.iter().enumerate() {
            if !simple_shape(c) || !ends(c) {
                continue;
            }
            let at = ci * nv;
            let Some(t0) = trace(obs, at) else { continue };
            for k in 1..nv {
                let Some(tk) = trace(obs, at + k) else { continue };
                if tk != t0 {
                    return fail(ci, format!("{:?}: {} on [{}]\n{}", name(k), diff(&t0, &tk), toks_of(spec, c), form(spec, job.nums[2 * k - 2] as usize, job.nums[2 * k - 1]).src));
                }
            }
            let acts = t0.iter().filter(|e| matches!(e, Ev::R { .. })).count();
            let err = t0.iter().any(|e| matches!(e, Ev::Y { .. } | Ev::F { .. } | Ev::O { .. }));
            t.eval(acts >= 2 || err, &(&spec.rules, &job.nums, &c.ops));
            t.count(if err { "sequences with errors" } else { "sequences without errors" });
            if acts >= 3 && c.ops.len() < 14 {
                t.sample(|| format!("{} | {:?} | {} -> {}", render(spec), (1..nv).map(name).collect::<Vec<_>>(), toks_of(spec, c), show(&t0)));
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 7_000), ("fragments: accepted", 25), ("fragments in a function body: accepted", 25), ("one token tree at a time: accepted", 25), ("twice side by side: accepted", 25), ("other punctuation: accepted", 25), ("edition 2018: accepted", 30), ("edition 2024: accepted", 30), ("dependency of another name: accepted", 30), ("sequences with errors", 4_000), ("sequences without errors", 3_500)]
    }
}
