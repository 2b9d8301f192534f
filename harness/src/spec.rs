//! Abstract pomelo specifications, their rendering to macro input and to Rust glue.
use serde::{Deserialize, Serialize};
use std::fmt::Write as _;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Ty {
    Unset,
    Unit,
    W(u32),
    X,
    Opt(Box<Ty>),
    Pair(Box<Ty>),
    /// the type parameter of Custom, standing for W<0>
    G,
    /// W<N> with the const parameter of Custom, standing for W<1>
    C,
    /// a reference with the lifetime parameter of Custom to W<2>
    R,
    /// another way of writing a type that carries the value of this one
    Sh(u8, Box<Ty>),
}
pub const SHAPES: usize = 10;
impl Ty {
    /// does the type mention this type (one of G, C, R)?
    pub fn has(&self, x: &Ty) -> bool {
        match self {
            Ty::Opt(t) | Ty::Pair(t) | Ty::Sh(_, t) => t.has(x),
            t => t == x,
        }
    }
    /// with the parameters instantiated
    pub fn conc(&self) -> Ty {
        match self {
            Ty::G => Ty::W(0),
            Ty::C => Ty::W(1),
            Ty::Opt(t) => Ty::Opt(Box::new(t.conc())),
            Ty::Pair(t) => Ty::Pair(Box::new(t.conc())),
            t => t.clone(),
        }
    }
    pub fn rust(&self) -> String {
        match self {
            Ty::Unset | Ty::Unit => "()".into(),
            Ty::W(k) => format!("::rt::W<{}>", k),
            Ty::X => "::rt::X".into(),
            Ty::Opt(t) => format!("Option<{}>", t.rust()),
            Ty::Pair(t) => format!("(::rt::X, {})", t.rust()),
            Ty::G => "T".into(),
            Ty::C => "::rt::W<N>".into(),
            Ty::R => "&'a ::rt::W<2>".into(),
            // types alike in their last segment
            Ty::Sh(9, t) => match &**t {
                Ty::W(k) if *k < 8 => format!("::rt::q{}::V", k),
                t => t.rust(),
            },
            // values whose number is counted
            Ty::Sh(10, t) => match &**t {
                Ty::W(k) => format!("::rt::Lv<{}>", k),
                t => t.rust(),
            },
            Ty::Sh(k, t) => {
                let t = t.rust();
                match k {
                    0 => format!("({},)", t),
                    1 => format!("[{}; 1]", t),
                    2 => format!("Box<{}>", t),
                    3 => format!("&'static {}", t),
                    4 => "Box<dyn ::rt::Lg + Send + Sync>".to_string(),
                    5 => format!("Result<{}, ()>", t),
                    6 => format!("<{} as ::rt::Same>::Ty", t),
                    7 => format!("({})", t),
                    _ => format!("::std::vec::Vec<{}>", t),
                }
            }
        }
    }
    pub fn set(&self) -> bool {
        *self != Ty::Unset
    }
    /// Rust expression building a value of this type from `v` (payload) and `x` (extra).
    pub fn build(&self, v: &str, x: &str) -> String {
        match self {
            Ty::Unset | Ty::Unit => "()".into(),
            Ty::W(_) => format!("::rt::W({})", v),
            Ty::X => format!("::rt::X({})", x),
            Ty::Opt(t) => format!("Some({})", t.build(v, x)),
            Ty::Pair(t) => format!("(::rt::X({}), {})", x, t.build(v, x)),
            Ty::G => format!("::rt::Vl::mk({})", v),
            Ty::C => format!("::rt::W({})", v),
            Ty::R => format!("::rt::leak({})", v),
            Ty::Sh(9, t) => match &**t {
                Ty::W(k) if *k < 8 => format!("::rt::q{}::V(::rt::W({}))", k, v),
                t => t.build(v, x),
            },
            Ty::Sh(10, t) => match &**t {
                Ty::W(k) => format!("::rt::Lv::<{}>::new({})", k, v),
                t => t.build(v, x),
            },
            Ty::Sh(k, t) => {
                let b = t.build(v, x);
                match k {
                    0 => format!("({},)", b),
                    1 => format!("[{}]", b),
                    2 => format!("Box::new({})", b),
                    4 => format!("Box::new({{ let b: {} = {}; b }})", t.rust(), b),
                    3 => format!("::rt::forget({})", b),
                    5 => format!("Ok({})", b),
                    6 | 7 => b,
                    _ => format!("vec![{}]", b),
                }
            }
        }
    }
    pub fn val(&self, v: u64, x: u64) -> Val {
        match self {
            Ty::Unset | Ty::Unit => Val::U,
            Ty::W(k) => Val::W(*k, v),
            Ty::X => Val::X(x),
            Ty::Opt(t) => Val::S(Box::new(t.val(v, x))),
            Ty::Pair(t) => Val::P(Box::new(Val::X(x)), Box::new(t.val(v, x))),
            Ty::G => Val::W(0, v),
            Ty::C => Val::W(1, v),
            Ty::R => Val::W(2, v),
            Ty::Sh(_, t) => t.val(v, x),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    U,
    W(u32, u64),
    X(u64),
    N,
    S(Box<Val>),
    P(Box<Val>, Box<Val>),
}
impl Val {
    /// how many payloads it holds
    pub fn held(&self) -> usize {
        match self {
            Val::W(..) => 1,
            Val::S(v) => v.held(),
            Val::P(a, b) => a.held() + b.held(),
            Val::U | Val::X(_) | Val::N => 0,
        }
    }
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::U => write!(f, "u"),
            Val::W(k, n) => write!(f, "{}.{}", k, n),
            Val::X(n) => write!(f, "x{}", n),
            Val::N => write!(f, "N"),
            Val::S(v) => write!(f, "S<{}>", v),
            Val::P(a, b) => write!(f, "({}&{})", a, b),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Sym {
    pub name: String,
    pub ty: Ty,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Class {
    pub name: String,
    pub members: Vec<usize>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum S {
    T(usize),
    N(usize),
    Alt(Vec<usize>),
    Class(usize),
    Err,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Alias {
    No,
    Id,
    Mut,
    /// destructuring pattern
    Pat,
    /// `_`
    Wild,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Item {
    pub sym: S,
    pub opt: bool,
    pub alias: Alias,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Code {
    None,
    Act,
    /// `{ a_i }`
    Fwd(usize),
    /// `{ None }`
    NoneV,
    /// `{ Some(a_i) }`
    SomeOf(usize),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Rule {
    pub lhs: usize,
    pub rhs: Vec<Item>,
    pub code: Code,
    pub prec: Option<usize>,
    /// id used in the action log; several rules of a desugared grammar may share the id of the
    /// rule they come from
    pub id: usize,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Assoc {
    Left,
    Right,
    Non,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum StackTy {
    Vec,
    V,
    F,
}
/// Customisation of the generated items.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Custom {
    /// const parameter before the type parameter
    pub swap: bool,
    /// bounds in a where clause
    pub wh: bool,
    /// defaults of the parameters
    pub dfl: bool,
    /// the other way around in %parser
    #[serde(default)]
    pub pwh: bool,
    #[serde(default)]
    pub pdfl: bool,
    /// parameter of the extra argument: 0 none, 1 lifetime 'e, 2 type E
    pub pe: u8,
    /// %token is given: visibility, item attributes
    pub tok: Option<(String, Vec<String>)>,
    /// %parser is given
    pub par: Option<(String, Vec<String>)>,
    /// attributes by terminal name
    pub attrs: Vec<(String, String)>,
    pub includes: Vec<String>,
    /// statements of the checks run when a parser is made; `m` is the module
    pub checks: Vec<String>,
    /// items next to the macro call
    pub items: Vec<String>,
    /// the glue code is inside the module
    pub inside: bool,
    /// the macro call comes out of macro_rules
    pub wrap: bool,
    /// extend Token / Parser by inherent methods
    pub methods: bool,
    /// declarations go through names brought in by %include
    pub alias: bool,
    /// only the part of the glue that the handlers need
    pub min: bool,
    /// what to put into the fields above (props/custom.rs)
    #[serde(default)]
    pub opts: Vec<String>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct Spec {
    pub terms: Vec<Sym>,
    pub nts: Vec<Sym>,
    pub classes: Vec<Class>,
    pub rules: Vec<Rule>,
    pub start: Option<usize>,
    pub err_ty: Ty,
    pub prec: Vec<(Assoc, Vec<usize>)>,
    pub fallback: Vec<(usize, Vec<usize>)>,
    pub wildcard: Option<usize>,
    pub default_ty: Option<Ty>,
    pub extra_tok: bool,
    pub extra_arg: bool,
    pub stack: Option<(usize, StackTy)>,
    /// custom %error type and handlers; otherwise everything is defaulted
    pub handlers: bool,
    pub module: Option<String>,
    pub verbose: bool,
    /// sort keys of the declarations (empty: canonical order)
    pub order: Vec<u32>,
    /// verbatim declarations appended to the specification
    pub raw: Vec<String>,
    #[serde(default)]
    pub cust: Option<Custom>,
    /// with `handlers`, what is left out all the same: %syntax_error (1), %parse_fail (2),
    /// %stack_overflow (4), %error (16); 8: the error type has no Default
    #[serde(default)]
    pub dflt: u8,
    /// names for the aliases (empty: a0, a1, ...)
    #[serde(default)]
    pub anames: Vec<String>,
    /// aliases are numbered by their order among the rule's aliases, not by position
    #[serde(default)]
    pub anum: bool,
    /// how the extra argument's type is written
    #[serde(default)]
    pub eshape: u8,
}

impl Spec {
    /// (parameters, arguments) as declared names: what the tokens (or, with `par`, the parser) use,
    /// e.g. [("'a", "", ""), ("T", "T: ::rt::Vl", "::rt::W<0>")]: name, declaration, instance
    fn params(&self, par: bool) -> Vec<(&'static str, &'static str, &'static str, &'static str)> {
        let Some(c) = &self.cust else { return vec![] };
        let mut tys: Vec<Ty> = (0..self.terms.len()).map(|t| self.tty(t)).collect();
        if par && c.par.is_some() {
            tys.extend((0..self.nts.len()).map(|n| self.nty(n)));
            tys.push(self.ety());
        }
        let any = |x: &Ty| tys.iter().any(|t| t.has(x));
        let mut v = vec![];
        if any(&Ty::R) {
            v.push(("'a", "'a", "'static", ""));
        }
        if par && c.par.is_some() && self.extra_arg && c.pe == 1 {
            v.push(("'e", "'e", "'static", ""));
        }
        let mut w = vec![];
        if any(&Ty::G) {
            w.push(("T", "T", "::rt::W<0>", "::rt::Vl"));
        }
        if par && c.par.is_some() && self.extra_arg && c.pe == 2 {
            w.push(("E", "E", "::rt::Ex", "::rt::IsEx"));
        }
        if any(&Ty::C) {
            let n = ("N", "const N: u32", "1", "");
            if c.swap {
                w.insert(0, n);
            } else {
                w.push(n);
            }
        }
        v.extend(w);
        v
    }
    fn angle(v: Vec<String>) -> String {
        if v.is_empty() {
            String::new()
        } else {
            format!("<{}>", v.join(", "))
        }
    }
    /// generics of a declaration, and its where clause
    pub fn gdecl(&self, par: bool, defaults: bool) -> (String, String) {
        let (wh, dfl) = self.cust.as_ref().map_or((false, false), |c| {
            let p = par && c.par.is_some();
            (c.wh != (p && c.pwh), (c.dfl != (p && c.pdfl)) && defaults)
        });
        let ps = self.params(par);
        let g = ps
            .iter()
            .map(|p| {
                let mut s = p.1.to_string();
                if !p.3.is_empty() && !wh {
                    s += &format!(": {}", p.3);
                }
                if dfl && !p.0.starts_with('\'') {
                    s += &format!(" = {}", p.2);
                }
                s
            })
            .collect();
        let w: Vec<String> = ps.iter().filter(|p| wh && !p.3.is_empty()).map(|p| format!("{}: {}", p.0, p.3)).collect();
        (Self::angle(g), if w.is_empty() { String::new() } else { format!(" where {}", w.join(", ")) })
    }
    /// generic arguments: by name, or instantiated
    pub fn gargs(&self, par: bool, inst: bool) -> String {
        Self::angle(self.params(par).iter().map(|p| if inst { p.2.to_string() } else { p.0.to_string() }).collect())
    }
    pub fn extra_ty(&self, inst: bool) -> String {
        match self.cust.as_ref().filter(|c| c.par.is_some()).map_or(0, |c| c.pe) {
            1 => format!("::rt::ExR<{}>", if inst { "'static" } else { "'e" }),
            2 if !inst => "E".into(),
            _ if self.cust.is_some() => "::rt::Ex".into(),
            _ => ["::rt::Ex", "(::rt::Ex,)", "(::rt::Ex, u8)", "Box<::rt::Ex>", "[::rt::Ex; 1]", "Option<::rt::Ex>", "<::rt::Ex as ::rt::Same>::Ty", "(u8, (::rt::Ex,))"][self.eshape as usize].into(),
        }
    }
    pub fn empty() -> Spec {
        Spec {
            terms: vec![],
            nts: vec![],
            classes: vec![],
            rules: vec![],
            start: None,
            err_ty: Ty::Unset,
            prec: vec![],
            fallback: vec![],
            wildcard: None,
            default_ty: None,
            extra_tok: false,
            extra_arg: false,
            stack: Some((0, StackTy::Vec)),
            handlers: true,
            dflt: 0,
            anames: vec![],
            anum: false,
            eshape: 0,
            module: None,
            verbose: false,
            order: vec![],
            raw: vec![],
            cust: None,
        }
    }
    pub fn uses_error(&self) -> bool {
        self.rules.iter().any(|r| r.rhs.iter().any(|i| i.sym == S::Err))
    }
    pub fn start_nt(&self) -> usize {
        self.start.unwrap_or(self.rules[0].lhs)
    }
    pub fn dflt(&self) -> Ty {
        self.default_ty.clone().unwrap_or(Ty::Unset)
    }
    /// Type of a terminal as documented (%type, then %extra_token, then %default_type).
    pub fn tty(&self, t: usize) -> Ty {
        if self.wildcard == Some(t) && !self.extra_tok {
            return Ty::Unset;
        }
        let d = self.terms[t].ty.clone();
        if self.extra_tok {
            return if d.set() { Ty::Pair(Box::new(d)) } else { Ty::X };
        }
        if d.set() {
            d
        } else {
            self.dflt()
        }
    }
    /// what Drv::tok prints for a token
    pub fn tok_access(&self, t: usize, v: u64, x: u64, y: u64) -> String {
        if !self.extra_tok {
            return String::new();
        }
        format!("{},{},{},{}:{}", x, y, y, t, self.tty(t).val(v, y))
    }
    pub fn nty(&self, n: usize) -> Ty {
        let d = self.nts[n].ty.clone();
        if d.set() {
            d
        } else {
            self.dflt()
        }
    }
    pub fn ety(&self) -> Ty {
        if self.err_ty.set() {
            self.err_ty.clone()
        } else {
            self.dflt()
        }
    }
    /// Type of an item without its `?`.
    pub fn base_ty(&self, s: &S) -> Ty {
        match s {
            S::T(t) => self.tty(*t),
            S::N(n) => self.nty(*n),
            S::Alt(v) => self.tty(v[0]),
            S::Class(c) => self.tty(self.classes[*c].members[0]),
            S::Err => self.ety(),
        }
    }
    pub fn item_ty(&self, i: &Item) -> Ty {
        let b = self.base_ty(&i.sym);
        if i.opt {
            Ty::Opt(Box::new(if b.set() { b } else { Ty::Unit }))
        } else {
            b
        }
    }
    pub fn members(&self, s: &S) -> Vec<usize> {
        match s {
            S::Alt(v) => v.clone(),
            S::Class(c) => self.classes[*c].members.clone(),
            S::T(t) => vec![*t],
            _ => vec![],
        }
    }
    /// (level, assoc) of each terminal
    pub fn term_prec(&self) -> Vec<Option<(u32, Assoc)>> {
        let mut v = vec![None; self.terms.len()];
        for (i, (a, ts)) in self.prec.iter().enumerate() {
            for t in ts {
                v[*t] = Some((i as u32 + 1, *a));
            }
        }
        v
    }
    pub fn module_name(&self) -> &str {
        self.module.as_deref().unwrap_or("parser")
    }

    fn sym_name(&self, s: &S) -> String {
        match s {
            S::T(t) => self.terms[*t].name.clone(),
            S::N(n) => self.nts[*n].name.clone(),
            S::Alt(v) => v.iter().map(|t| self.terms[*t].name.clone()).collect::<Vec<_>>().join("|"),
            S::Class(c) => self.classes[*c].name.clone(),
            S::Err => "error".into(),
        }
    }
    fn rule_text(&self, r: &Rule) -> String {
        let mut s = String::new();
        write!(s, "{} ::=", self.nts[r.lhs].name).unwrap();
        let mut args = Vec::new();
        let num = |k: usize| if self.anum { r.rhs[..k].iter().filter(|i| matches!(i.alias, Alias::Id | Alias::Mut | Alias::Pat)).count() } else { k };
        let an = |k: usize| if r.rhs.len() > self.anames.len() { format!("a{}", num(k)) } else { self.anames[(r.id * 5 + k) % self.anames.len()].clone() };
        for (k, i) in r.rhs.iter().enumerate() {
            let a = an(k);
            write!(s, " {}", self.sym_name(&i.sym)).unwrap();
            if i.opt {
                s.push('?');
            }
            let ty = self.item_ty(i);
            match &i.alias {
                Alias::No => {}
                Alias::Id => {
                    write!(s, "({})", a).unwrap();
                    args.push(format!("&{}", a));
                }
                Alias::Mut => {
                    write!(s, "(mut {})", a).unwrap();
                    args.push(format!("&mut {}", a));
                }
                Alias::Wild => s.push_str("(_)"),
                Alias::Pat => match &ty {
                    Ty::W(w) => {
                        let p = |b: &str| format!("::rt::W::<{}>({})", w, b);
                        match (r.id + 2 * k) % 5 {
                            0 => write!(s, "({} | {})", p(&a), p(&a)).unwrap(),
                            1 => write!(s, "(({}))", p(&a)).unwrap(),
                            2 => write!(s, "({})", p(&format!("mut {} @ _", a))).unwrap(),
                            _ => write!(s, "(::rt::W({}))", a).unwrap(),
                        }
                        args.push(format!("&::rt::W::<{}>({})", w, a));
                    }
                    Ty::X => {
                        match (r.id + k) % 4 {
                            0 => write!(s, "({} @ ::rt::X(..))", a).unwrap(),
                            1 => write!(s, "(ref mut {})", a).unwrap(),
                            _ => write!(s, "(::rt::X({}))", a).unwrap(),
                        }
                        args.push(match (r.id + k) % 4 {
                            0 => format!("&{}", a),
                            1 => format!("&*{}", a),
                            _ => format!("&::rt::X({})", a),
                        });
                    }
                    Ty::Pair(_) => {
                        write!(s, "(({}, b{}))", a, num(k)).unwrap();
                        args.push(format!("&({}, b{})", a, num(k)));
                    }
                    _ => {
                        write!(s, "({})", a).unwrap();
                        args.push(format!("&{}", a));
                    }
                },
            }
        }
        if let Some(p) = r.prec {
            write!(s, " [{}]", self.terms[p].name).unwrap();
        }
        match &r.code {
            Code::None => s.push_str(";"),
            Code::Act => {
                let call = if self.extra_arg {
                    format!("::rt::actx(extra, {}, &[{}])?", r.id, args.join(", "))
                } else {
                    format!("::rt::act({}, &[{}])?", r.id, args.join(", "))
                };
                let ty = self.nty(r.lhs);
                // some actions leave with `return`
                let call = if r.id % 7 == 3 { format!("match {} {{ Ok(v) => v, Err(e) => return Err(e.into()) }}", call.trim_end_matches('?')) } else { call };
                match ty {
                    Ty::Unset | Ty::Unit => write!(s, " {{ {}; }}", call).unwrap(),
                    t => write!(s, " {{ let v = {}; {} }}", call, t.build("v", "v")).unwrap(),
                }
            }
            Code::Fwd(i) => write!(s, " {{ {} }}", an(*i)).unwrap(),
            Code::NoneV => s.push_str(" { None }"),
            Code::SomeOf(i) => write!(s, " {{ Some({}) }}", an(*i)).unwrap(),
        }
        s
    }
    /// Indices of the rules with their declaration text, in rendering order.
    pub fn decls(&self) -> Vec<String> {
        #[derive(PartialEq, Clone, Copy)]
        enum K {
            Other,
            Prec,
            Rule,
        }
        let mut d: Vec<(K, String)> = Vec::new();
        if let Some(m) = &self.module {
            d.push((K::Other, format!("%module {};", m)));
        }
        if self.verbose {
            d.push((K::Other, "%verbose;".into()));
        }
        if self.extra_arg {
            d.push((K::Other, format!("%extra_argument {};", self.extra_ty(false))));
        }
        if self.extra_tok {
            d.push((K::Other, "%extra_token ::rt::X;".into()));
        }
        if let Some(t) = &self.default_ty {
            d.push((K::Other, format!("%default_type {};", t.rust())));
        }
        if let Some((n, t)) = &self.stack {
            let t = match t {
                StackTy::Vec => "".to_string(),
                StackTy::V => " ::rt::VStack".to_string(),
                StackTy::F => {
                    let cap = if *n == 0 { 1_000_000 } else { *n };
                    d.push((K::Other, format!("%include {{ pub type FStk<T> = ::rt::FStack<T, {}>; }}", cap)));
                    " FStk".to_string()
                }
            };
            // written as any integer literal
            let n = match (self.rules.len() + self.terms.len()) % 6 {
                0 => format!("{:#x}", n),
                1 => format!("{}usize", n),
                2 => format!("0_{}", n),
                3 => format!("{:#b}", n),
                _ => n.to_string(),
            };
            d.push((K::Other, format!("%stack_size {}{};", n, t)));
        }
        if self.handlers {
            let (e, c) = if self.extra_arg { ("extra, ", "x") } else { ("", "") };
            let into = if self.dflt & (8 | 16 | 128 | 64) != 0 { ".into()" } else { "" };
            if self.dflt & 16 == 0 {
                d.push((K::Other, format!("%error {};", if self.dflt & 8 != 0 { "::rt::En" } else { ["::rt::E", "Box<::rt::E>", "(::rt::E,)", "[::rt::E; 1]"][self.dflt as usize >> 6] })));
            }
            let ti = if self.cust.as_ref().map_or(false, |c| c.inside) { "self::ti" } else { "super::ti" };
            let ret = match self.ety() {
                Ty::Unset | Ty::Unit => "let _ = v; Ok(())".to_string(),
                t => format!("Ok({})", t.build("v", "v")),
            };
            if self.given(1) {
                d.push((
                    K::Other,
                    format!(
                        "%syntax_error {{ let mut ex = ::rt::exs(); for e in expected {{ ex.push((e.name, e.token.as_ref().map({ti}))); }} let v = ::rt::se{}({}token.as_ref().map({ti}), ex)?; {} }}",
                        c, e, ret
                    ),
                ));
            }
            if self.given(2) {
                d.push((K::Other, format!("%parse_fail {{ ::rt::pf{}({}){into} }}", c, e.trim_end_matches(", "))));
            }
            if self.given(4) && !matches!(self.stack, Some((0, _))) {
                d.push((K::Other, format!("%stack_overflow {{ ::rt::so{}({}token.as_ref().map({ti})){into} }}", c, e)));
            }
        }
        let attr = |n: &str| self.cust.iter().flat_map(|c| &c.attrs).filter(|a| a.0 == n).map(|a| format!("{} ", a.1)).collect::<String>();
        for t in &self.terms {
            if t.ty.set() {
                d.push((K::Other, format!("%type {}{} {};", attr(&t.name), t.name, t.ty.rust())));
            }
        }
        let mut used = vec![false; self.terms.len()];
        for r in &self.rules {
            for i in &r.rhs {
                match &i.sym {
                    S::T(t) => used[*t] = true,
                    S::Alt(v) => v.iter().for_each(|t| used[*t] = true),
                    _ => {}
                }
            }
        }
        for c in &self.classes {
            c.members.iter().for_each(|t| used[*t] = true);
        }
        for (i, t) in self.terms.iter().enumerate() {
            let a = attr(&t.name);
            if !t.ty.set() && (!used[i] || !a.is_empty()) {
                d.push((K::Other, format!("%type {}{};", a, t.name)));
            }
        }
        for n in &self.nts {
            if n.ty.set() {
                d.push((K::Other, format!("%type {} {};", n.name, n.ty.rust())));
            }
        }
        if self.err_ty.set() {
            d.push((K::Other, format!("%type error {};", self.err_ty.rust())));
        }
        let names = |v: &[usize]| v.iter().map(|t| self.terms[*t].name.clone()).collect::<Vec<_>>().join(" ");
        for c in &self.classes {
            d.push((K::Other, format!("%token_class {} {};", c.name, names(&c.members))));
        }
        for (a, v) in &self.prec {
            let k = match a {
                Assoc::Left => "left",
                Assoc::Right => "right",
                Assoc::Non => "nonassoc",
            };
            d.push((K::Prec, format!("%{} {};", k, names(v))));
        }
        for (f, v) in &self.fallback {
            d.push((K::Other, format!("%fallback {} {};", self.terms[*f].name, names(v))));
        }
        if let Some(w) = self.wildcard {
            d.push((K::Other, format!("%wildcard {};", self.terms[w].name)));
        }
        if let Some(s) = self.start {
            d.push((K::Other, format!("%start_symbol {};", self.nts[s].name)));
        }
        for r in &self.raw {
            d.push((K::Other, r.clone()));
        }
        if let Some(c) = &self.cust {
            for (decl, kind, name, par) in [(&c.tok, "%token", "enum Token", false), (&c.par, "%parser", "struct Parser", true)] {
                if let Some((vis, attrs)) = decl {
                    let (g, w) = self.gdecl(par, true);
                    d.push((K::Other, format!("{} {} {} {}{}{} {{}};", kind, attrs.join(" "), vis, name, g, w)));
                }
            }
            if c.tok.is_none() && !self.params(false).is_empty() {
                let (g, w) = self.gdecl(false, true);
                d.push((K::Other, format!("%token pub enum Token{}{} {{}};", g, w)));
            }
            for i in &c.includes {
                d.push((K::Other, format!("%include {{ {} }}", i)));
            }
            if c.methods {
                for (name, par) in [("Token", false), ("Parser", true)] {
                    let (g, w) = self.gdecl(par, false);
                    d.push((K::Other, format!("%include {{ impl{} {}{}{} {{ pub fn tag(&self) -> u64 {{ {} }} }} }}", g, name, self.gargs(par, false), w, 40 + par as u64)));
                }
            }
            if c.inside {
                d.push((K::Other, format!("%include {{ {} }}", self.glue())));
            }
        }
        for r in &self.rules {
            d.push((K::Rule, self.rule_text(r)));
        }
        if self.cust.as_ref().map_or(false, |c| c.alias) {
            for x in d.iter_mut().filter(|x| !x.1.starts_with("%include")) {
                x.1 = x.1.replace("::rt::W<0>", "Wz").replace("::rt::", "rr::");
            }
            d.push((K::Other, "%include { use ::rt as rr; pub type Wz = rr::W<0>; }".into()));
        }
        if self.order.is_empty() {
            return d.into_iter().map(|x| x.1).collect();
        }
        // permute, then put the precedence directives back into their relative order and, without
        // %start_symbol, a rule of the start symbol first
        let mut idx: Vec<usize> = (0..d.len()).collect();
        idx.sort_by_key(|i| (self.order[i % self.order.len()].wrapping_mul(2654435761).rotate_left((i / self.order.len()) as u32), *i));
        let precs: Vec<usize> = (0..d.len()).filter(|i| d[*i].0 == K::Prec).collect();
        let mut k = 0;
        for i in idx.iter_mut() {
            if d[*i].0 == K::Prec {
                *i = precs[k];
                k += 1;
            }
        }
        if self.start.is_none() {
            let r0 = d.iter().position(|x| x.0 == K::Rule).unwrap();
            let first_rule = idx.iter().position(|i| d[*i].0 == K::Rule).unwrap();
            let st = self.rules[0].lhs;
            if self.rules[idx[first_rule] - r0].lhs != st {
                let other = idx.iter().position(|i| d[*i].0 == K::Rule && self.rules[*i - r0].lhs == st).unwrap();
                idx.swap(first_rule, other);
            }
        }
        idx.into_iter().map(|i| d[i].1.clone()).collect()
    }
    /// the error type is `()`
    pub fn err_unit(&self) -> bool {
        !self.handlers || self.dflt & 16 != 0
    }
    /// code is given for %syntax_error (1), %parse_fail (2), %stack_overflow (4)
    pub fn given(&self, bit: u8) -> bool {
        self.handlers && self.dflt & bit == 0
    }
    pub fn macro_input(&self) -> String {
        self.decls().join("\n")
    }

    /// Rust source of the module that contains the macro call and implements the driver for it.
    pub fn unit(&self) -> String {
        let m = self.module_name();
        let mut s = self.invocation();
        match &self.cust {
            Some(c) if c.inside && c.min => {}
            Some(c) if c.inside => writeln!(s, "pub use self::{}::new;", m).unwrap(),
            _ => s.push_str(&self.glue()),
        }
        s
    }
    /// the macro call, and the items next to it
    pub fn invocation(&self) -> String {
        let items = self.cust.iter().flat_map(|c| &c.items).map(|i| format!("{}\n", i)).collect::<String>();
        let text = self.macro_input();
        if self.cust.as_ref().map_or(false, |c| c.wrap) {
            // the payload types, the module name and a visibility come in as fragments
            let mut t = text.replace("::rt::W<0>", "$w").replace("::rt::W<3>", "$x");
            if let Some(m) = &self.module {
                t = t.replace(&format!("%module {};", m), "%module $m;");
            }
            return format!(
                "{}macro_rules! wrapped {{ ($m:ident, $w:ty, $x:ty) => {{ pomelo::pomelo! {{\n{}\n}} }} }}\nwrapped!{{ {}, ::rt::W<0>, ::rt::W<3> }}\n",
                items,
                t,
                self.module_name()
            );
        }
        format!("{}pomelo::pomelo! {{\n{}\n}}\n", items, text)
    }
    /// the driver for the generated parser
    pub fn glue(&self) -> String {
        let inside = self.cust.as_ref().map_or(false, |c| c.inside);
        let m = if inside { "self".to_string() } else { format!("self::{}", self.module_name()) };
        let mut s = String::new();
        let generic = !self.params(true).is_empty();
        if generic {
            writeln!(s, "type K = {}::Token{};", m, self.gargs(false, true)).unwrap();
        } else {
            writeln!(s, "use {}::Token as K;", m).unwrap();
        }
        writeln!(s, "type P = {}::Parser{};", m, self.gargs(true, true)).unwrap();
        writeln!(s, "pub struct D(Option<P>);").unwrap();
        writeln!(s, "fn mk(t: u32, v: u64, x: u64) -> K {{ match t {{").unwrap();
        for (i, t) in self.terms.iter().enumerate() {
            let ty = self.tty(i);
            if ty.set() {
                writeln!(s, "{} => K::{}({}),", i, t.name, ty.build("v", "x")).unwrap();
            } else {
                writeln!(s, "{} => K::{},", i, t.name).unwrap();
            }
        }
        writeln!(s, "_ => unreachable!() }} }}").unwrap();
        let (g, w) = self.gdecl(false, false);
        let tok = if generic { format!("{}::Token", m) } else { "K".into() };
        writeln!(s, "pub fn ti{}(t: &{}{}) -> ::rt::Str{} {{ match t {{", g, tok, self.gargs(false, false), w).unwrap();
        for (i, t) in self.terms.iter().enumerate() {
            if self.tty(i).set() {
                writeln!(s, "{}::{}(a) => {{ let a: &{} = a; ::rt::lgt({}, a) }}", tok, t.name, self.tty(i).rust(), i).unwrap();
            } else {
                writeln!(s, "{}::{} => ::rt::lgt({}, &()),", tok, t.name, i).unwrap();
            }
        }
        if self.terms.is_empty() {
            s.push_str("_ => unreachable!()");
        }
        writeln!(s, "}} }}").unwrap();
        if self.cust.as_ref().map_or(false, |c| c.min) {
            return s;
        }
        let root = self.nty(self.start_nt()).conc().rust().replace("'a", "'static");
        let ev = if !self.err_unit() { ["e.0", "e.0", "(e.0).0", "e[0].0"][self.dflt as usize >> 6] } else { "{ let () = e; 0 }" };
        let newarg = if self.extra_arg { "::rt::IsEx::mk(_x)" } else { "" };
        let checks = self.cust.iter().flat_map(|c| &c.checks).map(|x| x.replace("@::", &format!("{}::", m))).collect::<Vec<_>>().join(" ");
        writeln!(s, "pub fn new(_x: u64) -> Box<dyn ::rt::Drv> {{ {{ {} }} Box::new(D(Some(P::new({})))) }}", checks, newarg).unwrap();
        writeln!(s, "impl ::rt::Drv for D {{").unwrap();
        writeln!(s, "fn parse(&mut self, t: u32, v: u64, x: u64) -> Result<(), u64> {{ self.0.as_mut().unwrap().parse(mk(t, v, x)).map_err(|e| {}) }}", ev).unwrap();
        if self.extra_arg {
            writeln!(s, "fn end(&mut self) -> Result<String, u64> {{ match self.0.take().unwrap().end_of_input() {{ Ok((r, x)) => {{ let r: {} = r; let x: {} = x; Ok(format!(\"{{}}@{{}}\", ::rt::lgs(&r), ::rt::IsEx::ex(&x).0)) }} Err(e) => Err({}) }} }}", root, self.extra_ty(true), ev).unwrap();
            let xt = self.extra_ty(true);
            writeln!(s, "fn extra(&self) -> Option<u64> {{ let x: &{} = self.0.as_ref().unwrap().extra(); Some(::rt::IsEx::ex(x).0) }}", xt).unwrap();
            writeln!(s, "fn set_extra(&mut self, v: u64) {{ let x: &mut {} = self.0.as_mut().unwrap().extra_mut(); ::rt::IsEx::exm(x).0 = v; }}", xt).unwrap();
            writeln!(s, "fn into_extra(&mut self) -> Option<u64> {{ let x: {} = self.0.take().unwrap().into_extra(); Some(::rt::IsEx::ex(&x).0) }}", xt).unwrap();
        } else {
            writeln!(s, "fn end(&mut self) -> Result<String, u64> {{ match self.0.take().unwrap().end_of_input() {{ Ok(r) => {{ let r: {} = r; Ok(::rt::lgs(&r)) }} Err(e) => Err({}) }} }}", root, ev).unwrap();
        }
        if self.extra_tok {
            writeln!(s, "fn tok(&self, t: u32, v: u64, x: u64, y: u64) -> String {{ let mut k = mk(t, v, x); let a = {{ let e: &::rt::X = k.extra(); e.0 }}; {{ let e: &mut ::rt::X = k.extra_mut(); e.0 = y; }} let b = k.extra().0; let s = ti(&k); let c: ::rt::X = k.into_extra(); format!(\"{{}},{{}},{{}},{{}}\", a, b, c.0, s) }}").unwrap();
        }
        writeln!(s, "}}").unwrap();
        s
    }
}
