//! C18: broken specifications are rejected, the macro never panics.
use super::err::plain_grammar;
use super::*;
use crate::choice::Src;
use crate::gen;

fn v(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
/// What a breaker adds to a valid specification: the control (still valid) and the broken version.
struct Pair(Vec<String>, Vec<String>);

type Breaker = fn(&mut Src, &Spec, &str) -> Option<Pair>;
/// one of the alternatives as the broken version
fn one_of(s: &mut Src, good: &[&str], bad: &[&[&str]]) -> Option<Pair> {
    let b: &&[&str] = s.pick(bad);
    Some(Pair(v(good), v(b)))
}
/// a further rule of the start symbol, marked off by a token of its own
fn alt(st: &str, rhs: &str) -> String {
    format!("{} ::= {} {{ ::core::unreachable!() }}", st, rhs)
}
fn dup(has: bool, first: &str, again: &str) -> Option<Pair> {
    if has {
        Some(Pair(vec![], v(&[again])))
    } else {
        Some(Pair(v(&[first]), v(&[first, again])))
    }
}
fn any_nt(s: &mut Src, sp: &Spec) -> String {
    sp.nts[sp.rules[s.below(sp.rules.len())].lhs].name.clone()
}
const BREAKERS: &[(&str, Breaker)] = &[
    ("second %default_type", |s, sp, _| dup(sp.default_ty.is_some(), "%default_type u8;", s.pick(&["%default_type u8;", "%default_type u16;"]))),
    ("second %extra_argument", |_, sp, _| dup(sp.extra_arg, "%extra_argument u8;", "%extra_argument u8;")),
    ("second %error", |_, sp, _| dup(sp.handlers, "%error u8;", "%error u8;")),
    ("second %start_symbol", |_, sp, st| {
        let d = format!("%start_symbol {};", st);
        dup(sp.start.is_some(), &d, &d)
    }),
    ("second %wildcard", |s, sp, st| {
        let (a, b) = (alt(st, "Zq Zw"), alt(st, "Zr Zv"));
        if sp.wildcard.is_some() || s.chance(30) {
            return one_of(s, &[&a, &b, "%wildcard Zw;"], &[&[&a, &b, "%wildcard Zw;", "%wildcard Zw;"]]);
        }
        one_of(s, &[&a, &b, "%wildcard Zw;"], &[&[&a, &b, "%wildcard Zw;", "%wildcard Zv;"]])
    }),
    ("second %token", |s, _, _| one_of(s, &["%token pub enum Token {};"], &[&["%token pub enum Token {};", "%token #[derive(Clone)] pub enum Token {};"]])),
    ("second %parser", |s, _, _| one_of(s, &["%parser pub struct Parser {};"], &[&["%parser pub struct Parser {};", "%parser pub struct Parser {};"]])),
    ("second %extra_token", |_, sp, _| dup(sp.extra_tok, "%extra_token u8;", "%extra_token u8;")),
    ("second %stack_size", |s, sp, _| {
        let a = *s.pick(&["%stack_size 7;", "%stack_size 0;", "%stack_size 7 Vec;"]);
        let b = *s.pick(&["%stack_size 7;", "%stack_size 0;", "%stack_size 9 Vec;"]);
        dup(sp.stack.is_some(), a, b)
    }),
    ("second %syntax_error", |_, sp, _| dup(sp.handlers, "%syntax_error { Err(()) }", "%syntax_error { Err(()) }")),
    ("second %parse_fail", |_, sp, _| dup(sp.handlers, "%parse_fail { () }", "%parse_fail { }")),
    ("second %stack_overflow", |_, sp, _| dup(sp.handlers && !matches!(sp.stack, Some((0, _))), "%stack_overflow { () }", "%stack_overflow { () };")),
    ("second %type of a token", |s, _, st| {
        let a = alt(st, "Zq Zt");
        one_of(s, &[&a, "%type Zt u8;"], &[&[&a, "%type Zt u8;", "%type Zt u8;"], &[&a, "%type Zt u8;", "%type Zt u16;"]])
    }),
    ("second %type of a nonterminal", |s, _, st| {
        let a = alt(st, "Zq zt");
        one_of(s, &[&a, "%type zt u8;", "zt ::= Zx { 0 }"], &[&[&a, "%type zt u8;", "%type zt u8;", "zt ::= Zx { 0 }"], &[&a, "%type zt u8;", "%type zt u16;", "zt ::= Zx { 0 }"]])
    }),
    ("precedence of a nonterminal", |s, sp, _| {
        let k = *s.pick(&["left", "right", "nonassoc"]);
        let n = any_nt(s, sp);
        Some(Pair(vec![format!("%{} Zp Zr;", k)], vec![if s.chance(50) { format!("%{} {};", k, n) } else { format!("%{} Zp Zr {};", k, n) }]))
    }),
    ("second precedence of a token", |s, _, _| one_of(s, &["%left Zp;", "%right Zr;"], &[&["%left Zp;", "%right Zp;"], &["%nonassoc Zp Zr Zp;"], &["%left Zp;", "%left Zr;", "%left Zp;"]])),
    ("start symbol is a token", |s, sp, st| {
        if sp.start.is_some() {
            return None;
        }
        let g = format!("%start_symbol {};", st);
        one_of(s, &[&g], &[&["%start_symbol Zs;"]])
    }),
    ("fallback of or to a nonterminal", |s, sp, _| {
        let n = any_nt(s, sp);
        let b = s.pick(&["%fallback Zf @;", "%fallback @ Za;", "%fallback Zf Za @ Zb;"]).replace('@', &n);
        Some(Pair(v(&["%fallback Zf Za Zb;"]), vec![b]))
    }),
    ("fallback loop", |s, _, _| {
        let n = s.range(1, 5);
        let e = |k: usize| format!("%fallback Zl{} Zl{};", (k + 1) % n, k);
        let mut bad: Vec<String> = (0..n).map(e).collect();
        let good = bad[1..].to_vec();
        s.shuffle(&mut bad);
        Some(Pair(good, bad))
    }),
    ("two fallbacks of a token", |s, _, _| one_of(s, &["%fallback Zf Za;", "%fallback Zg Zb;"], &[&["%fallback Zf Za;", "%fallback Zg Zb Za;"], &["%fallback Zf Za;", "%fallback Zf Za;"], &["%fallback Zf Za Zb Za;"]])),
    ("wildcard is a nonterminal", |s, sp, _| {
        let n = format!("%wildcard {};", any_nt(s, sp));
        one_of(s, &["%wildcard Zw;"], &[&[&n]])
    }),
    ("typed wildcard", |s, _, st| {
        let a = alt(st, "Zq Zw");
        one_of(s, &[&a, "%wildcard Zw;"], &[&[&a, "%wildcard Zw;", "%type Zw u8;"]])
    }),
    ("wildcard with an alias", |s, _, st| {
        let (a, b, c, d) = (alt(st, "Zq Zw"), alt(st, "Zq Zw(a)"), alt(st, "Zq Zw(_)"), alt(st, "Zq Zr(a) Zw(b)"));
        one_of(s, &[&a, "%wildcard Zw;"], &[&[&b, "%wildcard Zw;"], &[&c, "%wildcard Zw;"], &[&d, "%wildcard Zw;"]])
    }),
    ("malformed token class", |s, sp, st| {
        let a = alt(st, "Zq Zc");
        let n = any_nt(s, sp);
        let (b, c) = (format!("%token_class {} Za Zb;", n), format!("%token_class Zc Za {};", n));
        one_of(s, &[&a, "%token_class Zc Za Zb;"], &[&[&a, &b], &[&a, &c], &[&a, "%token_class Zc;"]])
    }),
    ("nested token class", |s, _, st| {
        let (a, b) = (alt(st, "Zq Zc"), alt(st, "Zq Zc|Zd"));
        one_of(
            s,
            &[&a, "%token_class Zc Za Zb;", "%token_class Zd Zb Ze;"],
            &[&[&a, "%token_class Zc Za Zd;", "%token_class Zd Zb Ze;"], &[&a, "%token_class Zd Zb Ze;", "%token_class Zc Za Zd;"], &[&b, "%token_class Zc Za Zb;"], &[&a, "%token_class Zc Zc;"]],
        )
    }),
    ("token on the left", |s, _, st| {
        let a = alt(st, "Zq");
        one_of(s, &[&a], &[&["Zl ::= Zq;"], &["Zl ::= ;"], &[&a, "Zq ::= Zr {}"]])
    }),
    ("compound with a nonterminal", |s, sp, st| {
        let n = any_nt(s, sp);
        let (a, b, c) = (alt(st, "Zq Za|Zb"), alt(st, &format!("Zq Za|{}", n)), alt(st, &format!("Zq {}|Zb|Zc", n)));
        one_of(s, &[&a], &[&[&b], &[&c]])
    }),
    ("rule precedence of a nonterminal", |s, sp, st| {
        let (a, b) = (alt(st, "Zq [Zp]"), alt(st, &format!("Zq [{}]", any_nt(s, sp))));
        one_of(s, &[&a, "%left Zp;"], &[&[&b, "%left Zp;"]])
    }),
    ("start symbol on the right", |s, _, st| {
        let (a, b, c, d) = (alt(st, "Zq zu"), alt(st, &format!("Zq {}", st)), alt(st, &format!("Zq {}?", st)), format!("zu ::= Zx {} Zy {{ ::core::unreachable!() }}", st));
        one_of(s, &[&a, "zu ::= Zx Zy;"], &[&[&b], &[&c], &[&a, &d]])
    }),
    ("undefined nonterminal", |s, _, st| {
        let (a, b) = (alt(st, "Zq zu"), alt(st, "Zq zu? Zr"));
        if s.chance(60) {
            // used at any depth, by any of the rules on the way, at any place
            let n = s.range(1, 4);
            let at = (s.below(n), s.below(3));
            let mut v = vec![alt(st, "Zq z0")];
            for k in 0..n {
                let mut rules = vec![];
                if k + 1 < n {
                    rules.push(format!("z{} ::= {};", k, s.pick(&["@", "@ Zy", "Zx @", "Zn Zx @ Zy"]).replace('@', &format!("z{}", k + 1))));
                }
                rules.push(format!("z{} ::= Zn{};", k, k));
                if k == at.0 {
                    let p = at.1.min(rules.len());
                    rules.insert(p, format!("z{} ::= {};", k, s.pick(&["zu", "zu? Zr", "Zx0 zu", "zu Zy", "Zo0 Zx zu Zy"])));
                }
                v.extend(rules);
            }
            let mut g = v.clone();
            g.push("zu ::= Zu;".into());
            return Some(Pair(g, v));
        }
        one_of(s, &[&a, "zu ::= Zx;"], &[&[&a], &[&b], &[&a, "%type zu u8;"]])
    }),
    ("typed rule without code", |s, _, st| {
        let a = alt(st, "Zq zt");
        let (t, x, y) = ("%type zt u8;", "%type Za u8;", "%type Zb u8;");
        one_of(
            s,
            &[&a, t, x, y, "zt ::= Zx Za;"],
            &[&[&a, t, "zt ::= Zx;"], &[&a, t, "zt ::= ;"], &[&a, t, x, y, "zt ::= Za Zb;"], &[&a, t, x, "zt ::= Za(x);"], &[&a, t, x, "zt ::= Zx(y) Za;"], &[&a, t, x, "zt ::= Za Za;"]],
        )
    }),
    ("aliased alternatives of different types", |s, _, st| {
        // any number of members, the odd one anywhere
        let n = s.range(2, 6);
        let odd = s.below(n);
        let class = s.chance(40);
        let other = *s.pick(&["u16", "", "Vec<u8>"]);
        let ty = |k: usize, bad: bool| if bad && k == odd { format!("%type Zm{} {};", k, other) } else { format!("%type Zm{} u8;", k) };
        let sep = |x: &str| (0..n).map(|k| format!("Zm{}", k)).collect::<Vec<_>>().join(x);
        let opt = if s.chance(20) { "?" } else { "" };
        let rhs = if class { format!("Zq Zc{}(x)", opt) } else { format!("Zq {}{}(x)", sep("|"), opt) };
        let mut good: Vec<String> = (0..n).map(|k| ty(k, false)).collect();
        let mut bad: Vec<String> = (0..n).map(|k| ty(k, true)).collect();
        for v in [&mut good, &mut bad] {
            v.push(alt(st, &rhs));
            if class {
                v.push(format!("%token_class Zc {};", sep(" ")));
            }
        }
        Some(Pair(good, bad))
    }),
    ("one of many is not a token", |s, sp, st| {
        // lists of tokens of any length with one member that is a nonterminal, is bound already, or is a class
        let n = s.range(1, 6);
        let odd = s.below(n);
        let nt = any_nt(s, sp);
        let list = |x: &str, sep: &str| (0..n).map(|k| if k == odd { x.to_string() } else { format!("Zm{}", k) }).collect::<Vec<_>>().join(sep);
        let (l, pre, after): (String, Vec<String>, Vec<String>) = match s.below(6) {
            0 => (format!("%{} @;", s.pick(&["left", "right", "nonassoc"])), vec![], vec![]),
            1 => ("%fallback Zf @;".to_string(), vec![], vec![]),
            2 => ("%token_class Zc @;".to_string(), vec![], vec![alt(st, "Zq Zc")]),
            3 => {
                let l = format!("%{} @;", s.pick(&["left", "right", "nonassoc"]));
                return Some(Pair(vec!["%left Zo Zp;".into(), l.replace('@', &list("Zr", " "))], vec!["%left Zo Zp;".into(), l.replace('@', &list(s.pick(&["Zo", "Zp"]), " "))]));
            }
            4 => return Some(Pair(vec!["%fallback Ze Zo Zp;".into(), format!("%fallback Zf {};", list("Zr", " "))], vec!["%fallback Ze Zo Zp;".into(), format!("%fallback Zf {};", list(s.pick(&["Zo", "Zp"]), " "))])),
            _ => {
                let m = |x: &str| alt(st, &format!("Zq {}|Zz", list(x, "|")));
                return Some(Pair(vec![m("Zr")], vec![m(&nt)]));
            }
        };
        let _ = &pre;
        let mut g = pre.clone();
        g.push(l.replace('@', &list("Zr", " ")));
        g.extend(after.clone());
        let mut b = pre;
        b.push(l.replace('@', &list(&nt, " ")));
        b.extend(after);
        Some(Pair(g, b))
    }),
    ("fallback of another type, anywhere in a chain", |s, _, _| {
        // Zc0 <- Zc1 <- ... each falls back to the one before; all of one type, or none from some point up
        let n = s.range(2, 6);
        let odd = s.range(1, n - 1);
        let up = s.below(odd + 1);
        let mut dirs: Vec<String> = (1..n).map(|k| format!("%fallback Zc{} Zc{};", k - 1, k)).collect();
        let ty = |k: usize, bad: bool| {
            if k < up && !(bad && up == odd && k + 1 == odd) {
                vec![]
            } else if bad && k == odd {
                vec![format!("%type Zc{} u16;", k)]
            } else {
                vec![format!("%type Zc{} u8;", k)]
            }
        };
        let mut g: Vec<String> = (0..n).flat_map(|k| ty(k, false)).collect();
        let mut b: Vec<String> = (0..n).flat_map(|k| ty(k, true)).collect();
        s.shuffle(&mut dirs);
        g.extend(dirs.clone());
        b.extend(dirs);
        Some(Pair(g, b))
    }),
    ("Token or Parser not empty", |s, _, _| {
        one_of(
            s,
            &["%token pub enum Token {};", "%parser pub struct Parser {};"],
            &[&["%token pub enum Token { A };"], &["%token pub enum Token { A(u8), B };"], &["%parser pub struct Parser { x: u8 };"], &["%parser pub struct Parser(u8);;"]],
        )
    }),
    ("generic of Token missing in Parser", |s, _, _| {
        one_of(
            s,
            &["%token pub enum Token<'a, 'b> {};", "%parser pub struct Parser<'a, 'b> {};"],
            &[
                &["%token pub enum Token<'a> {};", "%parser pub struct Parser {};"],
                &["%token pub enum Token<'a> {};", "%parser pub struct Parser<'b> {};"],
                &["%token pub enum Token<'a, 'b> {};", "%parser pub struct Parser<'a> {};"],
                &["%token pub enum Token<'a, T> {};", "%parser pub struct Parser<'a> {};"],
                &["%token pub enum Token<T> {};", "%parser pub struct Parser<'a, U> {};"],
                &["%parser pub struct Parser<'a, T> {};", "%token pub enum Token<'a, T, U> {};"],
            ],
        )
    }),
    ("fallback of another type", |s, _, _| {
        one_of(
            s,
            &["%type Zf u8;", "%type Za u8;", "%type Zb u8;", "%fallback Zf Za Zb;"],
            &[
                &["%type Zf u8;", "%type Za u16;", "%fallback Zf Za;"],
                &["%type Zf u8;", "%type Za u8;", "%fallback Zf Za Zb;"],
                &["%type Zf u8;", "%fallback Zf Za;"],
                &["%type Zf u8;", "%type Za u8;", "%type Zb u16;", "%fallback Zf Za Zb;"],
                &["%type Zf u8;", "%type Za u8;", "%type Zb u16;", "%fallback Zf Za;", "%fallback Za Zb;"],
            ],
        )
    }),
    ("attributes on a nonterminal", |s, _, st| {
        let a = alt(st, "Zq zt");
        one_of(s, &[&a, "%type zt u8;", "zt ::= Zx { 0 }", "%type #[doc = \"x\"] Zx;"], &[&[&a, "%type #[doc = \"x\"] zt u8;", "zt ::= Zx { 0 }"]])
    }),
    ("bad symbol name", |s, _, st| {
        let a = alt(st, "Zq Zx");
        let n = *s.pick(&["_x", "_X", "ñu", "Ñu", "__"]);
        let (b, c) = (alt(st, &format!("Zq {}", n)), alt(st, &format!("Zq {}?", n)));
        let d = s.pick(&["%type @ u8;", "%left @;", "%fallback Zf @;", "%wildcard @;", "%token_class @ Za;", "%token_class Zc @;", "@ ::= Zx;"]).replace('@', n);
        one_of(s, &[&a], &[&[&b], &[&c], &[&a, &d]])
    }),
    ("no rules", |s, _, _| one_of(s, &[], &[&["NORULES"]])),
    ("unknown directive", |s, _, _| one_of(s, &[], &[&["%bogus Za;"], &["%start Za;"], &["%Type Za;"], &["%;"], &["%token_type u8;"], &["%destructor Za {}"]])),
    ("malformed directive", |s, _, st| {
        let (a, b) = (format!("END%start_symbol {}", st), format!("END%type {} (u8", st));
        let _ = b;
        one_of(
            s,
            &[],
            &[
                &["%left Zp Zr, Zs;"],
                &["END%left Zp"],
                &[&a],
                &["%type Za u8 u16;"],
                &["%type ;"],
                &["%module a b;"],
                &["%module ;"],
                &["%include use a;"],
                &["%include { 5 }"],
                &["%syntax_error ;"],
                &["%parse_fail 5;"],
                &["%stack_overflow;"],
                &["%default_type ;"],
                &["%extra_argument;"],
                &["%extra_token;"],
                &["%error ;"],
                &["%fallback ;"],
                &["%wildcard;"],
                &["%wildcard Za Zb;"],
                &["%token_class;"],
                &["%token struct Token {};"],
                &["%parser enum Parser {};"],
                &["%verbose 1;"],
                &["END%verbose"],
                &["%stack_size Foo;"],
                &["%stack_size -1;"],
                &["%stack_size 1.5;"],
                &["%stack_size \"1\";"],
                &["%stack_size 99999999999999999999999;"],
                &["%start_symbol;"],
            ],
        )
    }),
    ("malformed rule", |s, _, st| {
        let a = alt(st, "Zq Za|Zb?(x) Zc [Zp]");
        let mut p = one_of(
            s,
            &[],
            &[
                &["@ := Zq;"],
                &["@ = Zq;"],
                &["@ :: Zq;"],
                &["@;"],
                &["@ ::= Zq|;"],
                &["@ ::= |Zq;"],
                &["@ ::= Zq ?;?"],
                &["@ ::= Zq??;"],
                &["@ ::= Zq();"],
                &["@ ::= Zq(a b);"],
                &["@ ::= Zq(a)(b);"],
                &["@ ::= Zq(a)?;"],
                &["@ ::= Zq [];"],
                &["@ ::= Zq [Zp Zr];"],
                &["@ ::= Zq [Zp] [Zr];"],
                &["@ ::= Zq {} {}"],
                &["@ ::= Zq {} [Zp];"],
                &["@ ::= Zq, Zr;"],
                &["@ ::= 'a';"],
                &["@ ::= \"a\";"],
                &["@ ::= $;"],
                &["END@"],
                &["END@ ::"],
                &["@ ::= @2;"],
                &["@ ::= Zq { let }"],
            ],
        )?;
        p.0 = vec![a];
        p.1[0] = p.1[0].replace("@2", "2").replace('@', st);
        Some(p)
    }),
    ("unreachable rule", |s, _, st| {
        let (a, b) = (alt(st, "Zq zu"), alt(st, "Zq"));
        one_of(s, &[&a, "zu ::= Zx;"], &[&[&b, "zu ::= Zx;"], &["zu ::= Zx;"], &["zu ::= zu Zx;", "zu ::= ;"]])
    }),
    ("reduce-reduce conflict", |s, _, st| {
        let (a, b, c) = (alt(st, "Zq Za"), alt(st, "Zq Zb"), alt(st, "Zq zu"));
        one_of(s, &[&a, &b], &[&[&a, &a], &[&a, &b, &a], &[&c, &a, "zu ::= Za;"]])
    }),
    ("shift-reduce conflict", |s, _, st| {
        let a = alt(st, "Zq zl");
        one_of(
            s,
            &[&a, "%left Zp;", "zl ::= zl Zp zl;", "zl ::= Zx;"],
            &[&[&a, "zl ::= zl Zp zl;", "zl ::= Zx;"], &[&a, "zl ::= zl zl;", "zl ::= Zx;"], &[&a, "%left Zp;", "zl ::= zl Zp zl;", "zl ::= Zx;", "zl ::= Zm zl;"], &[&a, "%left Zp;", "zl ::= Zi zl Ze zl;", "zl ::= Zi zl;", "zl ::= Zx;"]],
        )
    }),
];
fn assemble(s: &mut Src, sp: &Spec, extra: &[String]) -> String {
    place(s, sp, extra).into_iter().map(|x| x.0).collect::<Vec<_>>().join("\n")
}
/// the declarations, with the positions in `extra` of those that come from there
fn place(s: &mut Src, sp: &Spec, extra: &[String]) -> Vec<(String, Option<usize>)> {
    let st = &sp.nts[sp.start_nt()].name;
    let mut d: Vec<(String, Option<usize>)> = sp.decls().into_iter().map(|x| (x, None)).collect();
    if extra == ["NORULES"] {
        d.retain(|x| x.0.starts_with('%'));
        return d;
    }
    let mut end = vec![];
    for (k, e) in extra.iter().enumerate() {
        if let Some(e) = e.strip_prefix("END") {
            end.push((e.to_string(), Some(k)));
        } else if e.starts_with('%') || e.starts_with(&format!("{} ::=", st)) {
            d.insert(s.below(d.len() + 1), (e.clone(), Some(k)));
        } else {
            d.push((e.clone(), Some(k)));
        }
    }
    d.extend(end);
    d
}
/// (breaker name, control, broken)
fn broken(sp: &Spec, b: u64, seed: u64) -> Option<(&'static str, String, String)> {
    let mut s = Src::new("C18b", seed, b);
    let (name, f) = BREAKERS[b as usize % BREAKERS.len()];
    let Pair(good, bad) = f(&mut s, sp, &sp.nts[sp.start_nt()].name)?;
    Some((name, assemble(&mut s, sp, &good), assemble(&mut s, sp, &bad)))
}
/// (breaker name, control, broken, the lines of the declarations at fault) as whole macro calls
pub(super) fn located(sp: &Spec, b: u64, seed: u64) -> Option<(&'static str, String, String, Vec<(isize, isize)>)> {
    let mut s = Src::new("C25b", seed, b);
    let (name, f) = BREAKERS[b as usize % BREAKERS.len()];
    if ["no rules", "reduce-reduce conflict", "shift-reduce conflict"].contains(&name) {
        return None; // nothing in particular is at fault
    }
    let Pair(good, bad) = f(&mut s, sp, &sp.nts[sp.start_nt()].name)?;
    let g: Vec<(String, bool)> = place(&mut s, sp, &good).into_iter().map(|x| (x.0, false)).collect();
    let b = place(&mut s, sp, &bad);
    // what the control does not have as well
    let mut rest = good.clone();
    let new: Vec<bool> = bad
        .iter()
        .map(|x| match rest.iter().position(|y| x == y) {
            Some(p) => {
                rest.remove(p);
                false
            }
            None => true,
        })
        .collect();
    let twice = name.starts_with("second ") || name.starts_with("two ");
    let at: Vec<usize> = if twice {
        // the later one of the two
        let word = |t: &str| -> String {
            let mut w = t.split(|c: char| c.is_whitespace() || c == ';').filter(|x| !x.is_empty());
            let h = w.next().unwrap_or("").to_string();
            if h == "%type" {
                format!("{} {}", h, w.next().unwrap_or(""))
            } else {
                h
            }
        };
        let has = |t: &str| match name {
            "second precedence of a token" => ["%left", "%right", "%nonassoc"].contains(&&word(t)[..]) && t.contains(" Zp"),
            "two fallbacks of a token" => t.starts_with("%fallback") && t.contains(" Za"),
            _ => bad.iter().any(|x| x.starts_with('%') && word(x) == word(t) && (word(t) != "%wildcard" || true)),
        };
        let all: Vec<usize> = (0..b.len()).filter(|i| has(&b[*i].0)).collect();
        // of directives that may be repeated only the last with that name
        match name {
            "second %type of a token" | "second %type of a nonterminal" => all.into_iter().filter(|i| b[*i].0.starts_with("%type Zt") || b[*i].0.starts_with("%type zt")).last().into_iter().collect(),
            _ => all.last().copied().into_iter().collect(),
        }
    } else {
        let own: Vec<usize> = (0..b.len()).filter(|i| b[*i].1.is_some()).collect();
        let of = |f: &dyn Fn(&str) -> bool| own.iter().copied().filter(|i| f(&b[*i].0)).collect::<Vec<usize>>();
        let is_rule = |t: &str| !t.starts_with('%');
        match name {
            // several declarations together: any of them
            "fallback loop" | "generic of Token missing in Parser" | "fallback of another type" | "fallback of another type, anywhere in a chain" => of(&|t| t.starts_with('%')),
            "aliased alternatives of different types" => of(&|t| is_rule(t) || t.ends_with("u16;") || t.ends_with("<u8>;")),
            "one of many is not a token" if bad.len() == 2 && new[1] && bad[0].starts_with('%') => of(&|t| t.starts_with('%')).last().copied().into_iter().collect(),
            "undefined nonterminal" => of(&|t| is_rule(t) && t.contains(" zu")),
            "unreachable rule" => of(&|t| t.starts_with("zu")),
            // a class within a compound: the error names the class
            "nested token class" => return None,
            // input that ends too early
            "malformed directive" | "malformed rule" if own.iter().any(|i| *i + 1 == b.len()) => return None,
            _ => own.iter().copied().filter(|i| new[b[*i].1.unwrap()]).collect(),
        }
    };
    let d: Vec<(String, bool)> = b.into_iter().enumerate().map(|(i, x)| (x.0, at.contains(&i))).collect();
    let (good, _) = super::place::layout(&g);
    let (bad, at) = super::place::layout(&d);
    Some((name, good, bad, at))
}
fn expand(text: &str) -> Unit {
    Unit { src: format!("pomelo::pomelo! {{\n{}\n}}", text), mode: Mode::Expand }
}

// ------------------------------------------------------------------ arbitrary macro input
#[derive(Clone, Debug)]
enum TT {
    L(String),
    G(char, Vec<TT>),
}
fn close(c: char) -> char {
    match c {
        '(' => ')',
        '[' => ']',
        _ => '}',
    }
}
/// the token trees of text this harness has rendered
fn lex(t: &str) -> Vec<TT> {
    let c: Vec<char> = t.chars().collect();
    let mut stack: Vec<(char, Vec<TT>)> = vec![(' ', vec![])];
    let mut i = 0;
    while i < c.len() {
        let x = c[i];
        if x.is_whitespace() {
            i += 1;
        } else if x.is_alphanumeric() || x == '_' {
            let b = i;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            stack.last_mut().unwrap().1.push(TT::L(c[b..i].iter().collect()));
        } else if x == '"' {
            let b = i;
            i += 1;
            while c[i] != '"' {
                i += 1;
            }
            i += 1;
            stack.last_mut().unwrap().1.push(TT::L(c[b..i].iter().collect()));
        } else if x == '\'' {
            let b = i;
            i += 1;
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
            if i < c.len() && c[i] == '\'' {
                i += 1;
            }
            stack.last_mut().unwrap().1.push(TT::L(c[b..i].iter().collect()));
        } else if "([{".contains(x) {
            stack.push((x, vec![]));
            i += 1;
        } else if ")]}".contains(x) {
            let (d, v) = stack.pop().unwrap();
            stack.last_mut().unwrap().1.push(TT::G(d, v));
            i += 1;
        } else {
            let mut n = 1;
            for op in ["::=", "::", "->", "=>", "..", "&&", "||", "=="] {
                if c[i..].iter().take(op.len()).collect::<String>() == op {
                    n = op.len();
                    break;
                }
            }
            stack.last_mut().unwrap().1.push(TT::L(c[i..i + n].iter().collect()));
            i += n;
        }
    }
    stack.pop().unwrap().1
}
fn unlex(v: &[TT], out: &mut String) {
    for t in v {
        match t {
            TT::L(s) => {
                out.push_str(s);
                out.push(' ');
                if s == ";" {
                    out.push('\n');
                }
            }
            TT::G(d, v) => {
                out.push(*d);
                out.push(' ');
                unlex(v, out);
                out.push(close(*d));
                out.push(' ');
                if *d == '{' {
                    out.push('\n');
                }
            }
        }
    }
}
const POOL: &[&str] = &[
    "A", "B", "Token", "Parser", "Some", "None", "a", "b", "start", "error", "parser", "_", "_x", "r#type", "r#Foo", "ñ", "Ñ", "变量", "self", "Self", "super", "crate", "type", "enum", "struct", "fn", "match", "mut", "ref", "where", "for", "impl", "dyn", "async", "union", "pub", "let", "true", "0", "1", "100", "127", "128", "18446744073709551615", "18446744073709551616", "1.5", "0xff", "1u8", "1_0", "\"s\"", "b\"s\"", "'c'",
    "'a", "'static", "r#\"x\"#", ";", ";", ";", "%", "%", "::=", "::=", "::", ":", "=", "|", "|", "?", "?", ",", ".", "..", "#", "!", "$", "&", "&&", "*", "+", "-", "->", "=>", "<", ">", "@", "~", "/", "^", "/// doc\n", "/* c */",
];
const HEADS: &[&str] = &[
    "module", "type", "include", "syntax_error", "parse_fail", "stack_overflow", "stack_size", "left", "right", "nonassoc", "default_type", "extra_argument", "error", "start_symbol", "fallback", "wildcard", "token_class", "token", "parser", "extra_token", "verbose",
];
fn leaf(s: &mut Src, names: &[String]) -> TT {
    TT::L(match s.weighted(&[45, 40, 15]) {
        0 if !names.is_empty() => s.pick(names).clone(),
        2 => s.pick(HEADS).to_string(),
        _ => s.pick(POOL).to_string(),
    })
}
fn soup(s: &mut Src, names: &[String], n: usize, depth: usize) -> Vec<TT> {
    let mut out = vec![];
    for _ in 0..n {
        match s.weighted(&[45, 12, 12, 31]) {
            0 => out.push(leaf(s, names)),
            1 if depth < 4 => {
                let k = s.below(5);
                let v = soup(s, names, k, depth + 1);
                out.push(TT::G(*s.pick(&['(', '[', '{']), v));
            }
            2 => {
                // something like a directive
                out.push(TT::L("%".into()));
                out.push(TT::L(s.pick(HEADS).to_string()));
                for _ in 0..s.below(4) {
                    out.push(leaf(s, names));
                }
                if s.chance(80) {
                    out.push(TT::L(";".into()));
                }
            }
            _ => {
                // something like a rule
                out.push(leaf(s, names));
                out.push(TT::L("::=".into()));
                for _ in 0..s.below(4) {
                    out.push(leaf(s, names));
                    if s.chance(15) {
                        out.push(TT::L("?".into()));
                    }
                    if s.chance(15) {
                        let k = s.below(2);
                        out.push(TT::G('(', soup(s, names, k, depth + 1)));
                    }
                }
                if s.chance(30) {
                    let k = s.below(3);
                    out.push(TT::G('{', soup(s, names, k, depth + 1)));
                }
                out.push(TT::L(";".into()));
            }
        }
    }
    out
}
fn size(v: &[TT]) -> usize {
    v.iter().map(|t| if let TT::G(_, v) = t { 1 + size(v) } else { 1 }).sum()
}
/// the vector holding the k-th token tree, and its position there
fn locate<'a>(v: &'a mut Vec<TT>, k: &mut usize) -> Option<(&'a mut Vec<TT>, usize)> {
    let mut at = None;
    for (i, t) in v.iter().enumerate() {
        if *k == 0 {
            return Some((v, i));
        }
        *k -= 1;
        if let TT::G(_, w) = t {
            let n = size(w);
            if *k < n {
                at = Some(i);
                break;
            }
            *k -= n;
        }
    }
    match v.get_mut(at?) {
        Some(TT::G(_, w)) => locate(w, k),
        _ => None,
    }
}
fn recase(x: &str) -> String {
    let mut c = x.chars();
    match c.next() {
        Some(f) if f.is_uppercase() => f.to_lowercase().collect::<String>() + c.as_str(),
        Some(f) => f.to_uppercase().collect::<String>() + c.as_str(),
        None => String::new(),
    }
}
fn mutate(s: &mut Src, v: &mut Vec<TT>, names: &[String]) {
    let n = size(v);
    if n == 0 {
        return;
    }
    // top-level tokens (structure) more often than those inside code
    let op = s.below(12);
    if op == 10 || op == 11 {
        // cut or copy a run of top-level tokens
        let a = s.below(v.len());
        let b = (a + s.range(1, 8)).min(v.len());
        let run: Vec<TT> = v[a..b].to_vec();
        if op == 10 {
            v.drain(a..b);
        } else {
            let p = s.below(v.len() + 1);
            v.splice(p..p, run);
        }
        return;
    }
    let mut k = if s.chance(60) { 0 } else { s.below(n) };
    let (w, i) = if k == 0 {
        let i = s.below(v.len());
        (v, i)
    } else {
        match locate(v, &mut k) {
            Some(x) => x,
            None => return,
        }
    };
    match op {
        0 | 1 => {
            w.remove(i);
        }
        2 => {
            let t = w[i].clone();
            w.insert(i, t);
        }
        3 if i + 1 < w.len() => w.swap(i, i + 1),
        4 => {
            let l = leaf(s, names);
            w.insert(i, l);
        }
        5 => {
            if let TT::L(x) = &w[i] {
                w[i] = TT::L(recase(x));
            }
        }
        6 => {
            if let TT::G(d, _) = &mut w[i] {
                *d = *s.pick(&['(', '[', '{']);
            } else {
                let t = w[i].clone();
                w[i] = TT::G(*s.pick(&['(', '[', '{']), vec![t]);
            }
        }
        7 => {
            // unwrap a group
            if let TT::G(_, x) = w[i].clone() {
                w.splice(i..i + 1, x);
            }
        }
        8 => {
            let k = s.range(1, 6);
            let x = soup(s, names, k, 2);
            w.splice(i..i, x);
        }
        _ => w[i] = leaf(s, names),
    }
}
/// any grammar at all: conflicts, overlapping compounds, unreachable parts, odd directives
fn wild_spec(s: &mut Src) -> Spec {
    let p = gen::GenP { max_t: 5, max_n: 5, sugar: *s.pick(&[0, 20, 50, 80]), error: *s.pick(&[0, 0, 15]) };
    let tame = s.chance(60);
    let mut sp = match tame.then(|| gen::lalr_grammar(s, &p, gen::Want::Any)).flatten() {
        Some(sp) => sp,
        None => gen::random_raw(s, &p),
    };
    // a tame one takes only few of the liberties below
    let free = |s: &mut Src| !tame || s.chance(20);
    let nt = sp.terms.len();
    let nn = sp.nts.len();
    for _ in 0..if free(s) { s.below(4) } else { 0 } {
        let r = sp.rules[s.below(sp.rules.len())].clone();
        sp.rules.push(r);
    }
    if nt > 0 && free(s) {
        for r in &mut sp.rules {
            for i in &mut r.rhs {
                if s.chance(12) {
                    let n = s.range(1, 3);
                    i.sym = S::Alt((0..n).map(|_| s.below(nt)).collect());
                } else if s.chance(4) {
                    i.sym = S::Err;
                } else if s.chance(4) {
                    i.sym = S::N(s.below(nn));
                }
                if s.chance(8) {
                    i.opt = !i.opt;
                }
            }
        }
    }
    if nt > 0 && free(s) {
        for _ in 0..s.weighted(&[30, 40, 30]) {
            let m: Vec<usize> = (0..s.range(1, 3)).map(|_| s.below(nt)).collect();
            sp.fallback.push((s.below(nt), m));
        }
    }
    if nt > 0 && free(s) {
        if s.chance(20) {
            sp.wildcard = Some(s.below(nt));
        }
        if s.chance(60) {
            for _ in 0..s.range(1, 3) {
                let m: Vec<usize> = (0..s.range(1, 2)).map(|_| s.below(nt)).collect();
                sp.prec.push((s.pick(&[Assoc::Left, Assoc::Right, Assoc::Non]).clone(), m));
            }
        }
    }
    sp.extra_tok = s.chance(15);
    sp.extra_arg = s.chance(15);
    sp.verbose = s.chance(5);
    if s.chance(20) {
        sp.default_ty = Some(s.pick(&[Ty::Unit, Ty::W(0)]).clone());
    }
    if s.chance(20) {
        sp.start = Some(s.below(nn));
    }
    if !free(s) {
        return sp;
    }
    let ty = |s: &mut Src| s.pick(&[Ty::Unset, Ty::Unset, Ty::Unit, Ty::W(0), Ty::W(1)]).clone();
    for i in 0..nt {
        sp.terms[i].ty = ty(s);
    }
    for i in 0..nn {
        sp.nts[i].ty = ty(s);
    }
    sp.err_ty = ty(s);
    for r in &mut sp.rules {
        r.code = if s.chance(30) { Code::None } else { Code::Act };
        if s.chance(10) && nt > 0 {
            r.prec = Some(s.below(nt));
        }
        for i in &mut r.rhs {
            i.alias = s.pick(&[Alias::No, Alias::No, Alias::Id, Alias::Mut, Alias::Pat, Alias::Wild]).clone();
        }
    }
    sp
}

/// a valid specification to be broken
pub(super) fn base(s: &mut Src, idx: u64) -> Option<Spec> {
    let mut sp = if s.chance(60) {
        plain_grammar(s, idx)?
    } else {
        let p = gen::GenP { max_t: 5, max_n: 4, sugar: 20, error: 8 };
        gen::lalr_grammar(s, &p, gen::Want::Any)?
    };
    sp.extra_arg = s.chance(20);
    sp.handlers = s.chance(50);
    if s.chance(50) {
        sp.stack = None;
    }
    let mut d = gen::Deco::mixed(s);
    d.nocode = 0;
    gen::decorate(s, &mut sp, &d);
    Some(sp)
}

/// the symbols that breakers bring along, under other names
fn apart(line: &str, k: u64) -> String {
    let (mut out, mut word) = (String::new(), String::new());
    for c in line.chars().chain([' ']) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
            continue;
        }
        if word.len() > 1 && word.starts_with(['Z', 'z']) && word.is_ascii() {
            word.push_str(&format!("v{}", k));
        }
        out.push_str(&word);
        word.clear();
        out.push(c);
    }
    out.pop();
    out
}
/// a specification with one to three rules broken at once, or one rule several times
pub(super) fn several(s: &mut Src, sp: &Spec, idx: u64) -> String {
    let mut add = vec![];
    let same = s.chance(50);
    for k in 0..s.range(if same { 2 } else { 1 }, if same { 5 } else { 3 }) as u64 {
        let b = if k == 0 || same { idx } else { s.below(BREAKERS.len()) as u64 };
        let (name, f) = BREAKERS[b as usize % BREAKERS.len()];
        if name == "no rules" {
            continue;
        }
        if let Some(Pair(_, bad)) = f(s, sp, &sp.nts[sp.start_nt()].name) {
            add.extend(bad.into_iter().map(|l| if same { apart(&l, k) } else { l }));
        }
    }
    if s.chance(30) {
        let st = &sp.nts[sp.start_nt()].name;
        add.push(format!("{} ::= Zk Zi1|Zi2?(_x) Zk Zi3|Zi4?(_y)  {{ ::core::unreachable!() }}", st));
        add.push("%type Zi1 u8;".into());
        add.push("%type Zi3 u8;".into());
    }
    assemble(s, sp, &add)
}
pub struct C18;
impl Prop for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "one case = one macro input, expanded by rustc. `break`: a valid specification with one documented rule broken (one of about 50 kinds, in several variants, at random places) must get a compile error from the macro, while the control with the same addition made valid is accepted. `mutant`: 1-6 token-tree edits of a valid specification; `soup`: random token trees; `wild`: random specifications without any care for validity (conflicts, overlapping alternatives, unreachable parts, clashing directives): the macro must end with an expansion or an error, without panicking, crashing or running beyond the CPU limit. Non-trivial: a broken specification whose control is accepted, or an input of at least 5 tokens. Distinct by text."
    }
    fn budget(&self) -> Budget {
        Budget { quick: 1800, thorough: 60000, shard: 30, cpu: 90 }
    }
    fn gen(&self, s: &mut Src, idx: u64) -> Option<Job> {
        let kind = s.weighted(&[25, 35, 10, 30]);
        let mut job = Job { kind: String::new(), specs: vec![], texts: vec![], nums: vec![], cases: vec![] };
        match kind {
            0 => {
                job.kind = "break".into();
                let mut sp = base(s, idx)?;
                let st = sp.start_nt();
                if sp.start.is_none() && s.chance(30) {
                    sp.start = Some(st);
                }
                job.specs.push(sp);
                for k in 0..12 {
                    job.nums.push((idx * 12 + k) % BREAKERS.len() as u64);
                    job.nums.push(s.u32() as u64);
                }
            }
            1 => {
                job.kind = "mutant".into();
                let mut sp = base(s, idx)?;
                if s.chance(40) && !sp.terms.is_empty() {
                    sp = wild_spec(s);
                }
                let names: Vec<String> = sp.terms.iter().chain(&sp.nts).map(|x| x.name.clone()).collect();
                let d = lex(&sp.macro_input());
                for _ in 0..10 {
                    let mut d = d.clone();
                    for _ in 0..s.weighted(&[0, 40, 25, 15, 10, 5, 5]) {
                        mutate(s, &mut d, &names);
                    }
                    let mut o = String::new();
                    unlex(&d, &mut o);
                    job.texts.push(o);
                }
            }
            2 => {
                job.kind = "soup".into();
                let names: Vec<String> = ["A", "B", "C", "a", "b", "start", "error"].iter().map(|x| x.to_string()).collect();
                for _ in 0..10 {
                    let n = s.range(1, 25);
                    let d = soup(s, &names, n, 0);
                    let mut o = String::new();
                    unlex(&d, &mut o);
                    job.texts.push(o);
                }
            }
            _ => {
                job.kind = "wild".into();
                for _ in 0..10 {
                    job.texts.push(wild_spec(s).macro_input());
                }
            }
        }
        Some(job)
    }
    fn units(&self, job: &Job) -> Vec<Unit> {
        if job.kind == "break" {
            let sp = &job.specs[0];
            let mut v = vec![expand(&sp.macro_input())];
            for p in job.nums.chunks(2) {
                if let Some((_, g, b)) = broken(sp, p[0], p[1]) {
                    v.push(expand(&g));
                    v.push(expand(&b));
                }
            }
            return v;
        }
        job.texts.iter().map(|t| expand(t)).collect()
    }
    fn judge(&self, job: &Job, obs: &Obs, t: &mut Tally) -> Result<(), Fail> {
        let crash = |st: &St, text: &str| match st {
            St::Panicked(m) => fail(None, format!("the macro panicked ({}) on\n{}", m, text)),
            St::Died(m) => fail(None, format!("{} on\n{}", m, text)),
            _ => Ok(()),
        };
        if job.kind != "break" {
            for (st, text) in obs.units.iter().zip(&job.texts) {
                crash(st, text)?;
                if let St::Rejected(m) = st {
                    if m.trim().is_empty() {
                        return fail(None, format!("an error without a message for\n{}", text));
                    }
                }
                t.eval(text.split_whitespace().count() >= 5, text);
                t.count(&format!("{}: {}", job.kind, if *st == St::Ok { "expanded" } else { "rejected" }));
                if *st != St::Ok && text.len() < 150 {
                    t.sample(|| format!("{} | {} -> {:?}", job.kind, text.replace('\n', " "), st));
                }
            }
            return Ok(());
        }
        let sp = &job.specs[0];
        if sp.rules.is_empty() || !super::typ::in_domain(sp) || !sp.fallback.is_empty() || sp.wildcard.is_some() || sp.default_ty.is_some() || sp.extra_tok {
            return Ok(());
        }
        if super::drive::determined(sp, 2000).is_none() {
            return Ok(());
        }
        accepted(obs, 0)?;
        let mut k = 1;
        for p in job.nums.chunks(2) {
            let Some((name, g, b)) = broken(sp, p[0], p[1]) else { continue };
            let (sg, sb) = (&obs.units[k], &obs.units[k + 1]);
            k += 2;
            crash(sg, &g)?;
            crash(sb, &b)?;
            if *sg != St::Ok {
                return fail(None, format!("`{}`: the valid control is {:?}\n{}", name, sg, g));
            }
            t.count(&format!("broken: {}", name));
            match sb {
                St::Rejected(m) if !m.trim().is_empty() => {
                    t.eval(true, &b);
                    if b.len() < 400 {
                        t.sample(|| format!("{} | {} -> {}", name, b.replace('\n', " "), m));
                    }
                }
                st => return fail(None, format!("`{}` is not reported ({:?}):\n{}", name, st, b)),
            }
        }
        Ok(())
    }
    fn floors(&self) -> Vec<(&'static str, u64)> {
        vec![("distinct", 12_000), ("mutant: expanded", 200), ("mutant: rejected", 1_500), ("wild: rejected", 1_500), ("wild: expanded", 500), ("broken: fallback loop", 60), ("broken: typed rule without code", 60), ("broken: aliased alternatives of different types", 60)]
    }
}
