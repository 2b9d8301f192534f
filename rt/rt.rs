//! Runtime support linked into every generated test program.  It plays the role of the *user* of a
//! pomelo parser: it supplies the value types, the action/handler bodies and the caller loop, and it
//! records what the generated parser did.  It contains no oracle: traces are judged by the harness.
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io::{BufRead, Write as _};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

// ------------------------------------------------------------------ value types
/// Payload type number K; not Clone, so that a value can only be moved, never duplicated.
#[derive(Debug, PartialEq, Eq)]
pub struct W<const K: u32>(pub u64);
/// %extra_token payload.
#[derive(Debug, PartialEq, Eq)]
pub struct X(pub u64);
/// %error type. Deliberately implements Default so that the default handlers compile.
#[derive(Debug, PartialEq, Eq)]
pub struct E(pub u64);
impl Default for E {
    fn default() -> E {
        E(777)
    }
}
impl From<E> for () {
    fn from(_: E) {}
}
/// %error type without Default
#[derive(Debug, PartialEq, Eq)]
pub struct En(pub u64);
impl From<E> for En {
    fn from(e: E) -> En {
        En(e.0)
    }
}
/// %extra_argument type; counts live instances.
#[derive(Debug)]
pub struct Ex(pub u64);
pub static LIVE_EX: AtomicI64 = AtomicI64::new(0);
pub static NEW_EX: AtomicU64 = AtomicU64::new(0);
impl Ex {
    pub fn new(v: u64) -> Ex {
        LIVE_EX.fetch_add(1, Ordering::SeqCst);
        NEW_EX.fetch_add(1, Ordering::SeqCst);
        Ex(v)
    }
}
/// the same behind a type with a lifetime parameter
pub struct ExR<'e>(pub Ex, pub std::marker::PhantomData<&'e ()>);
/// what the bodies need of the extra argument
pub trait IsEx {
    fn mk(v: u64) -> Self;
    fn ex(&self) -> &Ex;
    fn exm(&mut self) -> &mut Ex;
}
impl IsEx for Ex {
    fn mk(v: u64) -> Ex {
        Ex::new(v)
    }
    fn ex(&self) -> &Ex {
        self
    }
    fn exm(&mut self) -> &mut Ex {
        self
    }
}
impl<'e> IsEx for ExR<'e> {
    fn mk(v: u64) -> Self {
        ExR(Ex::new(v), std::marker::PhantomData)
    }
    fn ex(&self) -> &Ex {
        &self.0
    }
    fn exm(&mut self) -> &mut Ex {
        &mut self.0
    }
}
/// values that can be made from a number
pub trait Vl: Lg {
    fn mk(v: u64) -> Self;
}
impl<const K: u32> Vl for W<K> {
    fn mk(v: u64) -> Self {
        W(v)
    }
}
impl Lg for u8 {
    fn lg(&self, o: &mut String) {
        write!(o, "{}", self).unwrap()
    }
}
impl Vl for u8 {
    fn mk(v: u64) -> u8 {
        v as u8
    }
}
pub fn leak<const K: u32>(v: u64) -> &'static W<K> {
    Box::leak(Box::new(W(v)))
}
/// another name for the same type
pub trait Same {
    type Ty;
}
impl<T> Same for T {
    type Ty = T;
}
pub fn forget<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}
impl<A: Lg> Lg for (A,) {
    fn lg(&self, o: &mut String) {
        self.0.lg(o)
    }
}
impl<A: Lg> Lg for [A; 1] {
    fn lg(&self, o: &mut String) {
        self[0].lg(o)
    }
}
impl<A: Lg + ?Sized> Lg for Box<A> {
    fn lg(&self, o: &mut String) {
        (**self).lg(o)
    }
}
impl<A: Lg> Lg for Vec<A> {
    fn lg(&self, o: &mut String) {
        assert!(self.len() == 1);
        self[0].lg(o)
    }
}
impl<A: Lg> Lg for Result<A, ()> {
    fn lg(&self, o: &mut String) {
        self.as_ref().unwrap().lg(o)
    }
}
macro_rules! alike {
    ($($m:ident $k:literal)*) => {$(
        pub mod $m {
            #[derive(Debug, PartialEq, Eq)]
            pub struct V(pub super::W<$k>);
            impl super::Lg for V {
                fn lg(&self, o: &mut String) {
                    self.0.lg(o)
                }
            }
        }
    )*};
}
alike!(q0 0 q1 1 q2 2 q3 3 q4 4 q5 5 q6 6 q7 7);
impl From<E> for (E,) {
    fn from(e: E) -> (E,) {
        (e,)
    }
}
impl From<E> for [E; 1] {
    fn from(e: E) -> [E; 1] {
        [e]
    }
}
macro_rules! is_ex {
    ($t:ty, $v:ident => $mk:expr, $s:ident => $ex:expr, $exm:expr) => {
        impl IsEx for $t {
            fn mk(v: u64) -> $t {
                let $v = Ex::new(v);
                $mk
            }
            fn ex(&self) -> &Ex {
                let $s = self;
                $ex
            }
            fn exm(&mut self) -> &mut Ex {
                let $s = self;
                $exm
            }
        }
    };
}
is_ex!((Ex,), v => (v,), s => &s.0, &mut s.0);
is_ex!((Ex, u8), v => (v, 3), s => &s.0, &mut s.0);
is_ex!(Box<Ex>, v => Box::new(v), s => &**s, &mut **s);
is_ex!([Ex; 1], v => [v], s => &s[0], &mut s[0]);
is_ex!(Option<Ex>, v => Some(v), s => s.as_ref().unwrap(), s.as_mut().unwrap());
is_ex!((u8, (Ex,)), v => (3, (v,)), s => &(s.1).0, &mut (s.1).0);
/// Payload type number K whose living values are counted
#[derive(Debug, PartialEq, Eq)]
pub struct Lv<const K: u32>(pub u64);
pub static LIVE_V: AtomicI64 = AtomicI64::new(0);
impl<const K: u32> Lv<K> {
    pub fn new(v: u64) -> Self {
        LIVE_V.fetch_add(1, Ordering::SeqCst);
        Lv(v)
    }
}
impl<const K: u32> Drop for Lv<K> {
    fn drop(&mut self) {
        LIVE_V.fetch_sub(1, Ordering::SeqCst);
    }
}
impl<const K: u32> Lg for Lv<K> {
    fn lg(&self, o: &mut String) {
        write!(o, "{}.{}", K, self.0).unwrap()
    }
}
pub type Str = String;
pub fn exs() -> Vec<(&'static str, Option<String>)> {
    Vec::new()
}
/// white space removed
pub fn dense(s: &str) -> String {
    s.split_whitespace().collect()
}
impl Drop for Ex {
    fn drop(&mut self) {
        LIVE_EX.fetch_sub(1, Ordering::SeqCst);
    }
}
/// A stack type with only the seven documented methods (and no Deref, no Default, ...).
pub struct VStack<T>(Option<Box<Node<T>>>, usize);
struct Node<T>(T, Option<Box<Node<T>>>);
impl<T> VStack<T> {
    pub fn new() -> Self {
        VStack(None, 0)
    }
    pub fn push(&mut self, t: T) {
        let old = self.0.take();
        self.0 = Some(Box::new(Node(t, old)));
        self.1 += 1;
    }
    pub fn pop(&mut self) -> Option<T> {
        let n = self.0.take()?;
        let Node(t, next) = *n;
        self.0 = next;
        self.1 -= 1;
        Some(t)
    }
    pub fn last(&self) -> Option<&T> {
        self.0.as_ref().map(|n| &n.0)
    }
    pub fn is_empty(&self) -> bool {
        self.1 == 0
    }
    pub fn clear(&mut self) {
        while self.pop().is_some() {}
    }
    pub fn len(&self) -> usize {
        self.1
    }
}
impl<T> Drop for VStack<T> {
    fn drop(&mut self) {
        self.clear()
    }
}
/// A fixed-capacity stack (what `%stack_size N FStack` would be used with in a no-alloc program):
/// pushing more than CAP entries panics.
pub struct FStack<T, const CAP: usize>(Vec<T>);
impl<T, const CAP: usize> FStack<T, CAP> {
    pub fn new() -> Self {
        FStack(Vec::new())
    }
    pub fn push(&mut self, t: T) {
        assert!(self.0.len() < CAP, "FStack capacity exceeded");
        self.0.push(t)
    }
    pub fn pop(&mut self) -> Option<T> {
        self.0.pop()
    }
    pub fn last(&self) -> Option<&T> {
        self.0.last()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn clear(&mut self) {
        self.0.clear()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

// ------------------------------------------------------------------ logging of values
pub trait Lg {
    fn lg(&self, o: &mut String);
}
impl Lg for () {
    fn lg(&self, o: &mut String) {
        o.push('u')
    }
}
impl<const K: u32> Lg for W<K> {
    fn lg(&self, o: &mut String) {
        write!(o, "{}.{}", K, self.0).unwrap()
    }
}
impl Lg for X {
    fn lg(&self, o: &mut String) {
        write!(o, "x{}", self.0).unwrap()
    }
}
impl<T: Lg> Lg for Option<T> {
    fn lg(&self, o: &mut String) {
        match self {
            None => o.push('N'),
            Some(v) => {
                o.push_str("S<");
                v.lg(o);
                o.push('>')
            }
        }
    }
}
impl<A: Lg, B: Lg> Lg for (A, B) {
    fn lg(&self, o: &mut String) {
        o.push('(');
        self.0.lg(o);
        o.push('&');
        self.1.lg(o);
        o.push(')')
    }
}
impl<T: Lg + ?Sized> Lg for &T {
    fn lg(&self, o: &mut String) {
        (**self).lg(o)
    }
}
impl<T: Lg + ?Sized> Lg for &mut T {
    fn lg(&self, o: &mut String) {
        (**self).lg(o)
    }
}
pub fn lgs<T: Lg + ?Sized>(t: &T) -> String {
    let mut s = String::new();
    t.lg(&mut s);
    s
}
pub fn lgt(tok: u32, t: &dyn Lg) -> String {
    let mut s = format!("{}:", tok);
    t.lg(&mut s);
    s
}

// ------------------------------------------------------------------ per-instance context
#[derive(Default)]
pub struct Ctx {
    log: String,
    nact: u64,
    nse: u64,
    acts_in_call: u64,
    plan: Plan,
}
#[derive(Default, Clone)]
pub struct Plan {
    fail_act: Option<u64>,   // the k-th action (0-based) returns Err(E(100+k))
    se_mode: u8,             // 0: always Err(E(300+k)); 1: always Ok; 2: Ok except the se_k-th
    se_k: u64,
    quiet: bool,             // do not log actions (used by very long runs)
    live: bool,              // note the number of living Lv after every operation
}
thread_local! { static CUR: RefCell<Ctx> = RefCell::new(Ctx::default()); }
const RUNAWAY: u64 = 20_000;

fn act_inner(rule: u32, args: &[&dyn Lg], ext: Option<u64>) -> Result<u64, E> {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        c.acts_in_call += 1;
        if c.acts_in_call > RUNAWAY {
            drop(c);
            panic!("RUNAWAY");
        }
        let n = c.nact;
        c.nact += 1;
        let mut s = String::new();
        write!(s, "R{}(", rule).unwrap();
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                s.push(';');
            }
            a.lg(&mut s);
        }
        s.push(')');
        if let Some(e) = ext {
            write!(s, "@{}", e).unwrap();
        }
        let fail = c.plan.fail_act == Some(n);
        if fail {
            write!(s, "!{}", 100_000 + n).unwrap();
        } else {
            write!(s, "={}", 1000 + n).unwrap();
        }
        s.push(' ');
        if !c.plan.quiet {
            c.log.push_str(&s);
        }
        if fail {
            Err(E(100_000 + n))
        } else {
            Ok(1000 + n)
        }
    })
}
pub fn act(rule: u32, args: &[&dyn Lg]) -> Result<u64, E> {
    act_inner(rule, args, None)
}
pub fn mix(v: u64, r: u64) -> u64 {
    (v ^ r.wrapping_mul(0x9E37_79B9)).wrapping_mul(0x0100_0000_01B3).rotate_left(17) & 0xffff_ffff
}
/// Action with extra argument: reads the extra value, then changes it.
pub fn actx<Q: IsEx>(extra: &mut Q, rule: u32, args: &[&dyn Lg]) -> Result<u64, E> {
    let extra = extra.exm();
    let v = extra.0;
    extra.0 = mix(v, rule as u64 + 1);
    act_inner(rule, args, Some(v))
}
fn se_inner(tok: Option<String>, exp: Vec<(&str, Option<String>)>, ext: Option<u64>) -> Result<u64, E> {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        let k = c.nse;
        c.nse += 1;
        let mut s = String::new();
        write!(s, "Y{}[", tok.as_deref().unwrap_or("-")).unwrap();
        for (i, (n, t)) in exp.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(n);
            if let Some(t) = t {
                write!(s, "={}", t).unwrap();
            }
        }
        s.push(']');
        if let Some(e) = ext {
            write!(s, "@{}", e).unwrap();
        }
        let ok = match c.plan.se_mode {
            0 => false,
            1 => true,
            _ => k != c.plan.se_k,
        };
        if ok {
            write!(s, "={} ", 500_000 + k).unwrap();
        } else {
            write!(s, "!{} ", 300_000 + k).unwrap();
        }
        c.log.push_str(&s);
        if ok {
            Ok(500_000 + k)
        } else {
            Err(E(300_000 + k))
        }
    })
}
pub fn se(tok: Option<String>, exp: Vec<(&str, Option<String>)>) -> Result<u64, E> {
    se_inner(tok, exp, None)
}
pub fn sex<Q: IsEx>(extra: &mut Q, tok: Option<String>, exp: Vec<(&str, Option<String>)>) -> Result<u64, E> {
    let extra = extra.exm();
    let v = extra.0;
    extra.0 = mix(v, 0x5e);
    se_inner(tok, exp, Some(v))
}
fn pf_inner(ext: Option<u64>) -> E {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        match ext {
            Some(e) => write!(c.log, "F@{} ", e).unwrap(),
            None => c.log.push_str("F "),
        }
        E(400_000)
    })
}
pub fn pf() -> E {
    pf_inner(None)
}
pub fn pfx<Q: IsEx>(extra: &mut Q) -> E {
    let extra = extra.exm();
    let v = extra.0;
    extra.0 = mix(v, 0xfa);
    pf_inner(Some(v))
}
fn so_inner(tok: Option<String>, ext: Option<u64>) -> E {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        write!(c.log, "O{}", tok.as_deref().unwrap_or("-")).unwrap();
        if let Some(e) = ext {
            write!(c.log, "@{}", e).unwrap();
        }
        c.log.push(' ');
        E(600_000)
    })
}
pub fn so(tok: Option<String>) -> E {
    so_inner(tok, None)
}
pub fn sox<Q: IsEx>(extra: &mut Q, tok: Option<String>) -> E {
    let extra = extra.exm();
    let v = extra.0;
    extra.0 = mix(v, 0x50);
    so_inner(tok, Some(v))
}
/// Free-form note (used by hand-written test modules).
pub fn note(s: &str) {
    CUR.with(|c| {
        let mut c = c.borrow_mut();
        c.log.push_str(s);
        c.log.push(' ');
    })
}

// ------------------------------------------------------------------ driver interface
pub type R = Result<(), u64>;
pub trait Drv: Send {
    fn parse(&mut self, tok: u32, v: u64, x: u64) -> R;
    /// Consumes the inner parser.
    fn end(&mut self) -> Result<String, u64>;
    fn extra(&self) -> Option<u64> {
        None
    }
    fn set_extra(&mut self, _v: u64) {}
    fn into_extra(&mut self) -> Option<u64> {
        None
    }
    /// Token accessor exercise (only for %extra_token grammars): returns a description.
    fn tok(&self, _tok: u32, _v: u64, _x: u64, _y: u64) -> String {
        String::new()
    }
}
pub type Mk = fn(u64) -> Box<dyn Drv>;

struct Inst {
    d: Option<Box<dyn Drv>>,
    ctx: Ctx,
}

fn msg(p: Box<dyn std::any::Any + Send>) -> String {
    let s = p
        .downcast_ref::<&str>()
        .map(|s| s.to_string())
        .or_else(|| p.downcast_ref::<String>().cloned())
        .unwrap_or_default();
    s.split_whitespace().collect::<Vec<_>>().join("_")
}

/// ops: `n` new (extra value), `t` parse, `e` end_of_input, `x` read extra, `X` write extra through
/// extra_mut, `i` into_extra, `d` drop, `k` token accessors.
fn exec(inst: &mut Inst, op: &str, mk: Mk) {
    let mut ctx = std::mem::take(&mut inst.ctx);
    ctx.acts_in_call = 0;
    CUR.with(|c| *c.borrow_mut() = ctx);
    let d = &mut inst.d;
    let r = catch_unwind(AssertUnwindSafe(|| -> String {
        let nums: Vec<u64> = op[1..].split('.').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        let g = |i: usize| nums.get(i).copied().unwrap_or(0);
        match op.as_bytes()[0] {
            b'n' => {
                *d = Some(mk(g(0)));
                "new".into()
            }
            b't' => match d.as_mut().unwrap().parse(g(0) as u32, g(1), g(2)) {
                Ok(()) => "ok".into(),
                Err(e) => format!("err{}", e),
            },
            b'e' => match d.as_mut().unwrap().end() {
                Ok(v) => format!("acc{}", v),
                Err(e) => format!("err{}", e),
            },
            b'x' => format!("ex{:?}", d.as_ref().unwrap().extra()),
            b'X' => {
                d.as_mut().unwrap().set_extra(g(0));
                "set".into()
            }
            b'i' => format!("ie{:?}", d.as_mut().unwrap().into_extra()),
            b'd' => {
                *d = None;
                "drop".into()
            }
            b'k' => format!("tk{}", d.as_ref().unwrap().tok(g(0) as u32, g(1), g(2), g(3))),
            _ => panic!("bad op"),
        }
    }));
    let mut ctx = CUR.with(|c| std::mem::take(&mut *c.borrow_mut()));
    let r = match r {
        Ok(s) => s,
        Err(p) => format!("panic:{}", msg(p)),
    };
    if ctx.plan.live {
        write!(ctx.log, "<{}~{}> ", r, LIVE_V.load(Ordering::SeqCst)).unwrap();
    } else {
        write!(ctx.log, "<{}> ", r).unwrap();
    }
    inst.ctx = ctx;
}

fn parse_plan(s: &str) -> Plan {
    let mut p = Plan::default();
    for f in s.split(',') {
        if let Some(k) = f.strip_prefix('a') {
            p.fail_act = k.parse().ok();
        } else if let Some(k) = f.strip_prefix('s') {
            p.se_mode = 2;
            p.se_k = k.parse().unwrap();
        } else if f == "O" {
            p.se_mode = 1;
        } else if f == "q" {
            p.quiet = true;
        } else if f == "l" {
            p.live = true;
        }
    }
    p
}

/// Every instance's operations on a thread of its own, all at once, `reps` times over. The trace of an
/// instance is that of a first run by itself, or the first one that differs from it.
fn run_parallel(gs: &[usize], plans: &[Plan], ops: &[(usize, &str)], reps: usize, mks: &[Mk]) -> Vec<String> {
    let once = |i: usize| -> String {
        let mut inst = Inst { d: None, ctx: Ctx { plan: plans[i % plans.len()].clone(), ..Ctx::default() } };
        for (k, op) in ops {
            if *k == i {
                exec(&mut inst, op, mks[gs[i]]);
            }
        }
        let d = inst.d;
        let _ = catch_unwind(AssertUnwindSafe(move || drop(d)));
        inst.ctx.log
    };
    let base: Vec<String> = (0..gs.len()).map(|i| once(i)).collect();
    let start = std::sync::Barrier::new(gs.len());
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..gs.len())
            .map(|i| {
                let (once, base, start) = (&once, &base, &start);
                s.spawn(move || {
                    start.wait();
                    for _ in 0..reps {
                        let l = once(i);
                        if l != base[i] {
                            return l;
                        }
                    }
                    base[i].clone()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    })
}

/// Case line: `g plan op op op ...` with op = [inst:]op[@thread]; several grammars: inst i uses the
/// i-th entry of the comma separated list g. An operation on a thread above 99 stands for the whole
/// case being run in parallel, that many times.
fn run_case(line: &str, mks: &[Mk], out: &mut String) {
    let mut it = line.split(' ');
    let gs: Vec<usize> = it.next().unwrap().split(',').map(|s| s.parse().unwrap()).collect();
    let plans: Vec<Plan> = it.next().unwrap().split('/').map(parse_plan).collect();
    let live0 = LIVE_EX.load(Ordering::SeqCst);
    if line.contains('@') {
        let all: Vec<(usize, &str, usize)> = it
            .clone()
            .filter(|o| !o.is_empty())
            .map(|o| {
                let (i, o) = o.split_once(':').unwrap_or(("0", o));
                let (o, t) = o.split_once('@').unwrap_or((o, "0"));
                (i.parse().unwrap(), o, t.parse().unwrap())
            })
            .collect();
        let reps = all.iter().map(|o| o.2).max().unwrap_or(0);
        if reps > 99 {
            let ops: Vec<(usize, &str)> = all.iter().map(|o| (o.0, o.1)).collect();
            let v = run_parallel(&gs, &plans, &ops, reps, mks);
            out.push_str(&v.iter().map(|s| s.trim_end()).collect::<Vec<_>>().join("|"));
            let live1 = LIVE_EX.load(Ordering::SeqCst);
            if live1 != live0 {
                write!(out, " LEAK{}", live1 - live0).unwrap();
            }
            return;
        }
    }
    let mut insts: Vec<Inst> = gs
        .iter()
        .enumerate()
        .map(|(i, _)| Inst { d: None, ctx: Ctx { plan: plans[i % plans.len()].clone(), ..Ctx::default() } })
        .collect();
    let mut threads: Vec<(
        std::sync::mpsc::Sender<(Inst, String, Mk)>,
        std::sync::mpsc::Receiver<Inst>,
        std::thread::JoinHandle<()>,
    )> = Vec::new();
    for op in it {
        if op.is_empty() {
            continue;
        }
        let (i, op) = match op.split_once(':') {
            Some((i, o)) => (i.parse::<usize>().unwrap(), o),
            None => (0, op),
        };
        let (op, th) = match op.split_once('@') {
            Some((o, t)) => (o, Some(t.parse::<usize>().unwrap())),
            None => (op, None),
        };
        let mk = mks[gs[i]];
        match th {
            None => exec(&mut insts[i], op, mk),
            Some(t) => {
                while threads.len() <= t {
                    let (tx, rx) = std::sync::mpsc::channel::<(Inst, String, Mk)>();
                    let (tx2, rx2) = std::sync::mpsc::channel();
                    let h = std::thread::spawn(move || {
                        while let Ok((mut inst, op, mk)) = rx.recv() {
                            exec(&mut inst, &op, mk);
                            if tx2.send(inst).is_err() {
                                break;
                            }
                        }
                    });
                    threads.push((tx, rx2, h));
                }
                let inst = std::mem::replace(&mut insts[i], Inst { d: None, ctx: Ctx::default() });
                threads[t].0.send((inst, op.to_string(), mk)).unwrap();
                insts[i] = threads[t].1.recv().unwrap();
            }
        }
    }
    for (tx, rx, h) in threads {
        drop(tx);
        drop(rx);
        h.join().unwrap();
    }
    let n = insts.len();
    for (i, inst) in insts.into_iter().enumerate() {
        if i > 0 {
            out.push('|');
        }
        out.push_str(inst.ctx.log.trim_end());
        // a panicking drop must not take the driver down
        let d = inst.d;
        let _ = catch_unwind(AssertUnwindSafe(move || drop(d)));
    }
    let live1 = LIVE_EX.load(Ordering::SeqCst);
    if live1 != live0 {
        write!(out, "{}LEAK{}", if n > 0 { " " } else { "" }, live1 - live0).unwrap();
    }
}

/// argv[1]: case file; argv[2]: first case to run; argv[3]: how many; output: one line per case,
/// `index trace`.
pub fn main(mks: &[Mk]) {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let f = std::io::BufReader::new(std::fs::File::open(&args[1]).unwrap());
    let first: usize = args.get(2).map_or(0, |s| s.parse().unwrap());
    let count: usize = args.get(3).map_or(usize::MAX, |s| s.parse().unwrap());
    let stdout = std::io::stdout();
    let mut o = stdout.lock();
    let mut s = String::new();
    for (i, line) in f.lines().enumerate() {
        let line = line.unwrap();
        if i < first || i - first >= count {
            continue;
        }
        s.clear();
        write!(s, "{} ", i).unwrap();
        run_case(&line, mks, &mut s);
        s.push('\n');
        o.write_all(s.as_bytes()).unwrap();
    }
    o.write_all(b"END\n").unwrap();
}
