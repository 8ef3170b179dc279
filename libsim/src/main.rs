//! libsim: the prexel library under a simulator. Reads one case per line (JSON), writes one result
//! per line. Actors are threads that own evaluators and run one at a time: a seeded scheduler picks
//! who runs at every operation, every call of a user-supplied function and every word drawn from the
//! random source. The random source is scripted per evaluator, process hash seeds per case.
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, BinaryFunction, Function, Notation, Precedence, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use rust_decimal::Decimal;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

// ------------------------------------------------------------------ sources of nondeterminism
static HASH_SEED: AtomicU64 = AtomicU64::new(1);

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Replaces the C library's function: the standard library takes the keys of its hash maps from here.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        let w = mix(HASH_SEED.load(Ordering::Relaxed).wrapping_add((i / 8) as u64));
        unsafe { *buf.add(i) = (w >> (8 * (i % 8))) as u8 };
    }
    len as isize
}

struct SchedState {
    cur: usize,
    alive: Vec<bool>,
    rng: u64,
    ps: u64,
    trail: u64,
    switches: u64,
    seq: u64,
}
struct Sched {
    m: Mutex<SchedState>,
    cv: Condvar,
}
impl Sched {
    fn pick(s: &mut SchedState, me: usize) {
        s.seq += 1;
        let others: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i] && *i != me).collect();
        if others.is_empty() {
            return;
        }
        s.rng = s.rng.wrapping_add(0x9e3779b97f4a7c15);
        let r = mix(s.rng);
        if !s.alive[me] || r % 1000 < s.ps {
            s.cur = others[((r >> 20) % others.len() as u64) as usize];
            s.switches += 1;
        }
        s.trail = mix(s.trail ^ s.cur as u64);
    }
    fn wait(&self, me: usize, mut s: std::sync::MutexGuard<SchedState>) {
        let mut last = s.seq;
        while s.cur != me {
            let (g, t) = self.cv.wait_timeout(s, Duration::from_secs(3)).unwrap();
            s = g;
            if t.timed_out() && s.cur != me {
                // whoever has the turn is blocked by something this actor holds: take the turn
                if s.seq == last {
                    s.cur = me;
                }
                last = s.seq;
            }
        }
    }
    fn point(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        if s.cur == me {
            Self::pick(&mut s, me);
            if s.cur == me {
                return;
            }
            self.cv.notify_all();
        }
        self.wait(me, s);
    }
    fn start(&self, me: usize) {
        let s = self.m.lock().unwrap();
        self.wait(me, s);
    }
    fn done(&self, me: usize) {
        let mut s = self.m.lock().unwrap();
        s.alive[me] = false;
        Self::pick(&mut s, me);
        self.cv.notify_all();
    }
}

#[derive(Default)]
struct Stream {
    script: Vec<u64>,
    pos: u64,
    ids: u64,
}
struct Frame {
    ev: u64,
    calls: Vec<Value>,
    n: u64,
    fault: Option<Value>,
    nest: Option<Value>,
    looks: u64,
    look: Option<Value>,
}
#[derive(Default)]
struct Actor {
    me: usize,
    sched: Option<Arc<Sched>>,
    streams: HashMap<u64, Stream>,
    rk: u64,
    lk: bool,
    frames: Vec<Frame>,
    cur: Vec<u64>,
    reg: HashMap<u64, Rc<RefCell<Box<dyn Ev>>>>,
}
thread_local! {
    static A: RefCell<Actor> = RefCell::new(Actor::default());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
fn with<R>(f: impl FnOnce(&mut Actor) -> R) -> R {
    A.with(|a| f(&mut a.borrow_mut()))
}
fn yield_point() {
    let x = A.with(|a| match a.try_borrow() {
        Ok(a) => a.sched.clone().map(|s| (s, a.me)),
        Err(_) => None,
    });
    if let Some((s, me)) = x {
        s.point(me);
    }
}
fn draw() -> u64 {
    yield_point();
    with(|a| {
        let e = a.cur.last().copied().unwrap_or(0);
        let rk = a.rk;
        let s = a.streams.entry(e).or_default();
        let p = s.pos;
        s.pos += 1;
        match s.script.get(p as usize) {
            Some(w) => *w,
            None => mix(mix(rk ^ mix(e)).wrapping_add(p)),
        }
    })
}

// ------------------------------------------------------------------ the caller's context
/// A context of the user that passes everything on to a `DefaultContext`. Every question the
/// library asks it is a point of interleaving and of failure.
struct Proxy<N: Num>(DefaultContext<'static, N>);
impl<N: Num> Clone for Proxy<N> {
    fn clone(&self) -> Self {
        Proxy(self.0.clone())
    }
}
/// One call of anything the user supplied but functions and operators themselves.
fn look() {
    let x = A.with(|a| match a.try_borrow_mut() {
        Ok(mut a) => {
            let lk = a.lk;
            a.frames.last_mut().map(|f| {
                let k = f.looks;
                f.looks += 1;
                let hit = match &f.look {
                    Some(x) if x["at"].as_u64() == Some(k) => Some(x["msg"].as_str().unwrap_or("").to_string()),
                    _ => None,
                };
                (lk, hit)
            })
        }
        Err(_) => None,
    });
    if let Some((lk, hit)) = x {
        if lk {
            yield_point();
        }
        if let Some(m) = hit {
            panic!("{}", m);
        }
    }
}
impl<N: Num> Context<'static, N> for Proxy<N> {
    fn config(&self) -> &Config {
        look();
        self.0.config()
    }
    fn add_function<F: Function<N> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        self.0.add_function(func)
    }
    fn add_unary_function<F: UnaryFunction<N> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        self.0.add_unary_function(func)
    }
    fn add_binary_function<F: BinaryFunction<N> + 'static>(&mut self, func: F) -> prexel::Result<()> {
        self.0.add_binary_function(func)
    }
    fn add_constant(&mut self, name: &str, value: N) -> prexel::Result<()> {
        self.0.add_constant(name, value)
    }
    fn set_variable(&mut self, name: &str, value: N) -> prexel::Result<Option<N>> {
        self.0.set_variable(name, value)
    }
    fn get_variable(&self, name: &str) -> Option<&N> {
        look();
        self.0.get_variable(name)
    }
    fn get_constant(&self, name: &str) -> Option<&N> {
        look();
        self.0.get_constant(name)
    }
    fn get_function(&self, name: &str) -> Option<&Rc<dyn Function<N> + 'static>> {
        look();
        self.0.get_function(name)
    }
    fn get_unary_function(&self, name: &str) -> Option<&Rc<dyn UnaryFunction<N> + 'static>> {
        look();
        self.0.get_unary_function(name)
    }
    fn get_binary_function(&self, name: &str) -> Option<&Rc<dyn BinaryFunction<N> + 'static>> {
        look();
        self.0.get_binary_function(name)
    }
    fn is_variable(&self, name: &str) -> bool {
        look();
        self.0.is_variable(name)
    }
    fn is_constant(&self, name: &str) -> bool {
        look();
        self.0.is_constant(name)
    }
    fn is_function(&self, name: &str) -> bool {
        look();
        self.0.is_function(name)
    }
    fn is_unary_function(&self, name: &str) -> bool {
        look();
        self.0.is_unary_function(name)
    }
    fn is_binary_function(&self, name: &str) -> bool {
        look();
        self.0.is_binary_function(name)
    }
}

// ------------------------------------------------------------------ number types
trait Num: Clone + Debug + FromStr + 'static {
    fn id(n: u64) -> Self;
    fn show(&self) -> Value;
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>>;
    fn tokenizer(kind: &str) -> Tokenizer<'static, Self, Proxy<Self>> {
        let _ = kind;
        Tokenizer::new()
    }
}
macro_rules! num_std {
    ($($t:ty),*) => ($(
        impl Num for $t {
            fn id(n: u64) -> Self { n as $t }
            fn show(&self) -> Value { json!(format!("{:?}", self)) }
            fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
                match kind {
                    "empty" => Some(DefaultContext::with_config(c)),
                    "checked" => Some(DefaultContext::with_config_checked(c)),
                    "unchecked" => Some(DefaultContext::with_config_unchecked(c)),
                    _ => None,
                }
            }
        }
    )*)
}
num_std!(f32, f64, i8, i16, i32, i64, i128, isize);
impl Num for Decimal {
    fn id(n: u64) -> Self {
        Decimal::from(n)
    }
    fn show(&self) -> Value {
        json!(self.to_string())
    }
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
        match kind {
            "empty" => Some(DefaultContext::with_config(c)),
            "std" => Some(DefaultContext::with_config_decimal(c)),
            "unchecked" => Some(DefaultContext::with_config_unchecked(c)),
            _ => None,
        }
    }
}
impl Num for Complex<f64> {
    fn id(n: u64) -> Self {
        Complex::new(n as f64, (n % 7) as f64)
    }
    fn show(&self) -> Value {
        json!([format!("{:?}", self.re), format!("{:?}", self.im)])
    }
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
        match kind {
            "empty" => Some(DefaultContext::with_config(c)),
            "std" => Some(DefaultContext::with_config_complex(c)),
            _ => None,
        }
    }
}
impl Num for Complex<f32> {
    fn id(n: u64) -> Self {
        Complex::new(n as f32, (n % 7) as f32)
    }
    fn show(&self) -> Value {
        json!([format!("{:?}", self.re), format!("{:?}", self.im)])
    }
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
        match kind {
            "empty" => Some(DefaultContext::with_config(c)),
            "std" => Some(DefaultContext::with_config_complex(c)),
            _ => None,
        }
    }
}
impl Num for Binary {
    fn id(n: u64) -> Self {
        Binary(n as i128)
    }
    fn show(&self) -> Value {
        json!(self.0.to_string())
    }
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
        match kind {
            "empty" => Some(DefaultContext::with_config(c)),
            "std" => Some(DefaultContext::with_config_binary(c)),
            _ => None,
        }
    }
    fn tokenizer(kind: &str) -> Tokenizer<'static, Self, Proxy<Self>> {
        match kind {
            "std" => Tokenizer::with_splitter(binary_number_splitter()),
            _ => Tokenizer::new(),
        }
    }
}
/// A number type of the user: lives on the heap, its parsing and cloning are points of interleaving.
#[derive(Debug)]
struct Sym(Box<str>);
impl Clone for Sym {
    fn clone(&self) -> Self {
        yield_point();
        look();
        Sym(self.0.clone())
    }
}
impl FromStr for Sym {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        yield_point();
        look();
        if !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) {
            Ok(Sym(s.into()))
        } else {
            Err(())
        }
    }
}
impl Num for Sym {
    fn id(n: u64) -> Self {
        Sym(n.to_string().into())
    }
    fn show(&self) -> Value {
        json!(&*self.0)
    }
    fn make(kind: &str, c: Config) -> Option<DefaultContext<'static, Self>> {
        match kind {
            "empty" => Some(DefaultContext::with_config(c)),
            _ => None,
        }
    }
}

// ------------------------------------------------------------------ user functions
struct UserFn {
    id: u64,
    name: &'static str,
    desc: String,
    aliases: Option<Vec<&'static str>>,
    prefix: bool,
    prec: u32,
    left: bool,
    pure_: bool,
}
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
impl UserFn {
    fn parse(f: &Value) -> UserFn {
        UserFn {
            id: f["id"].as_u64().unwrap(),
            name: leak(f["n"].as_str().unwrap()),
            desc: format!("#{}", f["id"]),
            aliases: f["a"].as_array().map(|a| a.iter().map(|x| leak(x.as_str().unwrap())).collect()),
            prefix: f["not"].as_str() != Some("post"),
            prec: f["p"].as_u64().unwrap_or(1) as u32,
            left: f["as"].as_str() != Some("R"),
            pure_: f["beh"].as_str() == Some("pure"),
        }
    }
    fn run<N: Num>(&self, args: &[N]) -> prexel::Result<N> {
        yield_point();
        let shown: Vec<Value> = args.iter().map(|a| a.show()).collect();
        let (fault, nest, at, ev) = with(|a| {
            let f = match a.frames.last_mut() {
                Some(f) => f,
                None => return (None, None, 0, 0),
            };
            let k = f.n;
            f.n += 1;
            f.calls.push(json!([self.id, shown, null]));
            let fault = f.fault.as_ref().filter(|x| x["at"].as_u64() == Some(k)).cloned();
            let nest = f.nest.as_ref().filter(|x| x["at"].as_u64() == Some(k)).cloned();
            (fault, nest, f.calls.len() - 1, f.ev)
        });
        if let Some(n) = nest {
            let r: Vec<Value> = n["ops"].as_array().unwrap().iter().map(do_op).collect();
            with(|a| {
                let c = a.frames.last_mut().unwrap().calls[at].as_array_mut().unwrap();
                c.push(json!(r));
            });
        }
        if let Some(f) = fault {
            match f["what"].as_str() {
                Some("panic") => panic!("{}", f["msg"].as_str().unwrap_or("")),
                _ => {
                    let k = kind_of(f["kind"].as_str().unwrap());
                    return Err(match f["msg"].as_str() {
                        Some(m) => Error::new(k, m),
                        None => Error::from(k),
                    });
                }
            }
        }
        let n = if self.pure_ {
            let mut h = mix(self.id);
            for b in json!(shown).to_string().bytes() {
                h = mix(h ^ b as u64);
            }
            1000 + h % 9000
        } else {
            with(|a| {
                let s = a.streams.entry(ev).or_default();
                s.ids += 1;
                1000 + s.ids - 1
            })
        };
        let v = N::id(n);
        with(|a| {
            if let Some(f) = a.frames.last_mut() {
                f.calls[at][2] = v.show();
            }
        });
        yield_point();
        Ok(v)
    }
}
fn kind_of(s: &str) -> ErrorKind {
    match s {
        "Overflow" => ErrorKind::Overflow,
        "Zero" => ErrorKind::Zero,
        "NAN" => ErrorKind::NAN,
        "InvalidInput" => ErrorKind::InvalidInput,
        "InvalidArgumentCount" => ErrorKind::InvalidArgumentCount,
        "DivisionByZero" => ErrorKind::DivisionByZero,
        "NegativeValue" => ErrorKind::NegativeValue,
        "PositiveValue" => ErrorKind::PositiveValue,
        "InvalidExpression" => ErrorKind::InvalidExpression,
        "Empty" => ErrorKind::Empty,
        _ => ErrorKind::Unknown,
    }
}
impl<N: Num> Function<N> for UserFn {
    fn name(&self) -> &str {
        self.name
    }
    fn call(&self, args: &[N]) -> prexel::Result<N> {
        self.run(args)
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.aliases.as_deref()
    }
    fn description(&self) -> Option<&str> {
        Some(&self.desc)
    }
}
impl<N: Num> UnaryFunction<N> for UserFn {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.aliases.as_deref()
    }
    fn notation(&self) -> Notation {
        look();
        if self.prefix {
            Notation::Prefix
        } else {
            Notation::Postfix
        }
    }
    fn call(&self, value: N) -> prexel::Result<N> {
        self.run(&[value])
    }
    fn description(&self) -> Option<&str> {
        Some(&self.desc)
    }
}
impl<N: Num> BinaryFunction<N> for UserFn {
    fn name(&self) -> &str {
        self.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        self.aliases.as_deref()
    }
    fn precedence(&self) -> Precedence {
        look();
        Precedence(self.prec)
    }
    fn associativity(&self) -> Associativity {
        look();
        if self.left {
            Associativity::Left
        } else {
            Associativity::Right
        }
    }
    fn call(&self, left: N, right: N) -> prexel::Result<N> {
        self.run(&[left, right])
    }
    fn description(&self) -> Option<&str> {
        Some(&self.desc)
    }
}

// ------------------------------------------------------------------ evaluators
trait Ev {
    fn var(&mut self, n: &str, v: &str) -> Value;
    fn constant(&mut self, n: &str, v: &str) -> Value;
    fn func(&mut self, f: &Value, named: Option<&str>) -> Value;
    fn eval(&self, x: &str) -> Value;
    fn tok(&self, x: &str) -> Value;
    fn tokens(&self, t: &Value) -> Value;
    fn list(&self) -> Value;
    fn get(&self, n: &str) -> Value;
    fn copy(&self) -> Box<dyn Ev>;
}
struct EvBox<N: Num> {
    ev: Evaluator<'static, N, Proxy<N>>,
    kind: String,
}
fn err(e: &Error) -> Value {
    json!(["err", format!("{:?}", e.kind()), e.to_string()])
}
fn res<N: Num>(r: prexel::Result<N>) -> Value {
    match r {
        Ok(v) => json!(["ok", v.show()]),
        Err(e) => err(&e),
    }
}
impl<N: Num> EvBox<N> {
    fn value(v: &str) -> Result<N, Value> {
        N::from_str(v).map_err(|_| json!(["badvalue"]))
    }
    fn tokenizer(&self) -> Tokenizer<'static, N, Proxy<N>> {
        N::tokenizer(&self.kind)
    }
}
impl<N: Num> Ev for EvBox<N> {
    fn var(&mut self, n: &str, v: &str) -> Value {
        let v = match Self::value(v) {
            Ok(v) => v,
            Err(e) => return e,
        };
        match self.ev.mut_context().0.set_variable(n, v) {
            Ok(o) => json!(["ok", o.map(|x| x.show())]),
            Err(e) => err(&e),
        }
    }
    fn constant(&mut self, n: &str, v: &str) -> Value {
        let v = match Self::value(v) {
            Ok(v) => v,
            Err(e) => return e,
        };
        match self.ev.mut_context().0.add_constant(n, v) {
            Ok(()) => json!(["ok", null]),
            Err(e) => err(&e),
        }
    }
    fn func(&mut self, f: &Value, named: Option<&str>) -> Value {
        let u = UserFn::parse(f);
        let c = &mut self.ev.mut_context().0;
        let r = match (f["k"].as_str().unwrap(), named) {
            ("f", None) => c.add_function(u),
            ("f", Some(n)) => c.add_function_as(u, n),
            ("u", None) => c.add_unary_function(u),
            ("u", Some(n)) => c.add_unary_function_as(u, n),
            (_, None) => c.add_binary_function(u),
            (_, Some(n)) => c.add_binary_function_as(u, n),
        };
        match r {
            Ok(()) => json!(["ok", null]),
            Err(e) => err(&e),
        }
    }
    fn eval(&self, x: &str) -> Value {
        // the evaluator outlives the call, and nothing of the result borrows from it
        let ev: &'static Evaluator<'static, N, Proxy<N>> = unsafe { &*(&self.ev as *const _) };
        res(ev.eval(x))
    }
    fn tok(&self, x: &str) -> Value {
        match self.tokenizer().tokenize(self.ev.context(), x) {
            Ok(t) => res(self.ev.eval_tokens(&t)),
            Err(e) => err(&e),
        }
    }
    fn tokens(&self, t: &Value) -> Value {
        let mut v: Vec<Token<N>> = Vec::new();
        for x in t.as_array().unwrap() {
            let s = x[1].as_str().unwrap();
            v.push(match x[0].as_str().unwrap() {
                "n" => match Self::value(s) {
                    Ok(v) => Token::Number(v),
                    Err(e) => return e,
                },
                "v" => Token::Variable(s.into()),
                "c" => Token::Constant(s.into()),
                "f" => Token::Function(s.into()),
                "b" => Token::BinaryOperator(s.into()),
                "u" => Token::UnaryOperator(s.into()),
                "(" => Token::GroupingOpen(s.chars().next().unwrap()),
                ")" => Token::GroupingClose(s.chars().next().unwrap()),
                "," => Token::Comma,
                _ => Token::Unknown(s.into()),
            });
        }
        res(self.ev.eval_tokens(&v))
    }
    fn list(&self) -> Value {
        let c = &self.ev.context().0;
        let d = |x: Option<&str>| x.map(|s| s.to_string());
        json!({
            "v": c.variables().iter().map(|(k, v)| json!([k, v.show()])).collect::<Vec<_>>(),
            "c": c.constants().iter().map(|(k, v)| json!([k.as_str(), v.show()])).collect::<Vec<_>>(),
            "f": c.functions().iter().map(|(k, v)| json!([k.as_str(), d(v.description())])).collect::<Vec<_>>(),
            "u": c.unary_functions().iter().map(|(k, v)| json!([k.as_str(), d(v.description())])).collect::<Vec<_>>(),
            "b": c.binary_functions().iter().map(|(k, v)| json!([k.as_str(), d(v.description())])).collect::<Vec<_>>(),
        })
    }
    fn get(&self, n: &str) -> Value {
        let c = &self.ev.context().0;
        let d = |x: Option<&str>| x.map(|s| s.to_string());
        json!({
            "v": c.get_variable(n).map(|v| v.show()),
            "c": c.get_constant(n).map(|v| v.show()),
            "f": c.get_function(n).map(|v| d(v.description())),
            "u": c.get_unary_function(n).map(|v| d(v.description())),
            "b": c.get_binary_function(n).map(|v| d(v.description())),
            "is": [c.is_variable(n), c.is_constant(n), c.is_function(n), c.is_unary_function(n), c.is_binary_function(n)],
        })
    }
    fn copy(&self) -> Box<dyn Ev> {
        Box::new(EvBox {
            ev: Evaluator::with_context_and_tokenizer(self.ev.context().clone(), self.tokenizer()),
            kind: self.kind.clone(),
        })
    }
}
fn build<N: Num>(kind: &str, c: Config) -> Option<Box<dyn Ev>> {
    Some(Box::new(EvBox::<N> {
        ev: Evaluator::with_context_and_tokenizer(Proxy(N::make(kind, c)?), N::tokenizer(kind)),
        kind: kind.to_string(),
    }))
}
fn new_ev(t: &str, kind: &str, c: Config) -> Option<Box<dyn Ev>> {
    match t {
        "f64" => build::<f64>(kind, c),
        "f32" => build::<f32>(kind, c),
        "i8" => build::<i8>(kind, c),
        "i16" => build::<i16>(kind, c),
        "i32" => build::<i32>(kind, c),
        "i64" => build::<i64>(kind, c),
        "i128" => build::<i128>(kind, c),
        "isize" => build::<isize>(kind, c),
        "decimal" => build::<Decimal>(kind, c),
        "complex" => build::<Complex<f64>>(kind, c),
        "complex32" => build::<Complex<f32>>(kind, c),
        "binary" => build::<Binary>(kind, c),
        "sym" => build::<Sym>(kind, c),
        _ => None,
    }
}
fn config(v: &Value) -> Config {
    let b = |k: &str| v[k].as_bool().unwrap_or(false);
    let mut c = Config::new();
    if b("br") {
        c = c.with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace);
    }
    c.with_implicit_mul(b("im")).with_complex_number(b("cx")).with_custom_function_call(b("cf"))
}

// ------------------------------------------------------------------ operations
fn do_op(op: &Value) -> Value {
    yield_point();
    let e = op["e"].as_u64().unwrap_or(0);
    let o = op["o"].as_str().unwrap();
    let before = with(|a| {
        a.cur.push(e);
        a.frames.push(Frame { ev: e, calls: vec![], n: 0, fault: nn(&op["fault"]), nest: nn(&op["nest"]), looks: 0, look: nn(&op["look"]) });
        (a.frames.len(), a.cur.len(), a.streams.entry(e).or_default().pos)
    });
    let r = catch_unwind(AssertUnwindSafe(|| one(o, e, op)));
    let (calls, draws) = with(|a| {
        a.frames.truncate(before.0);
        a.cur.truncate(before.1);
        let f = a.frames.pop().unwrap();
        a.cur.pop();
        (f.calls, a.streams.entry(e).or_default().pos - before.2)
    });
    let r = match r {
        Ok(r) => r,
        Err(_) => json!(["panic", PANIC.with(|p| p.borrow().clone())]),
    };
    let mut m = serde_json::Map::new();
    m.insert("r".into(), r);
    if !calls.is_empty() {
        m.insert("c".into(), json!(calls));
    }
    if draws > 0 {
        m.insert("d".into(), json!(draws));
    }
    Value::Object(m)
}
fn nn(v: &Value) -> Option<Value> {
    if v.is_null() {
        None
    } else {
        Some(v.clone())
    }
}
fn one(o: &str, e: u64, op: &Value) -> Value {
    match o {
        "new" => {
            let c = config(&op["cfg"]);
            match new_ev(op["t"].as_str().unwrap(), op["k"].as_str().unwrap(), c) {
                Some(b) => {
                    let old = with(|a| a.reg.insert(e, Rc::new(RefCell::new(b))));
                    drop(old);
                    json!(["ok", null])
                }
                None => json!(["badtype"]),
            }
        }
        "drop" => {
            let old = with(|a| a.reg.remove(&e));
            let had = old.is_some();
            drop(old);
            json!(["ok", had])
        }
        "clone" => {
            let src = with(|a| a.reg.get(&op["from"].as_u64().unwrap()).cloned());
            let src = match src {
                Some(s) => s,
                None => return json!(["gone"]),
            };
            let b = src.borrow().copy();
            with(|a| a.reg.insert(e, Rc::new(RefCell::new(b))));
            json!(["ok", null])
        }
        "mkerr" => {
            let k = kind_of(op["kind"].as_str().unwrap());
            err(&match op["msg"].as_str() {
                Some(m) => Error::new(k, m),
                None => Error::from(k),
            })
        }
        _ => {
            let ev = match with(|a| a.reg.get(&e).cloned()) {
                Some(s) => s,
                None => return json!(["gone"]),
            };
            match o {
                "var" | "const" | "fn" => {
                    let mut g = match ev.try_borrow_mut() {
                        Ok(g) => g,
                        Err(_) => return json!(["busy"]),
                    };
                    match o {
                        "var" => g.var(op["n"].as_str().unwrap(), op["v"].as_str().unwrap()),
                        "const" => g.constant(op["n"].as_str().unwrap(), op["v"].as_str().unwrap()),
                        _ => g.func(&op["f"], op["as"].as_str()),
                    }
                }
                _ => {
                    let g = ev.borrow();
                    match o {
                        "eval" => g.eval(op["x"].as_str().unwrap()),
                        "tok" => g.tok(op["x"].as_str().unwrap()),
                        "tokens" => g.tokens(&op["t"]),
                        "list" => g.list(),
                        "get" => g.get(op["n"].as_str().unwrap()),
                        _ => json!(["badop"]),
                    }
                }
            }
        }
    }
}

fn run_actor(me: usize, ops: &[Value], case: &Value, sched: Arc<Sched>) -> Value {
    with(|a| {
        a.me = me;
        a.rk = case["rk"].as_u64().unwrap_or(7);
        a.lk = case["lk"].as_bool().unwrap_or(false);
        if let Some(m) = case["rng"].as_object() {
            for (k, v) in m {
                let s = a.streams.entry(k.parse().unwrap()).or_default();
                s.script = v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
            }
        }
        if sched.m.lock().unwrap().alive.len() > 1 {
            a.sched = Some(sched.clone());
        }
    });
    let out: Vec<Value> = ops.iter().map(do_op).collect();
    let reg = with(|a| std::mem::take(&mut a.reg));
    drop(reg);
    json!(out)
}

fn run_case(case: &Value) -> Value {
    HASH_SEED.store(case["hs"].as_u64().unwrap_or(1), Ordering::Relaxed);
    let actors = case["actors"].as_array().unwrap();
    let sched = Arc::new(Sched {
        m: Mutex::new(SchedState {
            cur: 0,
            alive: vec![true; actors.len()],
            rng: case["sched"].as_u64().unwrap_or(0),
            ps: case["ps"].as_u64().unwrap_or(300),
            trail: 0,
            switches: 0,
            seq: 0,
        }),
        cv: Condvar::new(),
    });
    let mut outs = Vec::new();
    std::thread::scope(|sc| {
        let hs: Vec<_> = actors
            .iter()
            .enumerate()
            .map(|(i, ops)| {
                let sched = sched.clone();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        sched.start(i);
                        let r = catch_unwind(AssertUnwindSafe(|| run_actor(i, ops.as_array().unwrap(), case, sched.clone())));
                        sched.done(i);
                        r.unwrap_or_else(|_| json!(["harness-panic", PANIC.with(|p| p.borrow().clone())]))
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            outs.push(h.join().unwrap_or(json!(["thread-panic"])));
        }
    });
    let s = sched.m.lock().unwrap();
    json!({"out": outs, "trail": s.trail, "switches": s.switches, "points": s.seq})
}

extern "C" {
    fn fork() -> i32;
    fn prctl(option: i32, arg: u64) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn main() {
    // Nothing stays behind when the driver is ended: PR_SET_PDEATHSIG, SIGKILL.
    unsafe { prctl(1, 9) };
    rand::sim_set_source(draw);
    std::panic::set_hook(Box::new(|i| {
        let m = match (i.payload().downcast_ref::<&str>(), i.payload().downcast_ref::<String>()) {
            (Some(s), _) => s.to_string(),
            (_, Some(s)) => s.clone(),
            _ => "?".into(),
        };
        PANIC.with(|p| *p.borrow_mut() = m);
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = match line {
            Ok(l) => l,
            Err(_) => break,
        };
        if line.is_empty() {
            continue;
        }
        let case: Value = match serde_json::from_str(&line) {
            Ok(v) => v,
            Err(e) => {
                writeln!(out, "{}", json!({"bad": e.to_string()})).unwrap();
                out.flush().unwrap();
                continue;
            }
        };
        // Every case has a process of its own: nothing is left over from the one before.
        match unsafe { fork() } {
            0 => {
                unsafe { prctl(1, 9) };
                let r = run_case(&case);
                writeln!(out, "{}", r).unwrap();
                out.flush().unwrap();
                unsafe { _exit(0) }
            }
            pid if pid > 0 => {
                let mut status = 0;
                unsafe { waitpid(pid, &mut status, 0) };
                if status != 0 {
                    writeln!(out, "{}", json!({"dead": status})).unwrap();
                    out.flush().unwrap();
                }
            }
            _ => {
                writeln!(out, "{}", json!({"bad": "fork"})).unwrap();
                out.flush().unwrap();
            }
        }
    }
}
