//! The functions that the drivers define in contexts.  Every call is logged.
use std::cell::RefCell;
use std::sync::atomic::{AtomicIsize, Ordering};
use std::collections::HashMap;
use xprs::{xprs_fn, Context, Function, Parser, Xprs};

pub type Call = (&'static str, Vec<f64>, f64);

thread_local! {
    pub static LOG: RefCell<Vec<Call>> = const { RefCell::new(Vec::new()) };
}

/// Functions that exist: those made as closures carry one each.
struct Token;
static TOKENS: AtomicIsize = AtomicIsize::new(0);
impl Token {
    fn new() -> Self {
        TOKENS.fetch_add(1, Ordering::SeqCst);
        Self
    }
}
impl Drop for Token {
    fn drop(&mut self) {
        TOKENS.fetch_sub(1, Ordering::SeqCst);
    }
}
/// How many functions weren't freed (or more than once), since the last call.
pub fn take_tokens() -> isize {
    TOKENS.swap(0, Ordering::SeqCst)
}

fn log(s: &'static str, a: &[f64], r: f64) -> f64 {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        if l.len() < 64 {
            l.push((s, a.to_vec(), r));
        }
    });
    r
}

thread_local! {
    static INNER: (Parser<'static>, Xprs<'static>) = {
        let q = Function::new_dyn("q", |a: &[f64]| a[0] - 2.0 * a[1], Some(2));
        let parser = Parser::new_with_ctx(Context::default().with_fn(q).with_var("k", 3.0));
        let x = parser.parse(WITHIN).expect("an expression");
        (parser, x)
    };
}
const WITHIN: &str = "q(x*2,y)+max(y,q(k,1),x)";

/// A function may parse and evaluate too; nobody else sees that.
fn within() -> bool {
    let vars = HashMap::from([("x", 1.5), ("y", -4.0)]);
    INNER.with(|(parser, x)| {
        let right = 11.0 + 1.5;
        let own = parser.parse(WITHIN).ok().and_then(|x| x.eval(&vars).ok());
        let kept = x.eval(&vars).ok();
        let part = x.clone().simplify_for(("y", -4.0)).eval(&vars).ok();
        let b = x.clone().bind2("y", "x").ok().map(|f| f(-4.0, 1.5));
        parser.parse("q(x,").is_err() && [own, kept, part, b].iter().all(|v| *v == Some(right))
    })
}

/// Tells the number and the order of its arguments.
fn horner(a: &[f64]) -> f64 {
    if !within() {
        return log("within", a, f64::NAN);
    }
    log("h", a, a.iter().fold(a.len() as f64, |acc, x| acc * 8.0 + x))
}

fn count(a: &[f64]) -> f64 {
    log("c", a, a.len() as f64)
}

fn half(a: &[f64]) -> f64 {
    log("d", a, a.first().copied().unwrap_or(0.0) * 0.5)
}

fn boom(a: &[f64]) -> f64 {
    log("b", a, 0.0);
    panic!("boom")
}

fn boom_if_zero(a: &[f64]) -> f64 {
    if a.first().is_some_and(|x| *x == 0.0) {
        log("z", a, 0.0);
        panic!("boom")
    }
    log("z", a, a.first().copied().unwrap_or(0.0))
}

fn h0() -> f64 {
    horner(&[])
}
fn h1(a: f64) -> f64 {
    horner(&[a])
}
fn h2(a: f64, b: f64) -> f64 {
    horner(&[a, b])
}
fn h3(a: f64, b: f64, c: f64) -> f64 {
    horner(&[a, b, c])
}
fn h4(a: f64, b: f64, c: f64, d: f64) -> f64 {
    horner(&[a, b, c, d])
}
fn h5(a: f64, b: f64, c: f64, d: f64, e: f64) -> f64 {
    horner(&[a, b, c, d, e])
}
fn h6(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64) -> f64 {
    horner(&[a, b, c, d, e, f])
}
fn h7(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64) -> f64 {
    horner(&[a, b, c, d, e, f, g])
}
#[allow(clippy::too_many_arguments)]
fn h8(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64) -> f64 {
    horner(&[a, b, c, d, e, f, g, h])
}
#[allow(clippy::too_many_arguments)]
fn h9(a: f64, b: f64, c: f64, d: f64, e: f64, f: f64, g: f64, h: f64, i: f64) -> f64 {
    horner(&[a, b, c, d, e, f, g, h, i])
}

/// `how` is the way to make the function: `static` or `dyn` (the
/// constructors), `m` or `md` (the macro), `mn` (the macro, which names it).
pub fn make_function(name: &str, arity: &str, s: &str, how: &str) -> Function {
    let n: &'static str = Box::leak(name.to_owned().into_boxed_str());
    let arity: Option<u8> = u8::try_from(arity.parse::<i32>().expect("an arity")).ok();
    let f: fn(&[f64]) -> f64 = match s {
        "h" => horner,
        "c" => count,
        "d" => half,
        "b" => boom,
        "z" => boom_if_zero,
        other => panic!("unknown function {other}"),
    };
    macro_rules! made {
        ($($k:tt $h:ident)*) => {
            match (how, arity) {
                $(("m", Some($k)) if s == "h" => xprs_fn!(n, $h, $k),)*
                $(("md", Some($k)) if s == "h" => xprs_fn!(n, dyn $h, $k),)*
                $(("mdn", Some($k)) if s == "h" => xprs_fn!(dyn $h, $k),)*
                ("mn", None) if s == "h" => xprs_fn!(horner),
                ("mdn", None) if s == "h" => xprs_fn!(dyn horner),
                ("m", None) => xprs_fn!(n, f),
                ("md", None) => xprs_fn!(n, dyn f),
                ("dyn" | "md" | "mdn", _) => {
                    let token = Token::new();
                    let g = move |a: &[f64]| {
                        let _ = &token;
                        f(a)
                    };
                    Function::new_dyn(n, g, arity)
                },
                _ => Function::new_static(n, f, arity),
            }
        };
    }
    made!(0 h0 1 h1 2 h2 3 h3 4 h4 5 h5 6 h6 7 h7 8 h8 9 h9)
}
