//! Drives the public interface of xprs: reads operations from stdin, one per
//! line, performs them and writes what was observed, one JSON line per
//! operation.  It decides nothing: TLC compares the observations with the
//! specification (spec/Trace.tla).
//!
//! An operation is a line of fields separated by tabs: session, index, name,
//! arguments.  `\\`, `\t`, `\n`, `\r` are escaped; the elements of a list are
//! separated by U+001E.  Numbers are `nan` or 16 hexadecimal digits.
mod heap;
mod ops;

use std::collections::{HashMap, HashSet};
use std::io::{self, BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use std::sync::{Arc, Barrier};

use miette::Diagnostic;
use ops::{make_function, Call, LOG};
use xprs::{BindError, Context, Function, ParseError, Parser, Symbol, Xprs};

#[global_allocator]
static HEAP: heap::Watch = heap::Watch;


type X = Xprs<'static>;
type Env = Vec<(&'static str, f64)>;

// ------------------------------------------------------------------ encoding
fn leak(s: &str) -> &'static str {
    Box::leak(s.to_owned().into_boxed_str())
}

fn unescape(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            Some('t') => out.push('\t'),
            Some('n') => out.push('\n'),
            Some('r') => out.push('\r'),
            Some(o) => out.push(o),
            None => (),
        }
    }
    out
}

fn list(s: &str) -> Vec<&str> {
    if s.is_empty() {
        Vec::new()
    } else {
        s.split('\u{1e}').collect()
    }
}

fn num(s: &str) -> f64 {
    if s == "nan" {
        f64::NAN
    } else {
        f64::from_bits(u64::from_str_radix(s, 16).expect("a number"))
    }
}

fn hex(x: f64) -> String {
    if x.is_nan() {
        "\"nan\"".to_owned()
    } else {
        format!("\"{:016x}\"", x.to_bits())
    }
}

fn js(s: &str) -> String {
    let mut out = String::with_capacity(s.len() + 2);
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn arr<I: IntoIterator<Item = String>>(items: I) -> String {
    format!("[{}]", items.into_iter().collect::<Vec<_>>().join(","))
}

fn env(s: &str) -> Env {
    list(s)
        .chunks(2)
        .map(|c| (leak(c[0]), num(c[1])))
        .collect()
}

fn names(vars: &HashSet<&str>) -> String {
    let mut v: Vec<_> = vars.iter().copied().collect();
    v.sort_unstable();
    arr(v.into_iter().map(js))
}

fn calls() -> String {
    let log: Vec<Call> = LOG.with(|l| l.borrow_mut().drain(..).collect());
    arr(log.into_iter().map(|(s, a, r)| {
        format!("[{},{},{}]", js(s), arr(a.into_iter().map(hex)), hex(r))
    }))
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

const PANIC: &str = r#"{"k":"panic"}"#;

// -------------------------------------------------------------- observations
fn shown(x: &X) -> Option<String> {
    guarded(|| format!("{x}")).map(|s| format!("\"show\":{},\"vars\":{}", js(&s), names(&x.vars)))
}

fn parse_error(err: &ParseError, text: &str) -> String {
    let seen = guarded(|| {
        let labels: Vec<_> = err.labels().map_or_else(Vec::new, Iterator::collect);
        let (o, l) = labels
            .first()
            .map_or((0, 0), |l| (l.offset(), l.len()));
        let src = err.source_code().is_some_and(|src| {
            src.read_span(&(0, text.len()).into(), 0, 0)
                .is_ok_and(|c| c.data() == text.as_bytes())
        });
        // every way of showing the error works and tells what is wrong
        let msg = err.to_string();
        let debug = format!("{err:?}");
        let report = format!("{:?}", miette::Report::new(err.clone()));
        let help = err.help().map_or_else(String::new, |h| h.to_string());
        let rep = !debug.is_empty() && !report.is_empty();
        format!(
            "{{\"k\":\"err\",\"m\":{},\"off\":{o},\"len\":{l},\"n\":{},\"src\":{src},\"rep\":{rep},\"help\":{},\"hq\":{},\"hn\":{}",
            js(&msg),
            labels.len(),
            js(&help),
            // what the help quotes, and the numbers outside of the quotes
            arr(help.split('`').skip(1).step_by(2).map(js)),
            arr(help.split('`').step_by(2).flat_map(|t| t.split(|c: char| !c.is_ascii_digit()).filter(|d| !d.is_empty()).map(js)))
        )
    });
    match seen {
        Some(s) => format!("{s},\"calls\":{}}}", calls()),
        None => r#"{"k":"panic"}"#.to_owned(),
    }
}

fn eval_checked(x: &X, vars: &Env) -> Option<Result<f64, String>> {
    let map: HashMap<&str, f64> = vars.iter().copied().collect();
    guarded(|| x.eval(&map).map_err(|e| e.to_string()))
}

fn res(r: Option<Result<f64, String>>) -> String {
    match r {
        None => PANIC.to_owned(),
        Some(Err(m)) => format!("{{\"k\":\"err\",\"m\":{}}}", js(&m)),
        Some(Ok(v)) => format!("{{\"k\":\"ok\",\"v\":{}}}", hex(v)),
    }
}

fn eval(x: &X, vars: &Env) -> String {
    let _ = calls();
    match eval_checked(x, vars) {
        Some(Ok(v)) => {
            let log = calls();
            let map: HashMap<&str, f64> = vars.iter().copied().collect();
            let unchecked = guarded(|| x.eval_unchecked(&map));
            let ulog = calls();
            let mut more = unchecked.map_or_else(
                || ",\"u\":\"panic\"".to_owned(),
                |u| format!(",\"u\":{}", hex(u)),
            );
            if vars.is_empty() {
                let nv = guarded(|| x.eval_no_vars().map_err(|e| e.to_string()));
                let nvu = guarded(|| x.eval_no_vars_unchecked());
                more += &format!(
                    ",\"nv\":{},\"nvu\":{}",
                    match nv {
                        Some(Ok(v)) => hex(v),
                        Some(Err(_)) => "\"err\"".to_owned(),
                        None => "\"panic\"".to_owned(),
                    },
                    nvu.map_or_else(|| "\"panic\"".to_owned(), hex)
                );
                let _ = calls();
            }
            format!(
                "{{\"k\":\"ok\",\"v\":{}{more},\"calls\":{log},\"ucalls\":{ulog}}}",
                hex(v)
            )
        },
        r => {
            let s = res(r);
            format!("{},\"calls\":{}}}", &s[..s.len() - 1], calls())
        },
    }
}

/// Evaluates with everything, without each of the variables in turn, with
/// only the required variables, and with unrelated ones too.
fn probe(x: &X, vars: &Env) -> String {
    let mut required: Vec<&str> = x.vars.iter().copied().collect();
    required.sort_unstable();
    let full = res(eval_checked(x, vars));
    let only: Env = vars
        .iter()
        .copied()
        .filter(|v| required.contains(&v.0))
        .collect();
    let exact = res(eval_checked(x, &only));
    let mut more = vars.clone();
    more.push(("zz_unused", 1.0));
    let extra = res(eval_checked(x, &more));
    let without = required.iter().map(|n| {
        let rest: Env = vars.iter().copied().filter(|v| v.0 != *n).collect();
        format!("[{},{}]", js(n), res(eval_checked(x, &rest)))
    });
    let without = arr(without);
    let none = res(eval_checked(x, &Vec::new()));
    let _ = calls();
    format!(
        "{{\"k\":\"probe\",\"vars\":{},\"full\":{full},\"only\":{exact},\"extra\":{extra},\"none\":{none},\"without\":{without}}}",
        names(&x.vars)
    )
}

fn simplified(x: X, how: &str, binds: &Env) -> Option<X> {
    guarded(|| {
        let mut x = x;
        match how {
            "one" => {
                for &b in binds {
                    x = x.simplify_for(b);
                }
                x
            },
            "inplace" => {
                for &b in binds {
                    x.simplify_for_in_place(b);
                }
                x
            },
            "multi" => x.simplify_for_multiple(binds),
            _ => {
                x.simplify_for_multiple_in_place(binds);
                x
            },
        }
    })
}

fn bind_error(e: &BindError, own: &str) -> String {
    let (kind, text) = match e {
        BindError::OneVariable(s) => ("one", s.as_str()),
        BindError::MultipleVariables(s) => ("many", s.as_str()),
        _ => ("other", ""),
    };
    format!(
        "{{\"k\":\"err\",\"own\":{own},\"kind\":\"{kind}\",\"m\":{},\"names\":{}}}",
        js(&e.to_string()),
        arr(text.split(", ").map(js))
    )
}

type Bound = Box<dyn Fn(&[f64]) -> Result<f64, String> + Send + Sync>;

/// Binds the expression to the names with one of the `bind` functions.
fn bind(x: X, how: &str, n: &[&'static str]) -> Result<Bound, BindError> {
    macro_rules! fixed {
        ($f:ident, $($i:tt),+) => {{
            let f = x.$f($(n[$i]),+)?;
            Ok(Box::new(move |v: &[f64]| Ok(f($(v[$i]),+))))
        }};
    }
    macro_rules! array {
        ($k:tt) => {{
            let a: [&'static str; $k] = n.try_into().expect("a size");
            let f = x.bind_n(a)?;
            Ok(Box::new(move |v: &[f64]| {
                let v: [f64; $k] = v.try_into().expect("a size");
                Ok(f(v))
            }))
        }};
    }
    match (how, n.len()) {
        ("fixed", 1) => fixed!(bind, 0),
        ("fixed", 2) => fixed!(bind2, 0, 1),
        ("fixed", 3) => fixed!(bind3, 0, 1, 2),
        ("fixed", 4) => fixed!(bind4, 0, 1, 2, 3),
        ("fixed", 5) => fixed!(bind5, 0, 1, 2, 3, 4),
        ("fixed", 6) => fixed!(bind6, 0, 1, 2, 3, 4, 5),
        ("fixed", 7) => fixed!(bind7, 0, 1, 2, 3, 4, 5, 6),
        ("fixed", 8) => fixed!(bind8, 0, 1, 2, 3, 4, 5, 6, 7),
        ("fixed", 9) => fixed!(bind9, 0, 1, 2, 3, 4, 5, 6, 7, 8),
        ("array", 0) => array!(0),
        ("array", 1) => array!(1),
        ("array", 2) => array!(2),
        ("array", 3) => array!(3),
        ("array", 4) => array!(4),
        ("array", 5) => array!(5),
        ("array", 6) => array!(6),
        ("array", 9) => array!(9),
        ("array", 12) => array!(12),
        _ => {
            let n: &'static [&'static str] = Box::leak(n.to_vec().into_boxed_slice());
            let f = x.bind_n_runtime(n)?;
            Ok(Box::new(move |v: &[f64]| f(v).map_err(|e| e.to_string())))
        },
    }
}

/// The bound expression as a function of a context.
fn as_function(
    x: X,
    how: &str,
    ns: &[&'static str],
    name: &'static str,
    arity: Option<u8>,
) -> Result<Function, BindError> {
    Ok(match (how, ns.len()) {
        ("macro", 1) => {
            let f = x.bind(ns[0])?;
            xprs::xprs_fn!(name, dyn f, 1)
        },
        ("macro", 2) => {
            let f = x.bind2(ns[0], ns[1])?;
            xprs::xprs_fn!(name, dyn f, 2)
        },
        ("macro", 3) => {
            let f = x.bind3(ns[0], ns[1], ns[2])?;
            xprs::xprs_fn!(name, dyn f, 3)
        },
        ("fixed", 4) => {
            let f = x.bind4(ns[0], ns[1], ns[2], ns[3])?;
            xprs::xprs_fn!(name, dyn f, 4)
        },
        ("fixed", 5) => {
            let f = x.bind5(ns[0], ns[1], ns[2], ns[3], ns[4])?;
            xprs::xprs_fn!(name, dyn f, 5)
        },
        ("fixed", 6) => {
            let f = x.bind6(ns[0], ns[1], ns[2], ns[3], ns[4], ns[5])?;
            xprs::xprs_fn!(name, dyn f, 6)
        },
        ("fixed", 8) => {
            let f = x.bind8(
                ns[0], ns[1], ns[2], ns[3], ns[4], ns[5], ns[6], ns[7],
            )?;
            xprs::xprs_fn!(name, dyn f, 8)
        },
        ("fixed", 7) => {
            let f = x.bind7(ns[0], ns[1], ns[2], ns[3], ns[4], ns[5], ns[6])?;
            xprs::xprs_fn!(name, dyn f, 7)
        },
        ("fixed", 9) => {
            let f = x.bind9(
                ns[0], ns[1], ns[2], ns[3], ns[4], ns[5], ns[6], ns[7], ns[8],
            )?;
            xprs::xprs_fn!(name, dyn f, 9)
        },
        ("twice", _) => {
            // evaluates again with the same arguments: what it got is still there
            let ns: &'static [&'static str] = Box::leak(ns.to_vec().into_boxed_slice());
            let f = x.bind_n_runtime(ns)?;
            let g = move |a: &[f64]| {
                let before = LOG.with(|l| l.borrow().len());
                let _ = f(a);
                LOG.with(|l| l.borrow_mut().truncate(before));
                f(a).unwrap()
            };
            Function::new_dyn(name, g, arity)
        },
        ("array", 1) => {
            let f = x.bind_n([ns[0]])?;
            Function::new_dyn(name, move |a: &[f64]| f([a[0]]), arity)
        },
        ("array", 3) => {
            let f = x.bind_n([ns[0], ns[1], ns[2]])?;
            Function::new_dyn(name, move |a: &[f64]| f([a[0], a[1], a[2]]), arity)
        },
        ("array", 2) => {
            let f = x.bind_n([ns[0], ns[1]])?;
            Function::new_dyn(name, move |a: &[f64]| f([a[0], a[1]]), arity)
        },
        _ => {
            let ns: &'static [&'static str] = Box::leak(ns.to_vec().into_boxed_slice());
            let f = x.bind_n_runtime(ns)?;
            Function::new_dyn(name, move |a: &[f64]| f(a).unwrap(), arity)
        },
    })
}

// -------------------------------------------------------------------- session
#[derive(Default)]
struct Session {
    contexts: HashMap<String, Context<'static>>,
    parsers: HashMap<String, Parser<'static>>,
    exprs: HashMap<String, X>,
    /// Where texts are put that are parsed from the same place.
    place: Vec<u8>,
}

fn symbol(fields: &[&str]) -> (&'static str, Symbol) {
    // key, then `v` and a number or `f` and the fields of a function
    let key = leak(fields[0]);
    let sym = if fields[1] == "v" {
        Symbol::from(num(fields[2]))
    } else {
        Symbol::from(make_function(fields[2], fields[3], fields[4], fields[5]))
    };
    (key, sym)
}

impl Session {
    fn context(&mut self, target: &str) -> &mut Context<'static> {
        match target.split_once(':') {
            Some(("p", id)) => self.parsers.get_mut(id).expect("a parser").ctx_mut(),
            Some((_, id)) => self.contexts.get_mut(id).expect("a context"),
            None => panic!("target"),
        }
    }

    /// Changes a context with a `set_*` (in place) or a `with_*` function.
    fn change(
        &mut self,
        target: &str,
        via: &str,
        set: impl FnOnce(&mut Context<'static>),
        with: impl FnOnce(Context<'static>) -> Context<'static>,
    ) -> String {
        let ctx = self.context(target);
        if via == "set" {
            set(ctx);
        } else {
            let old = std::mem::take(ctx);
            *ctx = with(old);
        }
        r#"{"k":"done"}"#.to_owned()
    }

    fn keep(&mut self, id: &str, x: Option<X>) -> String {
        self.exprs.remove(id);
        match x {
            None => PANIC.to_owned(),
            Some(x) => match shown(&x) {
                None => PANIC.to_owned(),
                Some(s) => {
                    let r = format!("{{\"k\":\"ok\",{s},\"calls\":{}}}", calls());
                    self.exprs.insert(id.to_owned(), x);
                    r
                },
            },
        }
    }

    fn parse(&mut self, p: &str, x: &str, text: &'static str, via: &str) -> String {
        let _ = calls();
        self.exprs.remove(x);
        let out = if via == "try_from" {
            guarded(|| X::try_from(text))
        } else {
            let parser = &self.parsers[p];
            guarded(|| parser.parse(text))
        };
        match out {
            None => {
                let _ = calls();
                PANIC.to_owned()
            },
            Some(Err(e)) => parse_error(&e, text),
            Some(Ok(e)) => self.keep(x, Some(e)),
        }
    }

    fn step(&mut self, op: &str, a: &[&str]) -> String {
        const NOEXPR: &str = r#"{"k":"noexpr"}"#;
        macro_rules! expr {
            ($id:expr) => {
                match self.exprs.get($id) {
                    Some(x) => x,
                    None => return NOEXPR.to_owned(),
                }
            };
        }
        match op {
            "ctx" => {
                self.contexts.insert(a[0].to_owned(), Context::default());
                r#"{"k":"done"}"#.to_owned()
            },
            "var" => {
                let (n, v) = (leak(a[2]), num(a[3]));
                self.change(a[0], a[1], |c| c.set_var(n, v), |c| c.with_var(n, v))
            },
            "fn" => {
                let f = make_function(a[2], a[3], a[4], a[5]);
                let g = f.clone();
                self.change(a[0], a[1], |c| c.set_fn(f), |c| c.with_fn(g))
            },
            "declare" => {
                let set: HashSet<&'static str> = list(a[2]).into_iter().map(leak).collect();
                let other = set.clone();
                self.change(
                    a[0],
                    a[1],
                    |c| c.set_expected_vars(set),
                    |c| c.with_expected_vars(other),
                )
            },
            "symbols" => {
                let map: HashMap<&'static str, Symbol> =
                    a[1..].iter().map(|s| symbol(&list(s))).collect();
                self.change(a[0], "with", |_| (), |c| c.with_symbols(map))
            },
            "cclone" => {
                let c = match a[1].split_once(':') {
                    Some(("p", id)) => {
                        // `ctx` borrows the parser: the copy goes through it
                        self.parsers[id].clone().ctx_mut().clone()
                    },
                    Some((_, id)) => self.contexts[id].clone(),
                    None => panic!("target"),
                };
                // over one that is there, too
                match self.contexts.get_mut(a[0]) {
                    Some(old) => old.clone_from(&c),
                    None => {
                        self.contexts.insert(a[0].to_owned(), c);
                    },
                }
                r#"{"k":"done"}"#.to_owned()
            },
            "parser" => {
                let p = if a[1].is_empty() {
                    Parser::default()
                } else {
                    Parser::new_with_ctx(self.contexts[a[1]].clone())
                };
                self.parsers.insert(a[0].to_owned(), p);
                r#"{"k":"done"}"#.to_owned()
            },
            "pclone" => {
                let p = self.parsers[a[1]].clone();
                match self.parsers.get_mut(a[0]) {
                    Some(old) => old.clone_from(&p),
                    None => {
                        self.parsers.insert(a[0].to_owned(), p);
                    },
                }
                r#"{"k":"done"}"#.to_owned()
            },
            "get" => {
                let seen = match a[0].split_once(':') {
                    Some(("p", id)) => self.parsers[id].ctx().get(a[1]).cloned(),
                    _ => self.context(a[0]).get(a[1]).cloned(),
                };
                match seen {
                    None => r#"{"k":"none"}"#.to_owned(),
                    Some(Symbol::Variable(v)) => format!("{{\"k\":\"var\",\"v\":{}}}", hex(v)),
                    Some(Symbol::Function(f)) => format!(
                        "{{\"k\":\"fn\",\"n\":{},\"a\":{}}}",
                        js(f.name),
                        f.nb_args.map_or(-1, i32::from)
                    ),
                    Some(_) => r#"{"k":"other"}"#.to_owned(),
                }
            },
            "getexp" => {
                let seen = match a[0].split_once(':') {
                    Some(("p", id)) => self.parsers[id].ctx().get_expected_vars().map(names),
                    _ => self.context(a[0]).get_expected_vars().map(names),
                };
                seen.map_or_else(
                    || r#"{"k":"none"}"#.to_owned(),
                    |n| format!("{{\"k\":\"set\",\"names\":{n}}}"),
                )
            },
            "ctxeq" => {
                let (x, y) = (self.context(a[0]).clone(), self.context(a[1]).clone());
                let own = *self.context(a[0]) == x;
                // parsers are compared by their contexts
                let p = match (a[0].strip_prefix("p:"), a[1].strip_prefix("p:")) {
                    (Some(p), Some(q)) => {
                        let (p, q) = (&self.parsers[p], &self.parsers[q]);
                        (p == q) == (x == y) && (p == q) != (p != q)
                    },
                    _ => true,
                };
                format!(
                    "{{\"k\":\"bool\",\"b\":{},\"c\":{},\"self\":{own},\"ne\":{},\"p\":{p}}}",
                    x == y,
                    y == x,
                    x != y
                )
            },
            "parse" if a[3] == "reuse" => {
                // (the expression that was there is gone, and has no copies)
                self.exprs.remove(a[1]);
                let text = a[2].as_bytes();
                if self.place.capacity() < text.len() + 1 {
                    self.place = Vec::with_capacity(65536.max(text.len() + 1));
                }
                self.place.clear();
                self.place.extend_from_slice(text);
                let bytes: &'static [u8] =
                    unsafe { std::slice::from_raw_parts(self.place.as_ptr(), text.len()) };
                let text = std::str::from_utf8(bytes).expect("a text");
                self.parse(a[0], a[1], text, a[3])
            },
            "parse" => self.parse(a[0], a[1], leak(a[2]), a[3]),
            "reparse" => {
                if !self.exprs.contains_key(a[1]) {
                    self.exprs.remove(a[2]);
                    return NOEXPR.to_owned();
                }
                let Some(text) = guarded(|| format!("{}", self.exprs[a[1]])) else {
                    return if self.exprs.contains_key(a[1]) { PANIC } else { NOEXPR }.to_owned();
                };
                let text = leak(&text);
                self.parse(a[0], a[2], text, "parse")
            },
            "eval" => eval(expr!(a[0]), &env(a[1])),
            "probe" => probe(expr!(a[0]), &env(a[1])),
            "show" => {
                let x = expr!(a[0]);
                shown(x).map_or_else(
                    || PANIC.to_owned(),
                    |s| format!("{{\"k\":\"ok\",{s},\"calls\":[]}}"),
                )
            },
            "simp" | "simp4" | "clone" if !self.exprs.contains_key(a[0]) => {
                self.exprs.remove(a[1]);
                NOEXPR.to_owned()
            },
            "simp" => {
                let x = expr!(a[0]).clone();
                let _ = calls();
                let y = simplified(x, a[2], &env(a[3]));
                self.keep(a[1], y)
            },
            "simpself" => {
                // in place, and what a panic leaves behind stays
                let Some(x) = self.exprs.get_mut(a[0]) else {
                    return NOEXPR.to_owned();
                };
                let _ = calls();
                let b = env(a[2]);
                let done = guarded(|| {
                    if a[1] == "inplace" {
                        for &b in &b {
                            x.simplify_for_in_place(b);
                        }
                    } else {
                        x.simplify_for_multiple_in_place(&b);
                    }
                });
                let log = calls();
                match (done, shown(x)) {
                    (Some(()), Some(s)) => format!("{{\"k\":\"ok\",{s},\"calls\":{log}}}"),
                    _ => PANIC.to_owned(),
                }
            },
            "simp4" => {
                let x = expr!(a[0]).clone();
                let b = env(a[2]);
                let mut all = Vec::new();
                for how in ["one", "inplace", "multi", "multiinplace"] {
                    let y = simplified(x.clone(), how, &b);
                    all.push(y.as_ref().and_then(shown).map_or_else(
                        || PANIC.to_owned(),
                        |s| format!("{{\"k\":\"ok\",{s}}}"),
                    ));
                    if how == "multi" {
                        match y {
                            Some(y) => self.exprs.insert(a[1].to_owned(), y),
                            None => self.exprs.remove(a[1]),
                        };
                    }
                }
                let _ = calls();
                format!("{{\"k\":\"all\",\"rs\":{}}}", arr(all))
            },
            "clone" => {
                let x = expr!(a[0]).clone();
                let x = match self.exprs.remove(a[1]) {
                    Some(mut old) => {
                        old.clone_from(&x);
                        old
                    },
                    None => x,
                };
                self.keep(a[1], Some(x))
            },
            "eq" => {
                let (x, y) = (expr!(a[0]), expr!(a[1]));
                match guarded(|| (x == y, y == x, x == &x.clone(), x != y)) {
                    None => PANIC.to_owned(),
                    Some((b, c, s, n)) => format!(
                        "{{\"k\":\"bool\",\"b\":{b},\"c\":{c},\"self\":{s},\"ne\":{n}}}"
                    ),
                }
            },
            "bind" => {
                let x = expr!(a[0]).clone();
                let own = names(&x.vars);
                let ns: Vec<&'static str> = list(a[2]).into_iter().map(leak).collect();
                let _ = calls();
                match guarded(|| bind(x, a[1], &ns)) {
                    None => PANIC.to_owned(),
                    Some(Err(e)) => bind_error(&e, &own),
                    Some(Ok(f)) => {
                        let rs = a[3..].iter().map(|vals| {
                            let vals: Vec<f64> = list(vals).into_iter().map(num).collect();
                            res(guarded(|| f(&vals)))
                        });
                        let rs = arr(rs);
                        format!("{{\"k\":\"bound\",\"own\":{own},\"rs\":{rs},\"calls\":{}}}", calls())
                    },
                }
            },
            "asfn" => {
                let x = expr!(a[0]).clone();
                let ns: Vec<&'static str> = list(a[4]).into_iter().map(leak).collect();
                let arity = a[5].parse::<i32>().expect("an arity");
                let arity = u8::try_from(arity).ok();
                match guarded(|| as_function(x, a[1], &ns, leak(a[3]), arity)) {
                    None => PANIC.to_owned(),
                    Some(Err(e)) => bind_error(&e, "[]"),
                    Some(Ok(f)) => {
                        self.context(a[2]).set_fn(f);
                        r#"{"k":"done"}"#.to_owned()
                    },
                }
            },
            "par" => self.par(a),
            "end" => {
                self.exprs.clear();
                self.parsers.clear();
                self.contexts.clear();
                format!(
                    "{{\"k\":\"heap\",\"bad\":{},\"kept\":{}}}",
                    heap::take_bad(),
                    ops::take_tokens()
                )
            },
            other => panic!("unknown operation {other}"),
        }
    }

    /// Several threads parse, evaluate and simplify the same things at once.
    fn par(&mut self, a: &[&str]) -> String {
        let parser = self.parsers[a[0]].clone();
        let threads: usize = a[1].parse().expect("a number");
        let rounds: usize = a[2].parse().expect("a number");
        // text, assignment, simplification
        let jobs: Vec<(&'static str, Env, Env)> = a[3..]
            .chunks(3)
            .map(|c| (leak(c[0]), env(c[1]), env(c[2])))
            .collect();
        let jobs = Arc::new(jobs);
        let parser = Arc::new(parser);
        // parsed once, used by all the threads (and all the jobs with this
        // text), and bound to the names
        let first: Vec<usize> = jobs
            .iter()
            .map(|j| jobs.iter().position(|i| i.0 == j.0).expect("a job"))
            .collect();
        let shared: Vec<Option<X>> = jobs
            .iter()
            .map(|j| guarded(|| parser.parse(j.0).ok()).flatten())
            .collect();
        let bound: Vec<Option<Bound>> = jobs
            .iter()
            .zip(&shared)
            .enumerate()
            .map(|(k, (j, x))| {
                let names: Vec<&'static str> = j.1.iter().map(|v| v.0).collect();
                let how = ["fixed", "array", "rt"][k % 3];
                let x = x.clone()?;
                guarded(|| bind(x, how, &names).ok()).flatten()
            })
            .collect();
        // what it looks like, and whether it's equal to another one
        let look = |x: &X| {
            let other = guarded(|| parser.parse(jobs[0].0).ok()).flatten();
            guarded(|| (format!("{x}"), other.as_ref() == Some(x), *x == x.clone()))
        };
        let looks: Vec<_> = shared.iter().map(|x| x.as_ref().and_then(look)).collect();
        let all_shared = Arc::new((first, shared, bound, looks));
        let barrier = Arc::new(Barrier::new(threads));
        let handles: Vec<_> = (0..threads)
            .map(|t| {
                let (jobs, parser, all_shared, barrier) =
                    (jobs.clone(), parser.clone(), all_shared.clone(), barrier.clone());
                std::thread::spawn(move || {
                    let (first, shared, bound, looks) = &*all_shared;
                    let mut seen: Vec<HashSet<String>> = vec![HashSet::new(); jobs.len()];
                    barrier.wait();
                    for r in 0..rounds {
                        for k in 0..jobs.len() {
                            let j = (k + t * (r % 3 + 1)) % jobs.len();
                            let (text, vals, binds) = &jobs[j];
                            let one = |x: &X| {
                                let v = res(eval_checked(x, vals));
                                let mut b: Env = vals.clone();
                                b.retain(|v| !binds.iter().any(|w| w.0 == v.0));
                                let y = simplified(x.clone(), "multi", binds);
                                let w = y.map_or_else(
                                    || PANIC.to_owned(),
                                    |y| res(eval_checked(&y, &b)),
                                );
                                (v, w)
                            };
                            let record = |(v, w): &(String, String)| {
                                format!("{{\"k\":\"ok\",\"full\":{v},\"part\":{w}}}")
                            };
                            let own = match guarded(|| parser.parse(text)) {
                                None => PANIC.to_owned(),
                                Some(Err(e)) => {
                                    format!("{{\"k\":\"err\",\"m\":{}}}", js(&e.to_string()))
                                },
                                Some(Ok(x)) => record(&one(&x)),
                            };
                            seen[j].insert(own);
                            let Some(x) = &shared[first[j]] else { continue };
                            let its = one(x);
                            let looks_now = {
                                let other = guarded(|| parser.parse(jobs[0].0).ok()).flatten();
                                guarded(|| {
                                    (format!("{x}"), other.as_ref() == Some(x), *x == x.clone())
                                })
                            };
                            if looks_now != looks[first[j]] {
                                seen[j].insert(r#"{"k":"look"}"#.to_owned());
                            }
                            if let Some(f) = &bound[first[j]] {
                                let same = jobs[first[j]].1.iter().map(|v| v.0);
                                if same.eq(vals.iter().map(|v| v.0)) {
                                    let vs: Vec<f64> = vals.iter().map(|v| v.1).collect();
                                    let values: HashSet<_> = (0..40)
                                        .map(|_| guarded(|| f(&vs)).map(|v| v.map(f64::to_bits)))
                                        .collect();
                                    for v in values {
                                        let v = res(v.map(|v| v.map(f64::from_bits)));
                                        seen[j].insert(record(&(v, its.1.clone())));
                                    }
                                }
                            }
                            seen[j].insert(record(&its));
                        }
                    }
                    ops::LOG.with(|l| l.borrow_mut().clear());
                    seen
                })
            })
            .collect();
        let mut all: Vec<HashSet<String>> = vec![HashSet::new(); jobs.len()];
        for h in handles {
            match h.join() {
                Ok(seen) => {
                    for (a, s) in all.iter_mut().zip(seen) {
                        a.extend(s);
                    }
                },
                Err(_) => all.iter_mut().for_each(|a| {
                    a.insert(PANIC.to_owned());
                }),
            }
        }
        let rs = arr(all.into_iter().map(|s| {
            let mut v: Vec<_> = s.into_iter().collect();
            v.sort();
            arr(v)
        }));
        let _ = calls();
        format!("{{\"k\":\"par\",\"rs\":{rs}}}")
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut session = Session::default();
    let mut current = String::new();
    let mut out = io::stdout().lock();
    for line in io::stdin().lock().lines() {
        let Ok(line) = line else { break };
        let fields: Vec<String> = line.split('\t').map(unescape).collect();
        let f: Vec<&str> = fields.iter().map(String::as_str).collect();
        if f[0] != current {
            current = f[0].to_owned();
            session = Session::default();
            let _ = (heap::take_bad(), ops::take_tokens());
        }
        let (op, times) = f[2].split_once('*').unwrap_or((f[2], "1"));
        let times: usize = times.parse().expect("a number");
        let mut r = session.step(op, &f[3..]);
        // repeated: until it isn't as before
        for _ in 1..times {
            let again = session.step(op, &f[3..]);
            let same = r == again;
            r = again;
            if !same {
                break;
            }
        }
        let _ = writeln!(out, "{}\t{}\t{r}", f[0], f[1]);
        let _ = out.flush();
    }
}
