//! The standard library's mathematical functions, one request per line:
//! `name hex hex ...` (`nan` or the 16 hexadecimal digits of the bits).
//! `text hex` is the text that `Display` gives.  It knows nothing of xprs.
use std::io::{self, BufRead, Write};

extern "C" {
    fn tgamma(x: f64) -> f64;
}

fn num(s: &str) -> f64 {
    if s == "nan" {
        f64::NAN
    } else {
        f64::from_bits(u64::from_str_radix(s, 16).unwrap())
    }
}

fn hex(x: f64) -> String {
    if x.is_nan() {
        "nan".to_owned()
    } else {
        format!("{:016x}", x.to_bits())
    }
}

fn call(name: &str, a: &[f64]) -> Option<f64> {
    Some(match (name, a) {
        ("pow", &[x, y]) => x.powf(y),
        ("atan2", &[x, y]) => x.atan2(y),
        ("logn", &[x, y]) => x.log(y),
        ("hypot", &[x, y]) => x.hypot(y),
        ("sum", _) => a.iter().sum(),
        ("mean", _) => a.iter().sum::<f64>() / a.len() as f64,
        ("min", _) => a.iter().fold(f64::INFINITY, |m, &x| m.min(x)),
        ("max", _) => a.iter().fold(f64::NEG_INFINITY, |m, &x| m.max(x)),
        ("pi", []) => std::f64::consts::PI,
        ("e", []) => std::f64::consts::E,
        (_, &[x]) => match name {
            "sin" => x.sin(),
            "sinh" => x.sinh(),
            "asin" => x.asin(),
            "asinh" => x.asinh(),
            "cos" => x.cos(),
            "cosh" => x.cosh(),
            "acos" => x.acos(),
            "acosh" => x.acosh(),
            "tan" => x.tan(),
            "tanh" => x.tanh(),
            "atan" => x.atan(),
            "atanh" => x.atanh(),
            "ln" => x.ln(),
            "log" => x.log10(),
            "sqrt" => x.sqrt(),
            "cbrt" => x.cbrt(),
            "exp" => x.exp(),
            "abs" => x.abs(),
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "round" => x.round(),
            "trunc" => x.trunc(),
            "recip" => x.recip(),
            "fract" => x.fract(),
            "gamma" => unsafe { tgamma(x) },
            _ => return None,
        },
        _ => return None,
    })
}

fn main() {
    let mut out = io::stdout().lock();
    for line in io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let mut words = line.split(' ');
        let name = words.next().unwrap_or("");
        let args: Vec<f64> = words.map(num).collect();
        let res = if name == "text" {
            format!("{}", args[0])
        } else {
            call(name, &args).map_or_else(|| "?".to_owned(), hex)
        };
        writeln!(out, "{res}").unwrap();
        out.flush().unwrap();
    }
}
