//! Observation of decimals and of outcomes.  Nothing here judges anything: it turns what the
//! library shows into numbers for the trace.

use fxd::{Error, FixedDecimal};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const OK: u8 = 0;
pub const PANIC: u8 = 9;

pub fn code(e: &Error) -> u8 {
    match e {
        Error::ConversionSyntax => 1,
        Error::DivisionByZero => 2,
        Error::Overflow => 3,
        Error::ExceedsConversionTargetRange => 4,
    }
}

/// runs an operation; a panic is an outcome
pub fn run<T>(f: impl FnOnce() -> Result<T, Error>) -> (u8, Option<T>) {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => (OK, Some(v)),
        Ok(Err(e)) => (code(&e), None),
        Err(_) => (PANIC, None),
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Obs {
    pub neg: bool,
    pub digits: Vec<u8>, // coefficient, most significant first, no leading zeros
    pub f: i64,
    pub s: bool,
    pub z: bool,
    pub p: i64,
    pub iu: i64,
    pub fu: i64,
    pub w: bool,      // digits stored beyond the scale
    pub broken: bool, // not a decimal at all (units out of range, too many groups, unreadable)
}

/// true when decimals can be read through their Debug form (decided by `calibrate`)
static RAW: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn raw_on() -> bool {
    RAW.load(std::sync::atomic::Ordering::Relaxed)
}

fn strip(d: Vec<u8>) -> Vec<u8> {
    let k = d.iter().position(|x| *x != 0).unwrap_or(d.len());
    d[k..].to_vec()
}

struct Read {
    neg: bool,
    digits: Vec<u8>,
    f: i64,
    w: bool,
    broken: bool,
}

fn raw(fd: &FixedDecimal) -> Option<Read> {
    let mut s = String::new();
    write!(s, "{:?}", fd).ok()?;
    let num = |key: &str| -> Option<i64> {
        let at = s.find(key)? + key.len();
        let end = s[at..].find(|c: char| c != '-' && !c.is_ascii_digit())? + at;
        s[at..end].parse().ok()
    };
    let intg = num("intg: ")?;
    let frac = num("frac: ")?;
    let at = s.find("lsu: [")? + 6;
    let end = s[at..].find(']')? + at;
    let mut units = vec![];
    for u in s[at..end].split(", ") {
        units.push(u.parse::<i64>().ok()?);
    }
    if units.len() != 9 {
        return None;
    }
    let neg = intg & 0x80 != 0;
    let p = intg & 0x7f;
    if frac < 0 || (p + 8) / 9 + (frac + 8) / 9 > 9 {
        return Some(Read { neg, digits: vec![], f: 0, w: false, broken: true });
    }
    let (iu, fu) = (((p + 8) / 9) as usize, ((frac + 8) / 9) as usize);
    let mut w = false;
    let mut broken = false;
    let mut digits = vec![];
    for u in units[..(iu + fu).min(9)].iter().rev() {
        let mut v = *u;
        if !(0..1_000_000_000).contains(&v) {
            broken = true;
            v = v.rem_euclid(1_000_000_000);
        }
        for k in (0..9).rev() {
            digits.push((v / 10i64.pow(k) % 10) as u8);
        }
    }
    let extra = fu * 9 - frac as usize;
    if digits.len() >= extra {
        let tail = digits.split_off(digits.len() - extra);
        w |= tail.iter().any(|d| *d != 0);
    }
    Some(Read { neg, digits: strip(digits), f: frac, w, broken })
}

fn text(fd: &FixedDecimal) -> Read {
    let t = fd.to_string(-1);
    let b = t.as_bytes();
    let neg = b.first() == Some(&b'-');
    let mut w = false;
    let mut f = 0i64;
    let mut dot = false;
    let mut digits = vec![];
    for c in &b[neg as usize..] {
        match c {
            b'0'..=b'9' => {
                digits.push(c - b'0');
                f += dot as i64;
            }
            b'.' if !dot => dot = true,
            _ => w = true,
        }
    }
    let digits = strip(digits);
    let broken = w || digits.len() > 81 || f != fd.frac() as i64;
    Read { neg, digits, f, w: false, broken }
}

pub fn observe(fd: &FixedDecimal) -> Obs {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let v = if raw_on() { raw(fd) } else { None };
        let v = v.unwrap_or_else(|| text(fd));
        let mut o = Obs {
            neg: v.neg,
            digits: v.digits,
            f: v.f,
            s: fd.is_neg(),
            z: fd.is_zero(),
            p: fd.intg() as i64,
            iu: fd.intg_units() as i64,
            fu: fd.frac_units() as i64,
            w: v.w,
            broken: v.broken,
        };
        if o.broken {
            // a number that no operation can rightly produce
            o.digits = vec![9; 99];
            o.f = 0;
        }
        o
    }));
    r.unwrap_or(Obs { neg: false, digits: vec![9; 99], f: 0, s: false, z: false, p: 1, iu: 1, fu: 0, w: false, broken: true })
}

/// The Debug form is used only if it shows the expected number for a set of converted integers
/// and for some parsed decimals.
pub fn calibrate() {
    let r = catch_unwind(|| {
        let mut good = true;
        for v in [1u64, 7, 999_999_999, 1_000_000_000, 123_456_789_012_345_678, u64::MAX] {
            match raw(&FixedDecimal::from(v)) {
                Some(Read { neg, digits: d, f, w, .. }) => {
                    let want: Vec<u8> = v.to_string().bytes().map(|b| b - b'0').collect();
                    good &= !neg && d == want && f == 0 && !w;
                }
                None => good = false,
            }
        }
        for (t, want, nf) in [("-12.5", "125", 1), ("1234567890.0123456789", "12345678900123456789", 10)] {
            match t.parse::<FixedDecimal>().ok().and_then(|d| raw(&d)) {
                Some(Read { neg, digits: d, f, w, .. }) => {
                    let want: Vec<u8> = want.bytes().map(|b| b - b'0').collect();
                    good &= neg == t.starts_with('-') && d == want && f == nf && !w;
                }
                None => good = false,
            }
        }
        good
    });
    RAW.store(r.unwrap_or(false), std::sync::atomic::Ordering::Relaxed);
}

/// base-10^4 limbs, least significant first
pub fn limbs(digits: &[u8], out: &mut String) {
    out.push('[');
    let mut end = digits.len();
    let mut first = true;
    while end > 0 {
        let start = end.saturating_sub(4);
        let v = digits[start..end].iter().fold(0u32, |a, d| a * 10 + *d as u32);
        if !first {
            out.push(',');
        }
        first = false;
        write!(out, "{}", v).unwrap();
        end = start;
    }
    out.push(']');
}

pub fn write_obs(o: &Obs, out: &mut String) {
    write!(out, "{{\"neg\":{},\"c\":", o.neg).unwrap();
    limbs(&o.digits, out);
    write!(
        out,
        ",\"f\":{},\"s\":{},\"z\":{},\"p\":{},\"iu\":{},\"fu\":{}",
        o.f, o.s, o.z, o.p, o.iu, o.fu
    )
    .unwrap();
    if o.w || o.broken {
        out.push_str(",\"w\":true");
    }
    out.push('}');
}
