//! The machine under observation: registers of decimals and one method per public operation.
//! Every method performs the operation on the real library and appends one event to the trace.

use crate::obs::*;
use fxd::FixedDecimal;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::fmt::Write;
use std::hash::{Hash, Hasher};

pub const NR: usize = 8;
pub const OPS: [&str; 5] = ["add", "sub", "mul", "div", "rem"];

/// what extra observations to record with an operation
#[derive(Clone, Copy, Default)]
pub struct Extra {
    pub fresh: bool,   // same operation into a fresh zero
    pub oper: bool,    // operator form
    pub after: bool,   // operands afterwards
    pub remade: u8,    // operands remade by other means (0: no; else recipe selector)
    pub mirror: bool,  // operands exchanged, and negated
}

/// the negation of a decimal
fn opposite(fd: &FixedDecimal) -> FixedDecimal {
    let mut v = fd.clone();
    if fd.is_neg() {
        v.set_pos()
    } else {
        v.set_neg()
    }
    v
}

/// a call of the library, to be repeated later or elsewhere
#[derive(Clone)]
pub enum Call {
    Arith { o: usize, a: FixedDecimal, b: FixedDecimal, d: FixedDecimal, n: usize },
    Round { a: FixedDecimal, n: isize },
    Print { a: FixedDecimal, n: isize },
    Parse { t: Vec<u8>, d: FixedDecimal, reset: bool },
    Cmp { a: FixedDecimal, b: FixedDecimal },
    Hash { a: FixedDecimal },
    ToInt { a: FixedDecimal, signed: bool },
    FromI(i64),
    FromU(u64),
}

impl Call {
    /// the answer, in the words of the event that the first call left
    fn answer(&self) -> String {
        let mut s = String::new();
        let dec = |x: u8, v: &FixedDecimal| {
            let mut s = format!("\"x\":{}", x);
            // after an overflow the destination's content is unspecified
            if x == OK || x == 1 || x == 2 {
                s.push_str(",\"r\":");
                write_obs(&observe(v), &mut s);
            }
            s
        };
        match self {
            Call::Arith { o, a, b, d, n } => {
                let mut v = d.clone();
                let (x, _) = run(|| fallible(*o, a, b, &mut v, *n));
                return dec(x, &v);
            }
            Call::Round { a, n } => {
                let mut v = a.clone();
                let (x, _) = run(|| {
                    v.round(*n);
                    Ok(())
                });
                return dec(x, &v);
            }
            Call::Parse { t, d, reset } => {
                let mut v = d.clone();
                let (x, _) = run(|| v.from_bytes_str(t, *reset));
                return dec(x, &v);
            }
            Call::FromI(i) => {
                let (x, v) = run(|| Ok(FixedDecimal::from(*i)));
                return dec(x, &v.unwrap_or_else(FixedDecimal::zero));
            }
            Call::FromU(i) => {
                let (x, v) = run(|| Ok(FixedDecimal::from(*i)));
                return dec(x, &v.unwrap_or_else(FixedDecimal::zero));
            }
            Call::Print { a, n } => {
                let (x, t) = run(|| Ok(a.to_string(*n).into_bytes()));
                write!(s, "\"x\":{},\"t\":", x).unwrap();
                write_bytes(&t.unwrap_or_default(), &mut s);
            }
            Call::Cmp { a, b } => {
                let (x, k) = run(|| Ok(ord(a.cmp(b))));
                write!(s, "\"x\":{},\"k\":{}", x, k.unwrap_or(0)).unwrap();
            }
            Call::Hash { a } => {
                let mut h = Bytes(vec![]);
                let (x, _) = run(|| {
                    a.hash(&mut h);
                    Ok(())
                });
                write!(s, "\"x\":{},\"hb\":", x).unwrap();
                write_bytes(&h.0, &mut s);
            }
            Call::ToInt { a, signed } => {
                let (x, t) = to_int_text(a, *signed);
                write!(s, "\"x\":{}", x).unwrap();
                write_int(&t.unwrap_or_else(|| "0".into()), &mut s);
            }
        }
        s
    }
}

fn to_int_text(v: &FixedDecimal, signed: bool) -> (u8, Option<String>) {
    run(|| if signed { v.as_i64().map(|i| i.to_string()) } else { v.as_u64().map(|i| i.to_string()) })
}

fn write_int(text: &str, out: &mut String) {
    let neg = text.starts_with('-');
    let d: Vec<u8> = text.trim_start_matches('-').bytes().map(|b| b - b'0').collect();
    let d = if d == [0] { vec![] } else { d };
    write!(out, ",\"kn\":{},\"k\":", neg).unwrap();
    limbs(&d, out);
}

pub struct Machine {
    /// calls are kept to be repeated at the end of the history
    pub keep: bool,
    calls: Vec<(usize, Call)>,
    pub regs: Vec<FixedDecimal>,
    /// may be used as an operand (false after an operation left an unspecified content)
    pub usable: Vec<bool>,
    pub out: String,
    pub events: usize,
    /// journal mode: print each event's head before executing it
    pub on_event: Option<Box<dyn FnMut(&str)>>,
}

struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}

pub fn fallible(o: usize, a: &FixedDecimal, b: &FixedDecimal, d: &mut FixedDecimal, n: usize) -> fxd::Result<()> {
    match o {
        0 => FixedDecimal::add_to(a, b, d),
        1 => FixedDecimal::sub_to(a, b, d),
        2 => FixedDecimal::mul_to(a, b, d),
        3 => FixedDecimal::div_to(a, b, d, n),
        _ => FixedDecimal::rem_to(a, b, d),
    }
}

fn operator(o: usize, a: FixedDecimal, b: FixedDecimal) -> FixedDecimal {
    match o {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a % b,
    }
}

/// a decimal of the same value and scale produced by other operations (None if the recipe does
/// not apply)
pub fn remake(kind: u8, x: &FixedDecimal) -> Option<FixedDecimal> {
    let (c, r) = run(|| {
        let t = x.to_string(-1);
        let neg = t.starts_with('-');
        let body = t.trim_start_matches('-').to_string();
        let digits = body.len() - body.contains('.') as usize;
        let sg = if neg { "-" } else { "" };
        let fresh = |t: &str| t.parse::<FixedDecimal>();
        let z = FixedDecimal::zero();
        let res = match kind % 8 {
            // leading zeros
            1 => fresh(&format!("{}{}{}", sg, "0".repeat(65usize.saturating_sub(digits).min(20)), body))?,
            // through a larger number and back
            2 => {
                let big = fresh("1e40")?;
                let mut s = z.clone();
                FixedDecimal::add_to(x, &big, &mut s)?;
                let mut d = z;
                FixedDecimal::sub_to(&s, &big, &mut d)?;
                d
            }
            // more fractional digits, rounded back
            3 => {
                let f = x.frac() as isize;
                let dot = if body.contains('.') { "" } else { "." };
                let mut d = fresh(&format!("{}{}{}{}", sg, body, dot, "0".repeat(65usize.saturating_sub(digits).min(11))))?;
                d.round(f);
                d
            }
            // minus minus
            4 => {
                let mut s = z.clone();
                FixedDecimal::sub_to(&z, x, &mut s)?;
                let mut d = z.clone();
                FixedDecimal::sub_to(&z, &s, &mut d)?;
                d
            }
            // times one, written with leading zeros
            5 => {
                let one = fresh("000000000000000000001")?;
                let mut d = z;
                FixedDecimal::mul_to(x, &one, &mut d)?;
                d
            }
            // exponent form of the bare digits
            6 => {
                let f = x.frac() as usize;
                fresh(&format!("{}{}e-{}", sg, body.replace('.', ""), f))?
            }
            // from an integer when it is one, else rounded in place to its own scale
            7 => match t.parse::<i64>() {
                Ok(v) => FixedDecimal::from(v),
                Err(_) => {
                    let mut d = x.clone();
                    d.round(x.frac() as isize);
                    d
                }
            },
            // twice a round trip through the text
            _ => fresh(&fresh(&t)?.to_string(-1))?,
        };
        Ok(res)
    });
    if c == OK { r } else { None }
}

fn ord(o: Ordering) -> i32 {
    match o {
        Ordering::Less => -1,
        Ordering::Equal => 0,
        Ordering::Greater => 1,
    }
}

/// 0: the same as both, 1: as p, 2: as q, 3: as neither
fn which(v: &FixedDecimal, p: &FixedDecimal, q: &FixedDecimal) -> i64 {
    let (v, p, q) = (format!("{:?}", v), format!("{:?}", p), format!("{:?}", q));
    match (v == p, v == q) {
        (true, true) => 0,
        (true, false) => 1,
        (false, true) => 2,
        _ => 3,
    }
}

impl Machine {
    pub fn new() -> Machine {
        Machine {
            keep: false,
            calls: vec![],
            regs: vec![FixedDecimal::zero(); NR],
            usable: vec![true; NR],
            out: String::new(),
            events: 0,
            on_event: None,
        }
    }

    pub fn reset(&mut self) {
        self.regs = vec![FixedDecimal::zero(); NR];
        self.usable = vec![true; NR];
        self.out.clear();
        self.events = 0;
        self.keep = false;
        self.calls.clear();
    }

    /// the event just begun is this call
    fn note(&mut self, call: impl FnOnce(&Machine) -> Call) {
        if self.keep {
            let c = call(self);
            self.calls.push((self.events, c));
        }
    }

    /// repeats the calls of this history backwards, and on three threads at once each in an order
    /// of its own; one event per call with the different answers it got
    pub fn again(&mut self, seed: u64) {
        let calls = std::mem::take(&mut self.calls);
        self.keep = false;
        if calls.is_empty() {
            return;
        }
        let n = calls.len();
        let shared = std::sync::Arc::new(calls);
        let mut seen: Vec<std::collections::BTreeSet<String>> = vec![Default::default(); n];
        let head = "{\"o\":\"again\"".to_string();
        if let Some(f) = self.on_event.as_mut() {
            f(&head)
        }
        for i in (0..n).rev() {
            seen[i].insert(shared[i].1.answer());
        }
        let gate = std::sync::Arc::new(std::sync::Barrier::new(3));
        let threads: Vec<_> = (0..3u64)
            .map(|k| {
                let (gate, shared) = (gate.clone(), shared.clone());
                std::thread::spawn(move || {
                    let mut r = crate::rng::Rng::new(seed, "again", k);
                    let mut orders: Vec<usize> = vec![];
                    for _ in 0..5 {
                        let mut order: Vec<usize> = (0..n).collect();
                        for i in (1..n).rev() {
                            order.swap(i, r.below(i + 1));
                        }
                        orders.append(&mut order);
                    }
                    let mut got: Vec<Vec<String>> = vec![vec![]; n];
                    gate.wait();
                    for i in orders {
                        let a = shared[i].1.answer();
                        if !got[i].contains(&a) {
                            got[i].push(a);
                        }
                    }
                    got
                })
            })
            .collect();
        for t in threads {
            for (i, a) in t.join().unwrap_or_default().into_iter().enumerate() {
                seen[i].extend(a);
            }
        }
        // in some histories every call is also made thousands of times over
        if seed % 8 == 3 {
            for (i, (_, c)) in shared.iter().enumerate() {
                let times = match c {
                    Call::Print { n, .. } if *n > 1000 => 20, // long texts take their time
                    _ => 5000,
                };
                for _ in 0..times {
                    let a = c.answer();
                    if !seen[i].contains(&a) {
                        seen[i].insert(a);
                    }
                }
            }
        }
        for (i, answers) in seen.iter().enumerate() {
            self.begin(format!("{},\"i\":{}", head, shared[i].0));
            self.out.push_str(",\"w\":[");
            for (j, a) in answers.iter().enumerate() {
                write!(self.out, "{}{{{}}}", if j > 0 { "," } else { "" }, a).unwrap();
            }
            self.out.push(']');
            self.num("x", 0);
            self.end();
        }
    }

    fn begin(&mut self, head: String) {
        if let Some(f) = self.on_event.as_mut() {
            f(&head)
        }
        if self.events > 0 {
            self.out.push(',');
        }
        self.events += 1;
        self.out.push_str(&head);
    }
    fn end(&mut self) {
        self.out.push('}');
    }
    fn num(&mut self, k: &str, v: i64) {
        write!(self.out, ",\"{}\":{}", k, v).unwrap();
    }
    fn flag(&mut self, k: &str, v: bool) {
        write!(self.out, ",\"{}\":{}", k, v).unwrap();
    }
    fn bytes(&mut self, k: &str, b: &[u8]) {
        write!(self.out, ",\"{}\":", k).unwrap();
        write_bytes(b, &mut self.out);
    }
    fn obs(&mut self, k: &str, d: &FixedDecimal) {
        write!(self.out, ",\"{}\":", k).unwrap();
        write_obs(&observe(d), &mut self.out);
    }
    fn int(&mut self, text: &str) {
        write_int(text, &mut self.out)
    }
    /// stores the outcome's decimal in register d
    fn store(&mut self, d: usize, x: u8, v: FixedDecimal) {
        self.usable[d] = x == OK || x == 1 || x == 2;
        self.regs[d] = if x == PANIC { FixedDecimal::zero() } else { v };
        let o = observe(&self.regs[d]);
        self.out.push_str(",\"r\":");
        write_obs(&o, &mut self.out);
        if o.broken {
            self.regs[d] = FixedDecimal::zero();
            self.usable[d] = false;
        }
    }

    pub fn parse(&mut self, d: usize, t: &[u8], reset: bool, fresh: bool) -> u8 {
        let mut h = format!("{{\"o\":\"parse\",\"d\":{},\"rs\":{},\"t\":", d + 1, reset);
        write_bytes(t, &mut h);
        self.begin(h);
        self.note(|m| Call::Parse { t: t.to_vec(), d: m.regs[d].clone(), reset });
        let mut v = self.regs[d].clone();
        let (x, _) = run(|| v.from_bytes_str(t, reset));
        self.num("x", x as i64);
        let before = self.regs[d].clone();
        self.store(d, x, v);
        if !raw_on() {
            self.flag("tx", true);
        }
        self.as_text(t, &before, reset);
        if fresh {
            let mut v = FixedDecimal::zero();
            let (x, _) = run(|| v.from_bytes_str(t, reset));
            self.sub("fr", x, &v);
            self.out.push('}');
        }
        self.end();
        x
    }

    /// the same parse by the other entry point, if the bytes are a text
    fn as_text(&mut self, t: &[u8], before: &FixedDecimal, reset: bool) {
        if let Ok(s) = std::str::from_utf8(t) {
            let mut v = before.clone();
            let (x, _) = run(|| v.from_ascii_str(s, reset));
            self.sub("as", x, &v);
            self.out.push('}');
        }
    }

    fn sub(&mut self, k: &str, x: u8, v: &FixedDecimal) {
        write!(self.out, ",\"{}\":{{\"x\":{}", k, x).unwrap();
        if x == PANIC {
            self.obs("r", &FixedDecimal::zero());
        } else {
            self.obs("r", v);
        }
    }

    pub fn fstr(&mut self, d: usize, t: &str) -> u8 {
        let mut h = format!("{{\"o\":\"fstr\",\"d\":{},\"t\":", d + 1);
        write_bytes(t.as_bytes(), &mut h);
        self.begin(h);
        let (x, v) = run(|| t.parse::<FixedDecimal>());
        self.num("x", x as i64);
        // a failed from_str gives no decimal: the register is set to zero
        self.store(d, x, v.unwrap_or_else(FixedDecimal::zero));
        if !raw_on() {
            self.flag("tx", true);
        }
        self.end();
        x
    }

    pub fn parsekeep(&mut self, a: usize, t: &[u8]) {
        let mut h = format!("{{\"o\":\"parsekeep\",\"a\":{},\"t\":", a + 1);
        write_bytes(t, &mut h);
        self.begin(h);
        let mut v = self.regs[a].clone();
        let (x, _) = run(|| v.from_bytes_str(t, false));
        self.num("x", x as i64);
        let v = if x == PANIC { FixedDecimal::zero() } else { v };
        self.obs("r", &v);
        let before = self.regs[a].clone();
        self.as_text(t, &before, false);
        self.end();
    }

    pub fn arith(&mut self, o: usize, d: usize, a: usize, b: usize, n: usize, ex: Extra) -> u8 {
        let h = format!(
            "{{\"o\":\"{}\",\"d\":{},\"a\":{},\"b\":{},\"n\":{}",
            OPS[o], d + 1, a + 1, b + 1, n.min(1_000_000)
        );
        self.begin(h);
        let (xa, xb) = (self.regs[a].clone(), self.regs[b].clone());
        let dest = self.regs[d].clone();
        self.note(|_| Call::Arith { o, a: xa.clone(), b: xb.clone(), d: dest.clone(), n });
        let mut v = dest.clone();
        // twice the same operand: the same reference, not a copy
        let (x, _) = run(|| fallible(o, &xa, if a == b { &xa } else { &xb }, &mut v, n));
        self.num("x", x as i64);
        self.store(d, x, v);
        if ex.after {
            self.obs("sa", &xa);
            self.obs("sb", &xb);
        }
        if ex.fresh {
            let mut v = FixedDecimal::zero();
            let (x, _) = run(|| fallible(o, &xa, &xb, &mut v, n));
            self.sub("fr", x, &v);
            self.out.push('}');
        }
        if ex.oper && (o != 3 || n == 4) {
            let (x, v) = run(|| Ok(operator(o, xa.clone(), xb.clone())));
            self.sub("op", x, &v.unwrap_or_else(FixedDecimal::zero));
            self.out.push('}');
        }
        if ex.mirror {
            let (na, nb) = (opposite(&xa), opposite(&xb));
            // x - y is also recorded as x + -y, and the other way round
            let other = if o < 2 { 1 - o } else { o };
            for (key, o, p, q) in [("sw", o, &xb, &xa), ("nn", o, &na, &nb), ("nb", other, &xa, &nb)] {
                let mut v = FixedDecimal::zero();
                let (x, _) = run(|| fallible(o, p, q, &mut v, n));
                self.sub(key, x, &v);
                self.out.push('}');
            }
        }
        if ex.remade > 0 {
            let ya = remake(ex.remade, &xa);
            let yb = remake(ex.remade / 8, &xb);
            if let (Some(ya), Some(yb)) = (ya, yb) {
                let mut v = dest;
                let (x, _) = run(|| fallible(o, &ya, &yb, &mut v, n));
                self.sub("pv", x, &v);
                self.obs("oa", &ya);
                self.obs("ob", &yb);
                self.out.push('}');
            }
        }
        self.end();
        x
    }

    /// rounding in place (on a copy) and into register d; the result of the copying form stays in d
    pub fn rnd(&mut self, d: usize, a: usize, n: isize, ex: Extra) -> u8 {
        let h = format!("{{\"o\":\"rnd\",\"d\":{},\"a\":{},\"n\":{}", d + 1, a + 1, n.clamp(-1_000_000, 1_000_000));
        self.begin(h);
        let src = self.regs[a].clone();
        self.note(|_| Call::Round { a: src.clone(), n });
        let mut v = src.clone();
        let (x, _) = run(|| {
            v.round(n);
            Ok(())
        });
        self.num("x", x as i64);
        let mut v2 = self.regs[d].clone();
        let (x2, _) = run(|| {
            src.round_to(&mut v2, n);
            Ok(())
        });
        self.num("x2", x2 as i64);
        if x2 == PANIC {
            v2 = FixedDecimal::zero();
        }
        self.obs("r2", &v2);
        let (_, same) = run(|| Ok(v.to_string(-1) == v2.to_string(-1)));
        self.flag("tq", same.unwrap_or(false));
        self.obs("sa", &src);
        if ex.fresh {
            let mut v = FixedDecimal::zero();
            let (x, _) = run(|| {
                src.round_to(&mut v, n);
                Ok(())
            });
            self.sub("f2", x, &v);
            self.out.push('}');
        }
        if ex.mirror {
            let mut w = opposite(&src);
            let (x, _) = run(|| {
                w.round(n);
                Ok(())
            });
            self.sub("nn", x, &w);
            self.out.push('}');
        }
        if ex.remade > 0 {
            if let Some(y) = remake(ex.remade, &src) {
                let mut w = y.clone();
                let (x, _) = run(|| {
                    w.round(n);
                    Ok(())
                });
                self.sub("pv", x, &w);
                self.obs("oa", &y);
                self.out.push('}');
            }
        }
        // the register takes the in-place result, or zero when that form panicked
        self.store(d, x, v);
        self.end();
        x
    }

    pub fn cmp(&mut self, a: usize, b: usize, ex: Extra) {
        self.begin(format!("{{\"o\":\"cmp\",\"a\":{},\"b\":{}", a + 1, b + 1));
        let (p, copy) = (self.regs[a].clone(), self.regs[b].clone());
        // twice the same operand: the same reference, not a copy
        let q = if a == b { &p } else { &copy };
        self.note(|_| Call::Cmp { a: p.clone(), b: q.clone() });
        let (x, v) = run(|| {
            Ok((
                ord(p.cmp(q)),
                p.partial_cmp(q).map(ord).unwrap_or(7),
                ord(q.cmp(&p)),
                [&p == q, &p != q, &p < q, &p <= q, &p > q, &p >= q],
                [
                    which(&p.clone().max(q.clone()), &p, q),
                    which(&p.clone().min(q.clone()), &p, q),
                    // kept between the smaller and the larger of the two
                    if &p <= q { which(&p.clone().clamp(p.clone(), q.clone()), &p, q) } else { which(&q.clone().clamp(q.clone(), p.clone()), q, &p) },
                ],
            ))
        });
        let v = v.unwrap_or((0, 0, 0, [false; 6], [7; 3]));
        self.num("x", x as i64);
        self.num("k", v.0 as i64);
        self.num("pk", v.1 as i64);
        self.num("rk", v.2 as i64);
        for (i, k) in ["eq", "ne", "lt", "le", "gt", "ge"].iter().enumerate() {
            self.flag(k, v.3[i]);
        }
        for (i, k) in ["mx", "mn", "cl"].iter().enumerate() {
            self.num(k, v.4[i]);
        }
        if ex.mirror {
            let (np, nq) = (opposite(&p), opposite(q));
            let (x, k) = run(|| Ok(ord(np.cmp(&nq))));
            self.num("nx", x as i64);
            self.num("nk", k.unwrap_or(7) as i64);
        }
        if ex.remade > 0 {
            let (ya, yb) = (remake(ex.remade, &p), remake(ex.remade / 8, q));
            if let (Some(ya), Some(yb)) = (ya, yb) {
                let (x, k) = run(|| Ok(ord(ya.cmp(&yb))));
                write!(self.out, ",\"pv\":{{\"x\":{},\"k\":{}", x, k.unwrap_or(0)).unwrap();
                self.obs("r", &FixedDecimal::zero());
                self.obs("oa", &ya);
                self.obs("ob", &yb);
                self.out.push('}');
            }
        }
        self.end();
    }

    pub fn sort(&mut self, list: &[usize]) {
        let l: Vec<usize> = list.iter().map(|i| i + 1).collect();
        self.begin(format!("{{\"o\":\"sort\",\"in\":{:?}", l));
        let mut v: Vec<(usize, FixedDecimal)> = list.iter().map(|i| (*i, self.regs[*i].clone())).collect();
        let mut plain: Vec<FixedDecimal> = v.iter().map(|e| e.1.clone()).collect();
        let (x, v) = run(move || {
            v.sort_by(|a, b| a.1.cmp(&b.1));
            plain.sort();
            let same = v.iter().zip(&plain).all(|(a, b)| format!("{:?}", a.1) == format!("{:?}", b));
            Ok((v, same))
        });
        self.num("x", x as i64);
        let (v, same) = v.unwrap_or_default();
        self.flag("sm", same);
        let l: Vec<usize> = v.iter().map(|e| e.0 + 1).collect();
        write!(self.out, ",\"l\":{:?}", l).unwrap();
        self.end();
    }

    pub fn hash(&mut self, a: usize, b: usize) {
        self.begin(format!("{{\"o\":\"hash\",\"a\":{},\"b\":{}", a + 1, b + 1));
        let (p, q) = (self.regs[a].clone(), self.regs[b].clone());
        self.note(|_| Call::Hash { a: p.clone() });
        let (x, v) = run(|| {
            let (mut h1, mut h2) = (Bytes(vec![]), Bytes(vec![]));
            p.hash(&mut h1);
            q.hash(&mut h2);
            let (mut g1, mut g2) = (DefaultHasher::new(), DefaultHasher::new());
            p.hash(&mut g1);
            q.hash(&mut g2);
            let mut set = HashSet::new();
            set.insert(p.clone());
            Ok((h1.0 == h2.0 && g1.finish() == g2.finish(), set.contains(&q), h1.0))
        });
        let v = v.unwrap_or((false, false, vec![]));
        self.num("x", x as i64);
        if self.keep {
            self.bytes("hb", &v.2);
        }
        self.flag("he", v.0);
        self.flag("hk", v.1);
        self.end();
    }

    pub fn fromi(&mut self, d: usize, v: i64) {
        self.begin(format!("{{\"o\":\"fromi\",\"d\":{}", d + 1));
        self.note(|_| Call::FromI(v));
        let (x, r) = run(|| Ok(FixedDecimal::from(v)));
        let t = v.to_string();
        self.from_tail(d, &t, x, r);
    }
    pub fn fromu(&mut self, d: usize, v: u64) {
        self.begin(format!("{{\"o\":\"fromu\",\"d\":{}", d + 1));
        self.note(|_| Call::FromU(v));
        let (x, r) = run(|| Ok(FixedDecimal::from(v)));
        let t = v.to_string();
        self.from_tail(d, &t, x, r);
    }
    fn from_tail(&mut self, d: usize, t: &str, x: u8, r: Option<FixedDecimal>) {
        self.int(t);
        self.num("x", x as i64);
        let r = r.unwrap_or_else(FixedDecimal::zero);
        let (_, eq) = run(|| Ok(t.parse::<FixedDecimal>()? == r));
        self.flag("eq", eq.unwrap_or(false));
        self.store(d, x, r);
        self.end();
    }

    pub fn toi(&mut self, a: usize, ex: Extra) {
        self.to_int(a, true, ex)
    }
    pub fn tou(&mut self, a: usize, ex: Extra) {
        self.to_int(a, false, ex)
    }
    fn to_int(&mut self, a: usize, signed: bool, ex: Extra) {
        self.begin(format!("{{\"o\":\"{}\",\"a\":{}", if signed { "toi" } else { "tou" }, a + 1));
        let v = self.regs[a].clone();
        self.note(|_| Call::ToInt { a: v.clone(), signed });
        let get = |v: &FixedDecimal| to_int_text(v, signed);
        let (x, t) = get(&v);
        self.num("x", x as i64);
        self.int(&t.unwrap_or_else(|| "0".into()));
        self.obs("sa", &v);
        if ex.remade > 0 {
            if let Some(y) = remake(ex.remade, &v) {
                let (x, t) = get(&y);
                write!(self.out, ",\"pv\":{{\"x\":{}", x).unwrap();
                self.int(&t.unwrap_or_else(|| "0".into()));
                self.obs("r", &FixedDecimal::zero());
                self.obs("oa", &y);
                self.out.push('}');
            }
        }
        self.end();
    }

    pub fn print(&mut self, a: usize, n: isize, prefix: &[u8]) {
        // every negative precision asks for all digits
        const ALL: [isize; 10] = [-1, -1, -1, -2, -9, -30, -128, -256, isize::MIN, isize::MIN + 1];
        let n = if n < 0 { ALL[(self.events + prefix.len()) % ALL.len()] } else { n };
        self.begin(format!("{{\"o\":\"print\",\"a\":{},\"n\":{},\"an\":{}", a + 1, n.max(-1), n.max(-1_000_000)));
        let v = self.regs[a].clone();
        self.note(|_| Call::Print { a: v.clone(), n });
        // buffers of every length, with room left or none, and with something in that room
        let prefix = &if self.events % 7 == 3 { prefix.repeat(40) } else { prefix.to_vec() }[..];
        const ROOM: [usize; 9] = [0, 1, 0, 9, 81, 0, 255, 4096, 27];
        let mut buf = vec![b'7'; prefix.len() + ROOM[self.events % ROOM.len()]];
        buf.clear();
        buf.extend_from_slice(prefix);
        let (x, _) = run(|| {
            v.append_str_buf(&mut buf, n);
            Ok(())
        });
        let (x2, t) = run(|| Ok(v.to_string(n).into_bytes()));
        let x = if x2 == PANIC { PANIC } else { x };
        self.num("x", x as i64);
        let kept = buf.len() >= prefix.len() && &buf[..prefix.len()] == prefix;
        let rest = if kept && x == OK { buf[prefix.len()..].to_vec() } else { vec![] };
        self.flag("pk", kept);
        self.flag("tq", t.as_deref() == Some(&rest[..]));
        self.bytes("t", &rest);
        self.end();
    }

    pub fn rt(&mut self, a: usize) {
        self.begin(format!("{{\"o\":\"rt\",\"a\":{}", a + 1));
        let v = self.regs[a].clone();
        let (x, r) = run(|| {
            let t = v.to_string(-1);
            let q: FixedDecimal = t.parse()?;
            let same = q.to_string(-1).as_bytes() == t.as_bytes();
            Ok((q == v && v == q, same, q))
        });
        let (eq, tq, q) = r.unwrap_or((false, false, FixedDecimal::zero()));
        self.num("x", x as i64);
        self.flag("eq", eq);
        self.flag("tq", tq);
        self.obs("r", &q);
        self.end();
    }

    /// k: 0 set_neg, 1 set_pos, 2 set_zero, 3 set_one, 4 zero(), 5 one()
    pub fn setter(&mut self, k: usize, d: usize) {
        const NAMES: [&str; 6] = ["setneg", "setpos", "setzero", "setone", "zero", "one"];
        self.begin(format!("{{\"o\":\"{}\",\"d\":{}", NAMES[k], d + 1));
        let mut v = self.regs[d].clone();
        let (x, _) = run(|| {
            match k {
                0 => v.set_neg(),
                1 => v.set_pos(),
                2 => v.set_zero(),
                3 => v.set_one(),
                4 => v = FixedDecimal::zero(),
                _ => v = FixedDecimal::one(),
            }
            Ok(())
        });
        self.num("x", x as i64);
        let usable = k >= 2 || self.usable[d];
        self.store(d, x, v);
        self.usable[d] &= usable;
        self.end();
    }

    pub fn copy(&mut self, d: usize, a: usize) {
        self.begin(format!("{{\"o\":\"copy\",\"d\":{},\"a\":{}", d + 1, a + 1));
        let (x, v) = run(|| Ok(self.regs[a].clone()));
        self.num("x", x as i64);
        let usable = self.usable[a];
        self.store(d, x, v.unwrap_or_else(FixedDecimal::zero));
        self.usable[d] &= usable;
        self.end();
    }
}

pub fn write_bytes(b: &[u8], out: &mut String) {
    out.push('[');
    for (i, c) in b.iter().enumerate() {
        if i > 0 {
            out.push(',');
        }
        write!(out, "{}", c).unwrap();
    }
    out.push(']');
}
