//! What to do to the machine: values, operand pairs, structured divisions, exhaustive families
//! and the mixes of operations (profiles).

use crate::machine::*;
use crate::rng::Rng;

const DIGIT_PALETTE: [u32; 16] = [
    0, 0, 0, 1, 2, 9, 10, 499_999_999, 500_000_000, 500_000_001, 999_999_998, 999_999_999, 999_999_999, 100_000_000,
    99_999_999, 333_333_333,
];

/// a number written in the library's source, give or take one: where it treats some number specially
fn constant(r: &mut Rng) -> u64 {
    static ALL: std::sync::OnceLock<Vec<u64>> = std::sync::OnceLock::new();
    let all = ALL.get_or_init(|| {
        let list = std::env::var("FXD_CONSTANTS").unwrap_or_default();
        let mut v: Vec<u64> = list.split(',').filter_map(|t| t.parse().ok()).collect();
        v.push(9);
        v
    });
    let k = *r.pick(all);
    match r.below(4) {
        0 => k.saturating_sub(1),
        1 => k.saturating_add(1),
        _ => k,
    }
}

/// one group of nine digits
pub fn group(r: &mut Rng) -> u32 {
    if r.one_in(12) {
        return (constant(r) % 1_000_000_000) as u32;
    }
    match r.below(10) {
        0..=5 => *r.pick(&DIGIT_PALETTE),
        6 => 10u32.pow(r.below(9) as u32),
        7 => 10u32.pow(r.below(9) as u32) * (r.below(9) as u32 + 1),
        8 => (10u32.pow(r.below(9) as u32 + 1) - 1).wrapping_sub(r.below(2) as u32),
        _ => r.below(1_000_000_000) as u32,
    }
}

/// n digits in which groups (aligned as the library aligns them) come from the palette.
/// `align`: number of digits below the first group boundary at the low end
pub fn digits(r: &mut Rng, n: usize, low: usize) -> Vec<u8> {
    let mut s = Vec::new();
    let style = r.below(8);
    // built from the low end
    let mut need = low;
    while s.len() < n {
        let g = match style {
            0 => 999_999_999,
            1 => r.below(1_000_000_000) as u32,
            2 => if r.one_in(4) { group(r) } else { 0 },
            3 => if r.one_in(4) { group(r) } else { 999_999_999 },
            _ => group(r),
        };
        let mut t = format!("{:09}", g).into_bytes();
        t.reverse();
        if need > 0 {
            // the lowest, partial group keeps its high digits
            t = t[9 - need..].to_vec();
            need = 0;
        }
        s.extend(t);
    }
    s.truncate(n);
    s.reverse();
    s
}

/// a count of digits, with group boundaries preferred
pub fn count(r: &mut Rng, max: usize) -> usize {
    if r.one_in(24) {
        let k = constant(r) as usize;
        if k <= max {
            return k;
        }
    }
    let k = match r.below(8) {
        0 => r.below(max + 1),
        1 => r.below(10),
        2 => 9 * r.below(max / 9 + 1),
        3 => (9 * r.below(max / 9 + 1) + 1).min(max),
        4 => (9 * r.below(max / 9 + 1) + 8).min(max),
        5 => r.below(20.min(max + 1)),
        6 => r.below(max / 2 + 1),
        _ => r.below(4),
    };
    k.min(max)
}

/// an accepted numeric text; `maxf` bounds the fractional digits
pub fn text(r: &mut Rng, maxi: usize, maxf: usize) -> Vec<u8> {
    let mut ni = count(r, maxi.min(65));
    let mut nf = if r.one_in(3) { 0 } else { count(r, maxf.min(65)) };
    if ni + nf > 65 {
        if r.one_in(2) { ni = 65 - nf } else { nf = 65 - ni }
    }
    if ni + nf == 0 {
        ni = 1;
    }
    let i = digits(r, ni, 0);
    let f = digits(r, nf, nf % 9);
    let mut t = vec![];
    match r.below(8) {
        0 => t.push(b'+'),
        1 | 2 | 3 => t.push(b'-'),
        _ => (),
    }
    if r.one_in(6) {
        // exponent form: the same digits with the point elsewhere
        let all: Vec<u8> = i.iter().chain(f.iter()).cloned().collect();
        let e = -(nf as i64);
        let shift = r.range(0, all.len() as i64);
        // value = all * 10^e; write point after `shift` digits of all
        let e2 = e + (all.len() as i64 - shift);
        if (-30..=65).contains(&e2) && all.len() as i64 <= 65 && (nf as i64 >= all.len() as i64 - shift - e2.max(0)) {
            t.extend(&all[..shift as usize]);
            if (shift as usize) < all.len() || r.one_in(2) {
                t.push(b'.');
            }
            t.extend(&all[shift as usize..]);
            if e2 != 0 || r.one_in(2) {
                t.push(*r.pick(b"eE"));
                if e2 >= 0 && r.one_in(2) {
                    t.push(b'+');
                }
                if e2 >= 0 && r.one_in(20) {
                    let most = *r.pick(&[3, 60, 300]);
                    t.extend(vec![b'0'; r.below(most)]);
                }
                t.extend(e2.to_string().bytes());
            }
            return t;
        }
    }
    t.extend(&i);
    if nf > 0 || r.one_in(10) {
        t.push(b'.');
    }
    t.extend(&f);
    t
}

/// any byte string, near the grammar
/// the same groups of nine digits in another order, or two digits nine apart exchanged: same sum of groups
fn rearranged(r: &mut Rng, t: &mut [u8]) -> bool {
    let point = t.iter().position(|c| *c == b'.').unwrap_or(t.len());
    // places counted from the point: (index, place)
    let mut at: Vec<(usize, i64)> = vec![];
    for (i, c) in t.iter().enumerate() {
        if c.is_ascii_digit() {
            at.push((i, if i < point { (point - i) as i64 - 1 } else { point as i64 - i as i64 }));
        }
    }
    let find = |p: i64| at.iter().find(|x| x.1 == p).map(|x| x.0);
    let places: Vec<i64> = at.iter().map(|x| x.1).filter(|p| find(p + 9).is_some()).collect();
    if places.is_empty() {
        return false;
    }
    let p = *r.pick(&places);
    let far = 9 * (1 + r.below(3) as i64);
    let far = if find(p + far).is_some() { far } else { 9 };
    // the whole group, or only this digit
    let (lo, hi) = if r.one_in(3) { (p, p) } else { (p.div_euclid(9) * 9, p.div_euclid(9) * 9 + 8) };
    for q in lo..=hi {
        if let (Some(i), Some(j)) = (find(q), find(q + far)) {
            t.swap(i, j);
        }
    }
    true
}

pub fn any_text(r: &mut Rng) -> Vec<u8> {
    let mut t = match r.below(6) {
        0 => {
            let n = r.below(8);
            (0..n).map(|_| *r.pick(b"0123456789+-.eE  ab,_/:;\x00\xff\x80x")).collect()
        }
        1 => {
            // long
            let n = *r.pick(&[63, 64, 65, 66, 67, 100, 126, 127, 128, 129, 130, 255, 256, 257, 300]);
            let n = n + r.below(3);
            let mut t: Vec<u8> = (0..n).map(|_| if r.one_in(3) { b'0' + r.below(10) as u8 } else { b'0' }).collect();
            if r.one_in(2) {
                let k = r.below(t.len() + 1);
                t.insert(k, b'.');
            }
            if r.one_in(2) {
                t.extend(format!("e{}", r.range(-70, 70)).bytes());
            }
            t
        }
        2 | 3 => {
            // around the limits of digits and exponent
            let ni = r.below(68);
            let nf = r.below(68);
            let mut t = digits(r, ni, 0);
            if r.one_in(3) {
                let k = r.below(t.len() + 1);
                for c in &mut t[..k] {
                    *c = b'0';
                }
            }
            if r.one_in(2) {
                t.push(b'.');
                let k = if r.one_in(2) { 65usize.saturating_sub(ni) + r.below(3) } else { nf };
                t.extend(digits(r, k, k % 9));
            }
            if !r.one_in(3) {
                t.push(*r.pick(b"eE"));
                match r.below(4) {
                    0 => t.push(b'-'),
                    1 => t.push(b'+'),
                    _ => (),
                }
                let e = match r.below(8) {
                    0 => 65 + r.below(3),
                    1 => 29 + r.below(4),
                    2 => r.below(1000),
                    3 => (65usize.saturating_sub(ni)) + r.below(3),
                    4 => r.below(12),
                    _ => r.below(70),
                };
                if r.one_in(5) {
                    let most = *r.pick(&[6, 6, 6, 70, 300]);
                    t.extend(vec![b'0'; r.below(most)]);
                }
                t.extend(e.to_string().bytes());
                if r.one_in(12) {
                    t.extend(vec![b'9'; r.below(30)]);
                }
            }
            if r.one_in(2) {
                t.insert(0, *r.pick(b"+-"));
            }
            t
        }
        _ => text(r, 65, 65),
    };
    // small damage
    if r.one_in(3) {
        for _ in 0..1 + r.below(2) {
            let k = r.below(t.len() + 1);
            match r.below(3) {
                0 => t.insert(k, *r.pick(b"0123456789+-.eE \tx\x00\xff/:")),
                1 if !t.is_empty() => {
                    t.remove(k.min(t.len() - 1));
                }
                _ if !t.is_empty() => {
                    let k = k.min(t.len() - 1);
                    t[k] = *r.pick(b"0123456789+-.eE /:");
                }
                _ => (),
            }
        }
    }
    t
}

pub struct Ctx<'a> {
    pub m: &'a mut Machine,
    pub r: &'a mut Rng,
    pub ex: u8, // bit set of extras: 1 fresh, 2 operator, 4 operands afterwards, 8 remade, 16 exchanged and negated
}

impl<'a> Ctx<'a> {
    fn extra(&mut self) -> Extra {
        Extra {
            fresh: self.ex & 1 != 0,
            oper: self.ex & 2 != 0,
            after: self.ex & 4 != 0,
            mirror: self.ex & 16 != 0,
            remade: if self.ex & 8 != 0 { 1 + self.r.below(63) as u8 } else { 0 },
        }
    }
    pub fn dest(&mut self) -> usize {
        self.r.below(NR)
    }
    pub fn operand(&mut self) -> usize {
        for _ in 0..20 {
            let k = self.r.below(NR);
            if self.m.usable[k] {
                return k;
            }
        }
        self.m.setter(2, 0);
        0
    }
    pub fn lit(&mut self, d: usize, t: &[u8]) {
        self.m.parse(d, t, true, false);
    }
    pub fn value(&mut self, d: usize) {
        match self.r.below(16) {
            0 => self.int_value(d),
            1 | 2 => self.wide(d),
            3 => self.tiny_text(d),
            4 if self.m.events > 4 => self.related(d),
            _ => {
                let (mi, mf) = *self.r.pick(&[(65, 36), (36, 36), (20, 20), (65, 65), (9, 30), (30, 9), (18, 18), (3, 3)]);
                let t = text(self.r, mi, mf);
                self.lit(d, &t);
            }
        }
    }
    fn tiny_text(&mut self, d: usize) {
        let nf = self.r.below(4);
        let mut v = self.r.range(-1000, 1000);
        if self.r.one_in(3) {
            let k = constant(self.r) as i64;
            v = if v < 0 { k.wrapping_neg() } else { k };
        }
        let t = format!("{}e-{}", v, nf);
        self.lit(d, t.as_bytes());
    }
    pub fn int_value(&mut self, d: usize) {
        let r = &mut *self.r;
        let k = r.below(64);
        let base: i64 = match r.below(8) {
            6 => (near_group(r) >> 1) as i64,
            7 => (near_group(r) % (1 << 63)) as i64,
            0 => 0,
            1 => i64::MAX - r.below(3) as i64,
            2 => i64::MIN + r.below(3) as i64,
            3 => 10i64.pow(r.below(19) as u32) - r.below(2) as i64,
            4 => (r.next() >> k) as i64,
            _ if r.one_in(2) => constant(r) as i64,
            _ => r.range(-1000, 1000),
        };
        let base = if r.one_in(2) { base } else { base.wrapping_neg() };
        if r.one_in(3) {
            let u = match r.below(6) {
                4 => near_group(r),
                0 => u64::MAX - r.below(3) as u64,
                1 => r.next() >> k,
                2 => i64::MAX as u64 + r.below(3) as u64,
                3 => constant(r),
                _ => 10u64.pow(r.below(20) as u32) - r.below(2) as u64,
            };
            self.m.fromu(d, u);
        } else {
            self.m.fromi(d, base);
        }
    }
    /// up to 81 digits: hi * 10^k + lo
    pub fn wide(&mut self, d: usize) {
        let a = self.dest();
        let b = self.dest();
        let c = self.dest();
        let r = &mut *self.r;
        let k = *r.pick(&[9usize, 18, 27, 36, 45]);
        let room = 81 - k;
        let hi_n = (if r.one_in(2) { room } else { count(r, room) }).clamp(1, 65);
        let mut hi = digits(r, hi_n, 0);
        if r.one_in(2) {
            hi.insert(0, b'-');
        }
        let lo_int = count(r, k.min(65));
        let frac_room = (81 - (hi_n + k).div_ceil(9) * 9).min(36);
        let nf = if r.one_in(2) { 0 } else { count(r, frac_room).min(65 - lo_int) };
        let mut lo = digits(r, lo_int.max(1), 0);
        if nf > 0 {
            lo.push(b'.');
            lo.extend(digits(r, nf, nf % 9));
        }
        if hi[0] == b'-' {
            lo.insert(0, b'-');
        }
        self.lit(a, &hi);
        let p = format!("1e{}", k);
        if a == b {
            return;
        }
        self.lit(b, p.as_bytes());
        let x = self.m.arith(2, c, a, b, 0, Extra::default());
        if x != 0 || c == d {
            return;
        }
        let e = if a == c { b } else { a };
        self.lit(e, &lo);
        self.m.arith(0, d, c, e, 0, Extra::default());
    }
    /// a decimal near or derived from an existing one, built from its text
    pub fn related(&mut self, d: usize) {
        let a = self.operand();
        let t = match crate::obs::run(|| Ok(self.m.regs[a].to_string(-1))).1 {
            Some(t) => t,
            None => return,
        };
        let mut b = t.into_bytes();
        let r = &mut *self.r;
        match r.below(11) {
            10 => {
                rearranged(r, &mut b);
            }
            // a longer fraction that differs far below
            8 => {
                if !b.contains(&b'.') {
                    b.push(b'.');
                }
                b.extend(vec![b'0'; r.below(28)]);
                b.push(b'1' + r.below(9) as u8);
            }
            // leading zeros before a value that differs in one digit
            9 => {
                let at = (b[0] == b'-') as usize;
                let k = r.below(b.len());
                if b[k].is_ascii_digit() {
                    b[k] = b'0' + r.below(10) as u8;
                }
                for _ in 0..9 + r.below(40) {
                    b.insert(at, b'0');
                }
            }
            // trailing zeros: same value, other scale
            0 | 1 => {
                if !b.contains(&b'.') {
                    b.push(b'.');
                }
                b.extend(vec![b'0'; 1 + r.below(12)]);
            }
            // leading zeros
            2 => {
                let at = (b[0] == b'-') as usize;
                for _ in 0..1 + r.below(20) {
                    b.insert(at, b'0');
                }
            }
            // opposite
            3 => {
                if b[0] == b'-' { b.remove(0); } else { b.insert(0, b'-'); }
            }
            // one digit changed
            4 | 5 => {
                let k = r.below(b.len());
                if b[k].is_ascii_digit() {
                    b[k] = b'0' + (b[k] - b'0' + if r.one_in(2) { 1 } else { 9 }) % 10;
                }
            }
            // last digit changed
            6 => {
                let k = b.len() - 1;
                if b[k].is_ascii_digit() {
                    b[k] = b'0' + (b[k] - b'0' + if r.one_in(2) { 1 } else { 9 }) % 10;
                }
            }
            // nines' complement
            _ => {
                for c in &mut b {
                    if c.is_ascii_digit() {
                        *c = b'9' - (*c - b'0');
                    }
                }
            }
        }
        let digits = b.iter().filter(|c| c.is_ascii_digit()).count();
        if digits > 65 {
            // too long to parse: leading zeros go first, then the end is cut
            let at = (b[0] == b'-') as usize;
            let mut digits = digits;
            while digits > 65 && b[at] == b'0' && b.get(at + 1).map_or(false, |c| c.is_ascii_digit()) {
                b.remove(at);
                digits -= 1;
            }
            let cut = b.len() - (digits - 65);
            b.truncate(cut);
        }
        self.lit(d, &b);
    }
    /// around the limits of the integer types, with a fraction
    pub fn limit_value(&mut self, d: usize) {
        let r = &mut *self.r;
        let base: i128 = match r.below(8) {
            0 | 1 => i64::MAX as i128,
            2 | 3 => i64::MIN as i128,
            4 | 5 => u64::MAX as i128,
            6 => 0,
            _ => *r.pick(&[i32::MAX as i128, u32::MAX as i128, 999_999_999, 999_999_999_999_999_999, 10i128.pow(18), 1 << 63]),
        };
        let v = base + r.range(-2, 2) as i128;
        let neg = if v == 0 { r.one_in(2) } else if r.one_in(8) { v > 0 } else { v < 0 };
        let frac: String = match r.below(10) {
            0 => String::new(),
            1 => "0".repeat(1 + r.below(20)),
            2 => "5".into(),
            3 => format!("5{}", "0".repeat(r.below(20))),
            4 => format!("5{}1", "0".repeat(r.below(20))),
            5 => format!("4{}", "9".repeat(r.below(20))),
            6 => format!("{}1", "0".repeat(r.below(20))),
            7 => "9".repeat(1 + r.below(20)),
            8 => format!("{}", r.below(10)),
            _ => format!("{:09}", r.below(1_000_000_000)),
        };
        let zeros = if r.one_in(4) { r.below(20) } else { 0 };
        let t = format!("{}{}{}{}{}", if neg { "-" } else { "" }, "0".repeat(zeros), v.abs(), if frac.is_empty() { "" } else { "." }, frac);
        self.lit(d, t.as_bytes());
    }
    /// few digits at a place far below or above the point
    pub fn thin(&mut self, d: usize) {
        let r = &mut *self.r;
        let v = match r.below(4) {
            0 => 1,
            1 => *r.pick(&[9i64, 5, 4, 99, 499_999_999, 500_000_000, 999_999_999, 1_000_000_001]),
            _ => r.range(1, 3000),
        };
        let s = if r.one_in(2) { "-" } else { "" };
        let n = v.to_string().len();
        let t = match r.below(5) {
            0 | 1 => format!("{}{}e-{}", s, v, r.below(31)),
            2 | 3 => {
                let z = r.below(64 - n);
                format!("{}0.{}{}", s, "0".repeat(z), v)
            }
            _ => format!("{}{}e{}", s, v, r.below(65 - n + 1)),
        };
        self.lit(d, t.as_bytes());
    }
    /// rounds a number away bit by bit, in place
    pub fn wind_down(&mut self, a: usize) {
        let v = &self.m.regs[a];
        let (i, mut n) = (v.intg() as i64, v.frac() as i64);
        let style = self.r.below(4);
        let mut steps = 0;
        while n > -i && steps < 8 && self.m.usable[a] {
            n = match style {
                0 => if n > 0 { (n - 1) / 9 * 9 } else { -i },
                1 => n - 1 - self.r.range(0, 9),
                2 => if n > 0 { 0 } else { -i },
                _ => n - 1 - self.r.range(0, 30),
            };
            let ex = self.extra();
            self.m.rnd(a, a, n as isize, ex);
            steps += 1;
        }
        if self.m.usable[a] && self.r.one_in(2) {
            self.m.rnd(a, a, (-i - 1) as isize, Extra::default());
        }
    }
    /// zeros in many guises
    pub fn zero_value(&mut self, d: usize) {
        match self.r.below(9) {
            // digits that fall off the end
            7 | 8 => {
                let (a, b) = (self.dest(), self.dest());
                self.thin(a);
                if a != b {
                    self.thin(b);
                }
                let ex = self.extra();
                let o = *self.r.pick(&[2usize, 2, 3]);
                let n = self.r.below(5);
                self.m.arith(o, d, a, b, n, ex);
            }
            0 => self.m.setter(2, d),
            1 => self.m.fromi(d, 0),
            2 => {
                let nf = self.r.below(60);
                let t = format!("{}0.{}", if self.r.one_in(2) { "-" } else { "" }, "0".repeat(nf));
                self.lit(d, t.as_bytes());
            }
            3 => {
                let t = format!("-{}", "0".repeat(1 + self.r.below(60)));
                self.lit(d, t.as_bytes());
            }
            4 => {
                let a = self.operand();
                self.m.arith(1, d, a, a, 0, Extra::default());
            }
            5 => {
                let a = self.operand();
                let n = -(self.r.below(90) as isize);
                self.m.rnd(d, a, n, Extra::default());
            }
            _ => {
                let a = self.operand();
                self.m.arith(4, d, a, a, 0, Extra::default());
            }
        }
    }
    fn limb(&mut self) -> u32 {
        let r = &mut *self.r;
        match r.below(8) {
            0 => 0,
            1 => 1,
            2 => 999_999_999,
            3 => 999_999_998,
            4 => 500_000_000,
            5 => 499_999_999,
            6 => group(r),
            _ if r.one_in(3) => (constant(r) % 1_000_000_000) as u32,
            _ => r.below(1_000_000_000) as u32,
        }
    }
    /// k groups written as an integer, top group non-zero
    fn limbs_text(&mut self, k: usize) -> Vec<u8> {
        let mut t = vec![];
        for i in 0..k {
            let mut g = self.limb();
            if i == 0 {
                while g == 0 {
                    g = self.limb();
                }
                t.extend(g.to_string().bytes());
            } else {
                t.extend(format!("{:09}", g).bytes());
            }
        }
        t
    }
    fn scaled(&mut self, t: &mut Vec<u8>, maxf: usize) {
        // move the point
        let nf = count(self.r, maxf);
        if nf > 0 && nf <= 30 {
            t.extend(format!("e-{}", nf).bytes());
        }
        if self.r.one_in(2) {
            t.insert(0, b'-');
        }
    }
    /// registers (a, b) such that a = q*b + r with chosen shapes of groups
    pub fn division(&mut self) -> (usize, usize) {
        let (a, b, q, s) = (0, 1, 2, 3);
        match self.r.below(4) {
            // raw groups
            0 => {
                let (ka, kb) = (1 + self.r.below(7), 1 + self.r.below(7));
                let mut t = self.limbs_text(ka);
                self.scaled(&mut t, 30);
                self.lit(a, &t);
                let mut t = self.limbs_text(kb);
                self.scaled(&mut t, 30);
                self.lit(b, &t);
            }
            // top groups equal or nearly so
            1 => {
                let k = 2 + self.r.below(5);
                let t = self.limbs_text(k);
                let mut u = t[..t.len() - 9].to_vec();
                if self.r.one_in(2) {
                    let k = u.len() - 1;
                    u[k] = b'0' + (u[k] - b'0' + 1) % 10;
                }
                let mut t = t;
                if self.r.one_in(2) {
                    let n = self.r.below(t.len());
                    t.truncate(t.len() - n);
                    t.extend(vec![b'0'; n]);
                }
                self.scaled(&mut t, 30);
                self.scaled(&mut u, 30);
                self.lit(a, &t);
                self.lit(b, &u);
            }
            _ => {
                let kb = 1 + self.r.below(5);
                let kq = 1 + self.r.below(8 - kb);
                let mut t = self.limbs_text(kb);
                self.scaled(&mut t, 12);
                self.lit(b, &t);
                let mut t = self.limbs_text(kq);
                self.scaled(&mut t, 12);
                self.lit(q, &t);
                if self.m.arith(2, a, b, q, 0, Extra::default()) != 0 {
                    self.lit(a, b"7");
                }
                match self.r.below(4) {
                    0 => (),
                    1 => {
                        // just below a multiple
                        self.lit(s, b"1");
                        self.m.arith(1, 4, a, s, 0, Extra::default());
                        if self.m.usable[4] {
                            return (4, b);
                        }
                    }
                    2 => {
                        let t = text(self.r, 9 * kb, 9);
                        self.lit(s, &t);
                        self.m.arith(0, 4, a, s, 0, Extra::default());
                        if self.m.usable[4] {
                            return (4, b);
                        }
                    }
                    _ => {
                        // divisor minus a little added: remainder near the divisor
                        self.lit(s, b"1e-9");
                        self.m.arith(1, 5, b, s, 0, Extra::default());
                        if self.m.usable[5] {
                            self.m.arith(0, 4, a, 5, 0, Extra::default());
                            if self.m.usable[4] {
                                return (4, b);
                            }
                        }
                    }
                }
            }
        }
        (a, b)
    }
    /// the same calls on operands that differ in one group, the sign, the scale or the way of writing
    pub fn variants(&mut self, h: u64) {
        let (a, b) = self.division();
        if !(self.m.usable[a] && self.m.usable[b]) || a == b {
            return;
        }
        let mut regs = vec![b];
        let text = match crate::obs::run(|| Ok(self.m.regs[b].to_string(-1))).1 {
            Some(t) => t.into_bytes(),
            None => return,
        };
        let places: Vec<usize> = (0..text.len()).filter(|i| text[*i].is_ascii_digit()).collect();
        for d in (0..NR).filter(|d| *d != a && *d != b).take(3) {
            let mut t = text.clone();
            match self.r.below(10) {
                8 | 9 if rearranged(self.r, &mut t) => {}
                0 if t[0] == b'-' => {
                    t.remove(0);
                }
                0 => t.insert(0, b'-'),
                1 if t.contains(&b'.') => t.push(b'0'),
                1 => t.extend(b".0"),
                2 => {
                    let at = places[0];
                    t.insert(at, b'0');
                }
                3 => {
                    // another order of magnitude
                    t.extend(if self.r.one_in(2) { &b"e9"[..] } else { b"e-9" });
                }
                // one digit
                _ => {
                    let at = *self.r.pick(&places);
                    t[at] = b'0' + ((t[at] - b'0' + 1 + self.r.below(9) as u8) % 10);
                }
            }
            self.lit(d, &t);
            regs.push(d);
        }
        let d = (0..NR).find(|d| *d != a && !regs.contains(d)).unwrap();
        let n = self.incr();
        let places = self.round_n(b);
        let at = self.print_n(b);
        for k in 0..2 * regs.len() {
            let y = if k < regs.len() { regs[k] } else { *self.r.pick(&regs) };
            match h / 2 % 9 {
                0 | 1 => { self.m.arith(3, d, a, y, n, Extra::default()); }
                2 => { self.m.arith(4, d, a, y, 0, Extra::default()); }
                3 => { self.m.arith(2, d, a, y, 0, Extra::default()); }
                4 => { self.m.arith(3, d, y, a, n, Extra::default()); }
                5 => { self.m.rnd(d, y, places, Extra::default()); }
                6 => {
                    self.m.print(y, at, b"");
                    self.m.print(y, -1, b"");
                }
                7 => {
                    self.m.cmp(y, b, Extra::default());
                    self.m.cmp(y, y, Extra::default());
                    self.m.cmp(a, y, Extra::default());
                }
                _ => {
                    self.m.hash(y, b);
                    self.m.arith(0, d, a, y, 0, Extra::default());
                }
            }
        }
    }
    pub fn incr(&mut self) -> usize {
        if self.r.one_in(12) {
            return constant(self.r) as usize;
        }
        match self.r.below(10) {
            0..=4 => 4,
            5 => 0,
            6 => self.r.below(40),
            7 => *self.r.pick(&[8usize, 9, 10, 17, 18, 19, 26, 27, 28, 35, 36, 37, 45, 100, 119, 120, 127, 128, 200]),
            8 => self.r.below(300),
            _ => *self.r.pick(&[255usize, 256, 1000, 65_535, 1 << 31, usize::MAX, usize::MAX / 2, usize::MAX / 2 + 1]),
        }
    }
    pub fn round_n(&mut self, a: usize) -> isize {
        let v = &self.m.regs[a];
        let (i, f) = (v.intg() as i64, v.frac() as i64);
        let r = &mut *self.r;
        if r.one_in(16) {
            let k = constant(r) as isize;
            return if r.one_in(2) { k } else { k.wrapping_neg() };
        }
        (match r.below(12) {
            0 => f,
            10 => (f - 1).max(0) / 9 * 9,
            11 => *r.pick(&[(f - 1).max(0) / 9 * 9 - 9, 9 * (f / 9) + 1, 9 * (f / 9) - 1, -9 * ((i - 1).max(0) / 9)]),
            1 => f + r.range(0, 12),
            2 => -i + r.range(-2, 2),
            3 => 9 * r.range(-9, 9),
            4 => *r.pick(&[127i64, 128, 255, 256, 1000, -127, -128, -129, -255, -256, 81, 82, -81, -82, 100, i64::MAX, i64::MIN + 1, 1 << 31, 1 << 32]),
            5 => 0,
            6 => f - 1 - r.range(0, 3),
            _ => r.range(-i, f),
        }) as isize
    }
    pub fn print_n(&mut self, a: usize) -> isize {
        let v = &self.m.regs[a];
        let f = v.frac() as i64;
        let r = &mut *self.r;
        if r.one_in(16) {
            let k = constant(r).min(if r.one_in(30) { 70_000 } else { 900 });
            return k as isize;
        }
        (match r.below(8) {
            0 => 0,
            1 => f,
            2 => f + 1 + r.range(0, 12),
            3 => (f - 1 - r.range(0, 3)).max(0),
            4 => 9 * r.range(0, 9),
            5 => *r.pick(&[80i64, 81, 82, 100, 126, 127, 128, 129, 130, 255, 256, 300, 512, 1100]),
            _ => r.range(0, f.max(1)),
        }) as isize
    }

    /// one weighted random operation
    pub fn op(&mut self, w: &[u32; 27]) {
        let k = self.r.weighted(w);
        let ex = self.extra();
        match k {
            0 => {
                let d = self.dest();
                self.value(d)
            }
            1 => {
                let d = self.dest();
                let t = if self.r.one_in(2) { any_text(self.r) } else { text(self.r, 65, 65) };
                self.m.parse(d, &t, true, ex.fresh);
            }
            2 => {
                let a = self.operand();
                let t = any_text(self.r);
                self.m.parsekeep(a, &t);
            }
            3 => {
                let d = self.dest();
                self.int_value(d)
            }
            4..=8 => {
                let (a, b, d) = (self.operand(), self.operand(), self.dest());
                let n = if k == 7 { if ex.oper && !self.r.one_in(4) { 4 } else { self.incr() } } else { 0 };
                self.m.arith(k - 4, d, a, b, n, ex);
            }
            9 => {
                let (a, d) = (self.operand(), self.dest());
                let n = self.round_n(a);
                self.m.rnd(d, a, n, ex);
            }
            10 => {
                let (a, b) = (self.operand(), self.operand());
                self.m.cmp(a, b, ex);
            }
            11 => {
                let mut l = vec![];
                for _ in 0..NR {
                    let a = self.operand();
                    if !l.contains(&a) {
                        l.push(a);
                    }
                }
                self.m.sort(&l);
            }
            12 => {
                let (a, b) = (self.operand(), self.operand());
                self.m.hash(a, b);
            }
            13 => {
                let a = self.operand();
                self.m.toi(a, ex)
            }
            14 => {
                let a = self.operand();
                self.m.tou(a, ex)
            }
            15 => {
                let a = self.operand();
                let p = prefix(self.r);
                self.m.print(a, -1, &p);
            }
            16 => {
                let a = self.operand();
                let n = self.print_n(a);
                let p = prefix(self.r);
                self.m.print(a, n, &p);
            }
            17 => {
                let a = self.operand();
                self.m.rt(a)
            }
            18 => {
                let (k, d) = (self.r.below(6), self.operand());
                self.m.setter(k, d)
            }
            19 => {
                let (a, d) = (self.operand(), self.dest());
                self.m.copy(d, a)
            }
            20 => {
                let d = self.dest();
                self.wide(d)
            }
            21 => {
                let d = self.dest();
                self.related(d)
            }
            22 => {
                let d = self.dest();
                self.zero_value(d)
            }
            24 => {
                let d = self.dest();
                self.limit_value(d)
            }
            25 => {
                let d = self.dest();
                self.thin(d)
            }
            26 => {
                let a = self.operand();
                self.wind_down(a)
            }
            _ => {
                // text of any kind through FromStr / non-resetting parse into a pristine zero
                let d = self.dest();
                let t = any_text(self.r);
                match std::str::from_utf8(&t) {
                    Ok(s) if self.r.one_in(2) => {
                        self.m.fstr(d, s);
                    }
                    _ => {
                        self.m.setter(2, d);
                        self.m.parse(d, &t, false, false);
                    }
                }
            }
        }
    }
}

fn prefix(r: &mut Rng) -> Vec<u8> {
    let n = if r.one_in(2) { 0 } else { r.below(12) };
    (0..n).map(|_| *r.pick(b"0123456789.-e \x00\xffabc")).collect()
}

/// value number k of the exhaustive family of short decimals: up to `gs` groups from a palette,
/// at every alignment of the point, both signs
pub struct Family {
    pub pal: Vec<u32>,
    pub gs: usize,
}
impl Family {
    pub fn size(&self) -> u64 {
        (self.pal.len() as u64).pow(self.gs as u32) * (self.gs as u64 + 1) * 2
    }
    pub fn text(&self, mut k: u64) -> Vec<u8> {
        let neg = k % 2 == 1;
        k /= 2;
        let point = (k % (self.gs as u64 + 1)) as usize; // groups after the point
        k /= self.gs as u64 + 1;
        let mut t = vec![];
        if neg {
            t.push(b'-');
        }
        let ni = self.gs - point;
        if ni == 0 {
            t.push(b'0');
        }
        for i in 0..self.gs {
            let g = self.pal[(k % self.pal.len() as u64) as usize];
            k /= self.pal.len() as u64;
            if i == ni {
                t.push(b'.');
            }
            t.extend(format!("{:09}", g).bytes());
        }
        t
    }
}

/// close to a multiple of 10^9 or of 10^18
fn near_group(r: &mut Rng) -> u64 {
    let unit = if r.one_in(4) { 1_000_000_000_000_000_000u64 } else { 1_000_000_000 };
    let most = u64::MAX / unit;
    let k = (r.next() >> r.below(64)) % (most + 1);
    (k * unit).wrapping_add(r.below(5) as u64).wrapping_sub(r.below(3) as u64)
}
