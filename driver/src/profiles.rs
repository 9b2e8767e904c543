//! One profile per kind of exploration; a history is a function of (profile, seed, number).

use crate::gen::*;
use crate::machine::*;
use crate::rng::Rng;


const EXH_PARSE: &[u8] = b"019.-+e ";
const PER: u64 = 24; // cases per history of an exhaustive family

fn words(max: u32) -> u64 {
    (0..=max).map(|k| (EXH_PARSE.len() as u64).pow(k)).sum()
}
fn word(mut k: u64) -> Vec<u8> {
    let b = EXH_PARSE.len() as u64;
    let mut len = 0;
    while k >= b.pow(len) {
        k -= b.pow(len);
        len += 1;
    }
    (0..len)
        .map(|_| {
            let c = EXH_PARSE[(k % b) as usize];
            k /= b;
            c
        })
        .collect()
}

/// every sequence of at most three of these pieces: spellings of numbers elsewhere, and nearly numbers
const PIECES: [&str; 44] = [
    "0", "7", "12", "000", "123456789", "1.5", ".", "-", "+", "e", "E", "e5", "e-5", "E+2", "e0", ".5", "5.", " ", "\t", "\n", "\0", "_", ",",
    "x", "0x", "0b", "o", "inf", "nan", "NaN", "Infinity", "d", "f", "f64", "%", "$", "(", ")", "'", "\u{ff11}", "\u{2212}", "e65", "e-30",
    "99999999999999999999999999999999999999999999999999999999999999999",
];
fn piece_cases() -> u64 {
    let n = PIECES.len() as u64;
    n + n * n + n * n * n
}
fn piece_case(mut k: u64) -> Vec<u8> {
    let n = PIECES.len() as u64;
    let mut len = 1;
    let mut all = n;
    while k >= all {
        k -= all;
        all *= n;
        len += 1;
    }
    let mut t = Vec::new();
    for _ in 0..len {
        t.extend_from_slice(PIECES[(k % n) as usize].as_bytes());
        k /= n;
    }
    t
}

/// every byte at every position of these texts, inserted or instead of what is there
const BYTE_BASES: [&str; 16] = [
    "", "5", "-5", "1.5", "5.", ".5", "1e1", "1e10", "-1.5e-12", "+7E+3", "12.5e05", "0.0e-0", "1234567890.1e-3", "9e-30", "3e30", "-0",
];
/// long runs of digits, tried with the bytes that look like digits or like other characters of numbers
const LONG_BASES: [&str; 4] = [
    "12345678901234567890123456789012345678901234567890123456789",
    "0000000000000000000012345678.876543210",
    "-98765432109876543210e-15",
    ".00000000012345678901234567890e20",
];
fn long_bytes() -> Vec<u8> {
    let mut v: Vec<u8> = (0x29..=0x40).filter(|c| !(0x31..=0x38).contains(c)).collect();
    v.extend([0, 0x0e, 0x10, 0x19, 0x20, 0x45, 0x5f, 0x65, 0x70, 0x79, 0xb0, 0xb5, 0xb9, 0xd9, 0xff]);
    v
}
fn byte_slots() -> Vec<(usize, usize, bool)> {
    let mut v = Vec::new();
    for (b, t) in BYTE_BASES.iter().enumerate() {
        for at in 0..=t.len() {
            v.push((b, at, true));
            if at < t.len() {
                v.push((b, at, false));
            }
        }
    }
    v
}
fn byte_cases() -> u64 {
    (byte_slots().len() * 256 + LONG_BASES.iter().map(|t| 2 * t.len() * long_bytes().len()).sum::<usize>()) as u64
}
fn byte_case(k: u64, slots: &[(usize, usize, bool)]) -> Vec<u8> {
    let mut k = k as usize;
    if k >= slots.len() * 256 {
        k -= slots.len() * 256;
        let bytes = long_bytes();
        for base in LONG_BASES {
            let n = 2 * base.len() * bytes.len();
            if k >= n {
                k -= n;
                continue;
            }
            let mut t = base.as_bytes().to_vec();
            let (c, at) = (bytes[k % bytes.len()], k / bytes.len());
            if at % 2 == 0 {
                t[at / 2] = c;
            } else {
                t.insert(at / 2, c);
            }
            return t;
        }
        unreachable!();
    }
    let (b, at, insert) = slots[k / 256];
    let mut t = BYTE_BASES[b].as_bytes().to_vec();
    if insert {
        t.insert(at, (k % 256) as u8);
    } else {
        t[at] = (k % 256) as u8;
    }
    t
}

fn fam(name: &str) -> Family {
    match name {
        "xpair3" => Family { pal: vec![0, 1, 500_000_000, 999_999_999], gs: 3 },
        "xpair2" => Family { pal: vec![0, 1, 9, 499_999_999, 500_000_000, 999_999_998, 999_999_999], gs: 2 },
        _ => Family { pal: vec![0, 1, 499_999_999, 500_000_000, 999_999_999], gs: 4 },
    }
}

const ROUND_SEEDS: [&str; 12] = [
    "999999999999999999999999999999999999",
    "444444444444444444444444444444444444",
    "555555555555555555555555555555555555",
    "499999999499999999499999999499999999",
    "500000000500000000500000000500000000",
    "000000000000000000000000000000000000",
    "100000000000000000000000000000000000",
    "000000005000000005000000005000000005",
    "949999999949999999949999999949999999",
    "123456789123456789123456789123456789",
    "050000000000000000050000000000000000",
    "999999995999999995999999995999999995",
];
/// (digits before the point, digits after, pattern, n offset)
fn round_cases() -> u64 {
    12 * 30 * 30
}

fn limit_cases() -> u64 {
    68 * 36
}

pub fn size(profile: &str) -> Option<u64> {
    let cases = match profile {
        "xword5" => words(5),
        "xword6" => words(6),
        "xword7" => words(7),
        "xbyte" => byte_cases(),
        "xpiece" => piece_cases(),
        "xround" => round_cases(),
        "xlimit" => limit_cases(),
        "xpair3" | "xpair2" | "xpair4" => return Some(fam(profile).size().pow(2).div_ceil(6)),
        _ => return None,
    };
    Some(cases.div_ceil(PER))
}

/// weights: 0 value, 1 parse, 2 parsekeep, 3 int, 4 add, 5 sub, 6 mul, 7 div, 8 rem, 9 round, 10 cmp,
/// 11 sort, 12 hash, 13 toi, 14 tou, 15 print, 16 print at, 17 round trip, 18 setters, 19 copy,
/// 20 wide, 21 related, 22 zero, 23 fresh parse, 24 near an integer limit, 25 thin, 26 wind down
fn weights(profile: &str) -> ([u32; 27], u8, usize) {
    //       0  1  2  3  4  5  6  7  8  9 10 11 12 13 14 15 16 17 18 19 20 21 22 23
    match profile {
        "parse" => ([0, 40, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 1, 20, 0, 0, 0], 0, 24),
        "target" => ([4, 30, 30, 2, 4, 4, 6, 4, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 3, 0, 3, 2, 0, 1, 0], 1, 20),
        "print" => ([10, 4, 0, 4, 4, 4, 4, 4, 2, 4, 0, 0, 0, 0, 0, 40, 2, 8, 2, 0, 3, 1, 2, 1, 1, 2, 0], 0, 24),
        "printat" => ([10, 4, 0, 4, 4, 4, 4, 4, 2, 4, 0, 0, 0, 0, 0, 4, 40, 0, 2, 0, 3, 1, 2, 1, 1, 2, 0], 0, 24),
        "round_trip" => ([10, 4, 0, 4, 6, 6, 6, 6, 4, 6, 0, 0, 0, 0, 0, 2, 0, 40, 2, 0, 3, 1, 2, 1, 1, 2, 0], 0, 24),
        "addsub" => ([14, 0, 0, 2, 30, 30, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 3, 8, 2, 0, 0, 2, 0], 0, 24),
        "mul" => ([16, 0, 0, 2, 3, 2, 40, 2, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 3, 2, 1, 0, 0, 5, 0], 0, 24),
        "div" | "rem" => ([14, 0, 0, 2, 2, 2, 3, 20, 20, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 3, 4, 2, 0, 1, 3, 0], 0, 20),
        "divzero" => ([10, 0, 0, 2, 4, 4, 3, 25, 25, 4, 0, 0, 0, 0, 0, 0, 0, 0, 3, 0, 2, 2, 24, 0, 0, 3, 3], 4, 24),
        "overflow" => ([14, 0, 0, 1, 14, 14, 14, 14, 8, 2, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 14, 6, 1, 0, 0, 6, 0], 0, 24),
        "round" => ([16, 0, 0, 2, 3, 3, 3, 3, 1, 50, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 4, 2, 1, 0, 2, 2, 4], 0, 22),
        "cmp" => ([16, 0, 0, 3, 4, 4, 3, 3, 3, 4, 40, 4, 0, 0, 0, 0, 0, 0, 3, 1, 2, 24, 4, 0, 4, 3, 0], 0, 28),
        "hash" => ([14, 0, 0, 3, 6, 6, 4, 3, 3, 6, 0, 0, 44, 0, 0, 0, 0, 0, 3, 2, 2, 26, 4, 0, 2, 2, 0], 0, 28),
        "ints" => ([2, 0, 0, 44, 4, 4, 2, 2, 2, 2, 4, 0, 0, 4, 4, 2, 0, 2, 1, 0, 0, 2, 0, 0, 2, 0, 0], 0, 28),
        "toints" => ([8, 0, 0, 12, 6, 6, 4, 6, 2, 4, 0, 0, 0, 30, 30, 0, 0, 0, 2, 0, 2, 8, 3, 0, 40, 1, 0], 0, 28),
        "zeros" => ([10, 3, 1, 2, 12, 12, 12, 12, 12, 20, 3, 0, 0, 0, 0, 6, 0, 0, 8, 0, 1, 4, 14, 2, 1, 12, 3], 2, 24),
        "dest" => ([10, 3, 2, 1, 16, 16, 16, 16, 16, 16, 0, 0, 0, 1, 1, 0, 0, 0, 4, 0, 4, 3, 2, 0, 1, 3, 0], 5, 20),
        "remade" => ([14, 0, 0, 2, 12, 12, 10, 10, 12, 14, 8, 0, 0, 4, 4, 0, 0, 0, 1, 0, 3, 3, 2, 0, 3, 3, 0], 8, 20),
        "operators" => ([14, 0, 0, 2, 16, 16, 16, 18, 16, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 5, 3, 3, 0, 1, 4, 0], 2, 20),
        "setters" => ([10, 2, 0, 3, 6, 6, 5, 5, 5, 8, 0, 0, 0, 0, 0, 0, 0, 0, 40, 2, 2, 4, 8, 1, 1, 3, 3], 0, 24),
        "creep" => ([5, 0, 0, 1, 16, 16, 16, 14, 14, 10, 0, 0, 0, 0, 0, 0, 8, 0, 2, 1, 2, 2, 2, 0, 0, 1, 4], 0, 60),
        "mirror" => ([14, 0, 0, 2, 14, 14, 20, 14, 14, 14, 8, 0, 0, 0, 0, 0, 0, 0, 2, 0, 4, 3, 3, 0, 1, 4, 1], 16, 20),
        "memory" => ([14, 3, 0, 3, 8, 8, 8, 12, 12, 8, 5, 0, 4, 3, 3, 3, 3, 0, 1, 1, 2, 30, 2, 0, 2, 2, 0], 32, 24),
        // everything
        _ => ([10, 4, 2, 2, 8, 8, 8, 8, 8, 8, 4, 1, 4, 2, 2, 3, 3, 3, 3, 2, 2, 4, 2, 2, 2, 3, 2], 31, 30),
    }
}

pub fn history(profile: &str, seed: u64, h: u64, m: &mut Machine) {
    m.reset();
    let mut rng = Rng::new(seed, profile, h);
    let (w, ex, len) = weights(profile);
    m.keep = ex & 32 != 0;
    let mut c = Ctx { m, r: &mut rng, ex };
    match profile {
        "xword5" | "xword6" | "xword7" => {
            let max = size(profile).unwrap() * PER;
            for k in h * PER..(h + 1) * PER {
                if k < max {
                    let t = word(k);
                    let d = (k % NR as u64) as usize;
                    match k % 4 {
                        0 => { c.m.fstr(d, std::str::from_utf8(&t).unwrap()); }
                        _ => { c.m.parse(d, &t, true, false); }
                    }
                    if c.m.events % 5 == 0 {
                        c.m.parsekeep((d + 3) % NR, &t);
                    }
                }
            }
        }
        "xbyte" => {
            let slots = byte_slots();
            for k in h * PER..((h + 1) * PER).min(byte_cases()) {
                let t = byte_case(k, &slots);
                let d = (k % NR as u64) as usize;
                match std::str::from_utf8(&t) {
                    Ok(u) if k % 3 == 0 => { c.m.fstr(d, u); }
                    _ => { c.m.parse(d, &t, true, false); }
                }
                if k % 4 == 0 {
                    c.m.parsekeep((d + 3) % NR, &t);
                }
            }
        }
        "xpiece" => {
            for k in h * PER..((h + 1) * PER).min(piece_cases()) {
                let t = piece_case(k);
                let d = (k % NR as u64) as usize;
                if k % 3 == 0 {
                    c.m.fstr(d, std::str::from_utf8(&t).unwrap());
                } else {
                    c.m.parse(d, &t, true, false);
                }
                if k % 4 == 0 {
                    c.m.parsekeep((d + 3) % NR, &t);
                }
            }
        }
        // every total of written digits around the limits, with every exponent class
        "xlimit" => {
            for k in h * PER..((h + 1) * PER).min(limit_cases()) {
                let total = (k % 68) as usize; // written digits
                let fr = (k / 68) as usize; // exponent class
                let exps: [i64; 6] = [0, 65 - total as i64, 66 - total as i64, -30, -31, 65];
                let e = exps[fr % 6];
                let point = [0, 1, total / 2, total.saturating_sub(1), total, total.saturating_sub(9)][fr / 6].min(total);
                let lead = [0usize, 3, 10][(k % 3) as usize].min(total);
                let mut t = digits(c.r, total, 0);
                for x in &mut t[..lead] {
                    *x = b'0';
                }
                let e = if k % 2 == 0 { e } else { e + (total - point) as i64 };
                t.insert(point, b'.');
                if e != 0 {
                    t.extend(format!("e{}", e).bytes());
                }
                let d = (k % NR as u64) as usize;
                c.m.parse(d, &t, true, false);
                if c.m.events % 3 == 0 {
                    c.m.rt(d);
                }
            }
        }
        "xround" => {
            for k in h * PER..((h + 1) * PER).min(round_cases()) {
                let pat = ROUND_SEEDS[(k % 12) as usize];
                let i = (k / 12 % 30) as usize;
                let j = (k / 360 % 30) as usize;
                let mut t = vec![];
                if k % 7 == 0 {
                    t.push(b'-');
                }
                t.extend(pat[..i.min(36)].bytes());
                if i == 0 {
                    t.push(b'0');
                }
                if j > 0 {
                    t.push(b'.');
                    t.extend(pat[..j].bytes());
                }
                c.lit(0, &t);
                let lo = -(i as i64) - 2;
                let hi = j as i64 + 10;
                // a slice of the positions, all of them over seeds
                for n in lo..=hi {
                    if (n + k as i64 + seed as i64).rem_euclid(4) == 0 {
                        let d = 1 + (n.rem_euclid(6)) as usize;
                        let e = c.ex;
                        let _ = e;
                        c.m.rnd(d, 0, n as isize, Extra::default());
                    }
                }
            }
        }
        "xpair3" | "xpair2" | "xpair4" => {
            let f = fam(profile);
            let n = f.size();
            // spread over the square by a fixed odd stride so that a prefix is a sample of all of it
            let total = n * n;
            for k in h * 6..(h + 1) * 6 {
                if k >= total {
                    break;
                }
                let p = (k as u128 * 2_654_435_761u128 % total as u128) as u64;
                c.lit(0, &f.text(p % n));
                c.lit(1, &f.text(p / n));
                c.m.arith(0, 2, 0, 1, 0, Extra::default());
                c.m.arith(1, 3, 0, 1, 0, Extra::default());
                c.m.arith(3, 4, 0, 1, 4, Extra::default());
                c.m.arith(4, 5, 0, 1, 0, Extra::default());
                c.m.arith(2, 6, 0, 1, 0, Extra::default());
                c.m.cmp(0, 1, Extra::default());
            }
        }
        _ => {
            let prefill = match profile {
                "parse" | "target" => 2,
                _ => 4,
            };
            for d in 0..prefill {
                c.value(d);
            }
            if profile == "memory" && h % 2 == 0 {
                c.variants(h);
            }
            if profile == "div" || profile == "rem" || profile == "overflow" || (profile == "all" && h % 4 == 0) {
                for _ in 0..2 {
                    let (a, b) = c.division();
                    let d = c.dest();
                    let n = c.incr();
                    let ex = Extra::default();
                    if profile != "rem" {
                        c.m.arith(3, d, a, b, n, ex);
                    }
                    if profile != "div" && d != a && d != b {
                        let d = c.dest();
                        c.m.arith(4, d, a, b, 0, ex);
                    }
                }
            }
            while c.m.events < len {
                c.op(&w);
            }
            // a long run of operations that keep a small value small
            if profile == "creep" {
                let one = 1usize;
                c.lit(0, b"3.7");
                c.lit(one, b"1");
                let mut x = 0usize;
                for k in 0..40 {
                    let d = 2 + k % 5;
                    let o = [2usize, 0, 1, 3, 2, 4][c.r.below(6)];
                    let before = c.m.usable[d];
                    let _ = before;
                    let y = if o == 4 { 7 } else { one };
                    if o == 4 {
                        c.lit(7, b"1000");
                    }
                    if c.m.arith(o, d, x, y, 4, Extra::default()) != 0 {
                        break;
                    }
                    x = d;
                    if k % 8 == 7 {
                        c.m.rnd(d, x, 3, Extra::default());
                    }
                }
            }
        }
    }
}
