//! Programs written by the specification (FxdGen.tla): one history per line, operations separated
//! by ';', words by blanks.  Registers are numbered from 1.
//!   parse D TEXT | keep A TEXT | int D N | add|sub|mul|rem D A B | div D A B N | rnd D A N | cmp A B
//!   hash A B | toi A | tou A | print A N | rt A | neg|pos|zero|one D | copy D A | sort

use crate::machine::*;

pub fn run(line: &str, m: &mut Machine, bits: u8) {
    m.reset();
    m.keep = bits & 32 != 0;
    let all = Extra { fresh: bits & 1 != 0, oper: bits & 2 != 0, after: bits & 4 != 0, remade: 0, mirror: bits & 16 != 0 };
    for (i, op) in line.split(';').enumerate() {
        let w: Vec<&str> = op.split_whitespace().collect();
        if w.is_empty() {
            continue;
        }
        let remade = if bits & 8 != 0 { 1 + ((i * 7 + line.len()) % 63) as u8 } else { 0 };
        let ex = Extra { remade, ..all };
        let reg = |k: usize| w[k].parse::<usize>().unwrap() - 1;
        match w[0] {
            "parse" => {
                m.parse(reg(1), w.get(2).unwrap_or(&"").as_bytes(), true, true);
            }
            "keep" => m.parsekeep(reg(1), w.get(2).unwrap_or(&"").as_bytes()),
            "int" => match w[2].parse::<i64>() {
                Ok(v) => m.fromi(reg(1), v),
                Err(_) => m.fromu(reg(1), w[2].parse().unwrap()),
            },
            "add" | "sub" | "mul" | "div" | "rem" => {
                let o = OPS.iter().position(|x| *x == w[0]).unwrap();
                if !(m.usable[reg(2)] && m.usable[reg(3)]) {
                    continue;
                }
                let n = w.get(4).map(|x| x.parse().unwrap()).unwrap_or(0);
                m.arith(o, reg(1), reg(2), reg(3), n, ex);
            }
            "rnd" => {
                if m.usable[reg(2)] {
                    m.rnd(reg(1), reg(2), w[3].parse().unwrap(), ex);
                }
            }
            "cmp" => m.cmp(reg(1), reg(2), ex),
            "hash" => m.hash(reg(1), reg(2)),
            "toi" => m.toi(reg(1), ex),
            "tou" => m.tou(reg(1), ex),
            "print" => {
                let n: isize = w[2].parse().unwrap();
                m.print(reg(1), n, [&b"ab"[..], b"1.5", b"-0.0e", b"."][(n & 3) as usize])
            },
            "rt" => m.rt(reg(1)),
            "neg" => m.setter(0, reg(1)),
            "pos" => m.setter(1, reg(1)),
            "zero" => m.setter(2, reg(1)),
            "one" => m.setter(3, reg(1)),
            "copy" => m.copy(reg(1), reg(2)),
            "sort" => {
                let l: Vec<usize> = (0..NR).filter(|k| m.usable[*k]).collect();
                m.sort(&l)
            }
            _ => panic!("bad program: {}", op),
        }
    }
}
