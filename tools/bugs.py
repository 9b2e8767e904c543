S, A, R, D, C, U = "src/serde.rs", "src/arith.rs", "src/round.rs", "src/decimal.rs", "src/cmp.rs", "src/utils.rs"

# ---- text in
bug("c01-trailing-point", "C01", S, [("let frac_digits = if dotchar == -1 || last < dotchar {", "let frac_digits = if dotchar == -1 {")],
    "a number written with a point and no digit after it", "5. parses as 50",
    'eq(&p("5."), "5"); eq(&p("-120.e2"), "-12000"); eq(&p("7.5"), "7.5");')
bug("c02-negative-exponent-limit", "C02", S, [("(nege && exp as usize > MAX_FRAC)", "(nege && exp as usize >= MAX_FRAC)")],
    "an exponent of exactly -30", "1e-30 is refused",
    'eq(&p("1e-30"), "0.000000000000000000000000000001"); assert!("1e-31".parse::<FixedDecimal>().is_err());')
bug("c02-digits-written-only", "C02", S, [("if digits as usize > MAX_DIGITS {", "if d as usize > MAX_DIGITS {")],
    "zeros supplied by the exponent take the number beyond 65 digits", "over-long numbers are accepted or panic",
    'assert!("1e65".parse::<FixedDecimal>().is_err()); assert!("12e64".parse::<FixedDecimal>().is_err()); eq(&p("1e64"), &format!("1{}", "0".repeat(64)));')
bug("c03-reset-after-validation", "C03", S, [("""        if reset {
            self.set_zero();
        }
        if bs.is_empty() {""", """        if bs.is_empty() {"""), ("""        // units of integral part and fractional part
""", """        if reset {
            self.set_zero();
        }
        // units of integral part and fractional part
""")],
    "a refused text parsed with reset into a decimal that holds something", "the old value survives a failed resetting parse",
    'let mut d = p("12.5"); assert!(d.from_ascii_str("1e", true).is_err()); eq(&d, "0"); assert!(d.is_zero());')
bug("c03-scale-left-behind", "C03", S, [("""        if digits as usize > MAX_DIGITS {
            return Err(Error::ConversionSyntax);
        }
        let (frac, digits) = (frac as i8, digits as i8);
""", """        if neg && self.is_zero() {
            self.intg = 1;
            self.frac = frac as i8;
        }
        if digits as usize > MAX_DIGITS {
            return Err(Error::ConversionSyntax);
        }
        let (frac, digits) = (frac as i8, digits as i8);
""")],
    "a negative text with too many digits, parsed into a zero", "the target keeps the scale of the refused text",
    'let mut d = z(); assert!(d.from_ascii_str("-0.1234567890123456789012345678901234567890123456789012345678901234567890", true).is_err()); eq(&d, "0"); assert_eq!(d.frac(), 0);')

# ---- text out
bug("c04-table-674", "C04", U, [("b'6', b'7', b'4'", "b'6', b'4', b'7'")],
    "a group of three digits 674", "674 prints as 647",
    'eq(&p("1674"), "1674"); eq(&p("0.000674"), "0.000674"); eq(&p("12673"), "12673");')
bug("c05-pad-from-scale", "C05", S, [("for _ in 0..frac - full_frac_digits {", "for _ in 0..frac - self.frac() as isize {")],
    "a precision beyond the groups of a scale that is not a multiple of nine", "too many zeros",
    'assert_eq!(p("1.5").to_string(12), "1.500000000000"); assert_eq!(p("1.5").to_string(9), "1.500000000");')
bug("c06-fraction-limit-in-parse", "C06", S, [("        let frac_digits = if dotchar == -1 || last < dotchar {", """        if dotchar != -1 && last - dotchar > MAX_FRAC as isize + 2 {
            return Err(Error::ConversionSyntax);
        }
        let frac_digits = if dotchar == -1 || last < dotchar {""")],
    "a decimal with 33 to 36 fractional digits, as multiplication and division give", "its own printing is refused",
    'let d = mul(&p("0.12345678901234567"), &p("0.12345678901234567")); assert_eq!(d.frac(), 34); let e = p(&s(&d)); assert_eq!(e, d);')

# ---- sums
bug("c07-zero-scale", "C07", A, [("""        if rhs.is_zero() {
            *res = lhs.clone();
            return Ok(());
        }""", """        if rhs.is_zero() || rhs.intg_units_non_zero() == 0 && rhs.frac_units() > lhs.frac_units() + 2 {
            *res = lhs.clone();
            return Ok(());
        }""", 1)],
    "a sum with a number below one that has over two fractional groups more", "the small number is dropped",
    'eq(&add(&p("1"), &p("0.0000000000000000001")), "1.0000000000000000001");')
bug("c08-fraction-limit-dropped", "C08", A, [("    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds maximum fractional units", "    if res_frac_units > MAX_FRAC_UNITS + 1 {\n        // exceeds maximum fractional units")],
    "factors with more than 36 fractional digits together", "the product keeps 45 fractional digits instead of 36",
    'let a = p("0.0000000000000000001"); let b = p("0.00000000000000000123"); let r = mul(&a, &b); assert_eq!(r.frac(), 36);')
bug("c09-scale-limit-dropped", "C09", A, [("    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds maximum fractional digits", "    if res_frac_units > MAX_FRAC_UNITS + 1 {\n        // exceeds maximum fractional digits")],
    "operands whose extended scales exceed 36 digits together", "a quotient with 45 fractional digits",
    'let q = div(&p("1.0000000000000000001"), &p("3.0000000001"), 4); assert_eq!(q.frac(), 36);')
bug("c11-zero-by-zero", "C11", A, [("        // divider is zero\n        return Err(Error::DivisionByZero);", "        // divider is zero\n        return if lhs.is_zero() { Ok(()) } else { Err(Error::DivisionByZero) };", 2)],
    "the remainder of zero by zero", "succeeds with zero instead of reporting division by zero",
    'let mut r = z(); assert!(matches!(FixedDecimal::rem_to(&p("0.00"), &p("0"), &mut r), Err(Error::DivisionByZero)));')
bug("c11-destination-kept", "C11", A, [("    res.set_zero(); // always clear result first\n    let lhs_intg = lhs.intg();", "    let lhs_intg = lhs.intg();", 1), ("    let mut lhs_non_zero = (liu + lfu) as isize - 1;", "    res.set_zero(); // always clear result first\n    let mut lhs_non_zero = (liu + lfu) as isize - 1;", 1)],
    "division by zero into a destination that holds something", "the old content survives the error",
    'let mut r = p("7.5"); assert!(FixedDecimal::div_to(&p("1"), &p("0.0"), &mut r, 4).is_err()); eq(&r, "0");')
bug("c12-spurious-overflow-div", "C12", A, [("        if res_intg_units > MAX_UNITS {\n            return Err(Error::Overflow);", "        if res_intg_units >= MAX_UNITS {\n            return Err(Error::Overflow);")],
    "a quotient of 73 to 81 integral digits", "overflow is reported although it fits",
    'let a = mul(&p(&format!("1{}", "0".repeat(60))), &p("1000000000000000")); eq(&div(&a, &p("1"), 0), &format!("1{}", "0".repeat(75)));')
bug("c12-spurious-overflow-mul", "C12", A, [("    if res_intg_units > MAX_UNITS {\n        // integral overflow", "    if res_intg_units >= MAX_UNITS {\n        // integral overflow")],
    "a product of 73 to 81 integral digits", "overflow is reported although it fits",
    'eq(&mul(&p(&format!("1{}", "0".repeat(60))), &p("1000000000000000")), &format!("1{}", "0".repeat(75)));')

# ---- rounding
bug("c14-in-place-tie-at-edge", "C14", R, [("if self.lsu[frac_units - round_frac_units] >= HALF_UNIT as i32 {", "if self.lsu[frac_units - round_frac_units] > HALF_UNIT as i32 {", 1)],
    "rounding in place at a group edge, the next group being 500000000 with another group below", "rounds down where the copying form rounds up",
    'let a = p("1.5000000001"); let mut d = a.clone(); d.round(0); let mut e = z(); a.round_to(&mut e, 0); eq(&e, "2"); eq(&d, "2");')
bug("c24-stale-group", "C24", R, [("for v in &mut self.lsu[round_frac_units + intg_units..frac_units + intg_units] {", "for v in &mut self.lsu[round_frac_units + intg_units..frac_units + intg_units - 1] {")],
    "rounding in place drops a fractional group of a number not below one, then rounding the rest away", "a zero that does not report itself as zero",
    'let mut d = p("3.1234567890123"); d.round(2); eq(&d, "3.12"); d.round(0); d.round(-1); eq(&d, "0"); assert!(d.is_zero());')
bug("c14-scale-not-limited", "C14", R, [("            if round_frac_units == frac_units {\n                // same number of frac units\n                res.intg = self.intg;\n                res.frac = frac as i8;", "            if round_frac_units == frac_units {\n                // same number of frac units\n                res.intg = self.intg;\n                res.frac = self.frac;")],
    "copying rounding that extends the scale within the same group", "the scale is not extended",
    'let mut d = z(); p("1.5").round_to(&mut d, 3); eq(&d, "1.500");')

# ---- order, hash, integers
bug("c15-declared-zero-groups", "C15", C, [("""    while liu > 0 && liu > riu {
        // lhs has more integral units
        if llsu[i as usize] > 0 {
            return Ordering::Greater;
        }""", """    while liu > 0 && liu > riu {
        // lhs has more integral units
        if llsu[i as usize] > 0 || liu > riu + 2 {
            return Ordering::Greater;
        }""")],
    "a left operand written with over 18 superfluous leading zeros", "it compares greater than everything shorter",
    'assert!(p("0000000000000000000000000000001") == p("1")); assert!(p("0000000000000000000000000000001") < p("2"));')
bug("c16-hash-by-scale", "C16", D, [("        state.write_u8(frac_units as u8);", "        state.write_u8(if frac_units > 0 { self.frac_units() as u8 } else { 0 });")],
    "equal numbers with a fraction whose scales differ by a group", "different hashes",
    'let (a, b) = (p("0.5"), p("0.5000000000")); assert_eq!(a, b); assert_eq!(hash(&a), hash(&b));')
bug("c17-exact-group", "C17", D, [("        while src != 0 {\n            let q = src / UNIT as u64;", "        while src != 0 {\n            if src == UNIT as u64 {\n                fd.lsu[i] = UNIT;\n                i += 1;\n                break;\n            }\n            let q = src / UNIT as u64;")],
    "an integer whose leading part is exactly ten to the ninth (1000000000 or 1000000000xxxxxxxxx)", "a malformed group",
    'let d = FixedDecimal::from(1_000_000_000u64); eq(&d, "1000000000"); let d = FixedDecimal::from(1_000_000_000_000_000_007u64); eq(&d, "1000000000000000007"); assert_eq!(d, p("1000000000000000007"));')
bug("c18-range-after-rounding", "C18", D, [("""        if self < &MIN_I64 || self > &MAX_I64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return Ok(target.lsu_to_i64())
        }""", """        if self.frac_units() > 0 {
            let mut target = Self::zero();
            self.round_to(&mut target, 0);
            return target.as_i64()
        }
        if self < &MIN_I64 || self > &MAX_I64 {
            return Err(Error::ExceedsConversionTargetRange)
        }""")],
    "a number less than half above the largest i64", "accepted although out of range",
    'assert!(p("9223372036854775807.4").as_i64().is_err()); assert_eq!(p("9223372036854775806.5").as_i64().unwrap(), i64::MAX);')
bug("c18-u64-rounds-up-to-range", "C18", D, [("        if self.is_neg() || self > &MAX_U64 {\n", "        if (self.is_neg() && self.intg_units_non_zero() > 0) || self > &MAX_U64 {\n")],
    "a negative number above -1", "-0.4 and even -0.7 convert to u64",
    'assert!(p("-0.4").as_u64().is_err()); assert!(p("-1").as_u64().is_err());')
# ---- zero, destinations, padding, operators, shape, setters
bug("c19-round-to-minus-zero", "C19", R, [("    if neg {\n        fd.set_neg();\n    }", "    if neg {\n        fd.intg |= 0x80u8 as i8;\n    }")],
    "a negative number that rounds to zero", "minus zero",
    'let mut d = p("-0.4"); d.round(0); assert!(!d.is_neg()); eq(&d, "0"); assert_eq!(d, z());')
bug("c20-sub-keeps-high-groups", "C20", A, [("fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {\n    res.set_zero(); // always clear result first", "fn sub_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<bool> {")],
    "a difference written into a destination that held a longer number", "high groups of the old content stay behind the result",
    'let mut d = p("123456789012345678901"); FixedDecimal::sub_to(&p("5"), &p("5"), &mut d).unwrap(); eq(&d, "0"); assert!(d.is_zero());')
bug("c20-round-into-longer", "C20", R, [("""        res.set_zero(); // always clear result first
        res.intg = self.intg; // copy intg with sign for future check""", """        res.intg = self.intg; // copy intg with sign for future check
        res.frac = 0;"""), ("            if round_frac_units == frac_units {\n                // same number of frac units\n                res.intg = self.intg;", "            res.set_zero();\n            if round_frac_units == frac_units {\n                // same number of frac units\n                res.intg = self.intg;")],
    "copying rounding that drops digits into a destination that held a longer number", "groups of the old content stay behind",
    'let mut d = p("123456789012345678901234567890"); p("0.4").round_to(&mut d, 0); assert!(d.is_zero()); eq(&d, "0");')
bug("c21-padded-comparison-in-range", "C21", D, [("        if self.frac_units() > 0 {\n            let mut target = Self::zero();\n            self.round_to(&mut target, 0);\n            return Ok(target.lsu_to_i64())", "        if self.intg_units() > 3 {\n            return Err(Error::ExceedsConversionTargetRange)\n        }\n        if self.frac_units() > 0 {\n            let mut target = Self::zero();\n            self.round_to(&mut target, 0);\n            return Ok(target.lsu_to_i64())")],
    "a small number declared with over 27 digits", "does not convert to i64",
    'assert_eq!(p("0000000000000000000000000000000012").as_i64().unwrap(), 12);')
bug("c22-remainder-by-zero", "C22", A, [("        if let Err(e) = Self::rem_to(&self, &rhs, &mut res) {\n            panic!(\"modulo failed: {}\", e);", "        if let Err(e @ Error::Overflow) = Self::rem_to(&self, &rhs, &mut res) {\n            panic!(\"modulo failed: {}\", e);")],
    "the % operator with a zero divisor", "gives zero instead of panicking",
    'assert!(std::panic::catch_unwind(|| p("1") % p("0.0")).is_err());')
bug("c23-sum-declares-more", "C23", A, [("        res.intg = ((res_intg_non_zero + 1) * DIGITS_PER_UNIT as isize) as i8;", "        res.intg = ((res_intg_non_zero + 1 + (lhs.intg_units() == riu) as isize) * DIGITS_PER_UNIT as isize) as i8;", 1)],
    "a sum of equally long numbers", "it declares one group more than needed: with nine groups the declared digits exceed the storage",
    'let d = add(&p("1"), &p("2")); assert!(d.intg_units() <= 1); let a = mul(&p(&format!("1{}", "0".repeat(60))), &p("1000000000000000")); let d = add(&a, &a); assert!(d.intg_units() + d.frac_units() <= 9); eq(&d, &format!("2{}", "0".repeat(75)));')
bug("c23-rounding-declares-more", "C23", R, [("        if carry > 0 {\n            fd.lsu[end_idx] = 1;\n            intg_units += 1;\n        }\n    }", "        if carry > 0 {\n            fd.lsu[end_idx] = 1;\n        }\n        intg_units += 1;\n    }")],
    "rounding that carries into a higher group position", "one group too many is declared after every carry: enough of them exceed the storage",
    'let mut d = p(&format!("{}.5", "7".repeat(62))); for _ in 0..6 { d.round(0); d = add(&d, &p("0.5")); } assert!(d.intg_units() + d.frac_units() <= 9); let mut e = p("1.5000000009"); for _ in 0..12 { let mut r = z(); e.round_to(&mut r, 9); assert!(r.intg_units() + r.frac_units() <= 9); assert_eq!(r.intg_units(), 1); }')
bug("c24-one-keeps-scale", "C24", D, [("        self.intg = 1;\n        self.frac = 0;\n        self.reset_units();\n        self.lsu[0] = 1;", "        self.intg = 1;\n        self.reset_units();\n        let frac_units = self.frac_units();\n        self.lsu[frac_units] = 1;")],
    "setting a decimal that has a scale to one", "1.00 instead of 1",
    'let mut d = p("2.50"); d.set_one(); eq(&d, "1"); assert_eq!(d.frac(), 0);')
bug("c24-zero-keeps-digits", "C24", D, [("    pub fn set_zero(&mut self) {\n        self.intg = 1;", "    pub fn set_zero(&mut self) {\n        self.intg = self.intg().max(1);")],
    "setting a long number to zero", "zero declares the digits the number had",
    'let mut d = p("12345678901"); d.set_zero(); assert_eq!(d.intg(), 1); eq(&d, "0");')

# ---- second round
bug("c04-exact-million-group", "C04", S, [("if u >= BIN_HIGH_UNIT {", "if u > BIN_HIGH_UNIT {", 1)],
    "an integral group of nine that is exactly 001000000", "printing panics",
    'eq(&p("1000000"), "1000000"); eq(&p("5001000000"), "5001000000");')
bug("c05-sign-at-front", "C05", S, [("""        if self.is_neg() {
            buf.push(b'-');
        }""", """        if self.is_neg() {
            buf.insert(0, b'-');
        }""")],
    "appending a negative number to a buffer that already holds something", "the minus sign goes to the front of the buffer",
    'let mut b = b"x=".to_vec(); p("-1.25").append_str_buf(&mut b, 1); assert_eq!(b, b"x=-1.2");')
bug("c08-nine-groups-product", "C08", A, [("""    if res_intg_units + res_frac_units > MAX_UNITS {
        // integral+fractional overflow
        res_frac_units = MAX_UNITS - res_intg_units; // fractional truncation required""", """    if res_intg_units + res_frac_units >= MAX_UNITS {
        // integral+fractional overflow
        res_frac_units = MAX_UNITS - 1 - res_intg_units.min(MAX_UNITS - 1); // fractional truncation required""")],
    "a product that fills the nine groups exactly", "a group of its fraction is dropped",
    'let a = p(&format!("{}.5", "9".repeat(36))); let b = p(&format!("{}.5", "1".repeat(36))); let r = mul(&a, &b); assert_eq!(r.frac(), 2);')
bug("c09-no-addback-decrease", "C09", A, [("            qhat -= 1; // decrease qhat\n            let mut carry = 0;", "            let mut carry = 0;")],
    "a long division in which the trial quotient digit needs adding the divider back", "the quotient is one too large",
    'eq(&div(&p("499999999500000000000000000999999998"), &p("500000000000000000000000001"), 0), "999999998"); eq(&div(&p("1500000000000000002999999996"), &p("500000000000000000999999999"), 0), "2");')
bug("c10-second-digit-of-lowest", "C10", A, [("""        if i > 0 {
            u2 = buf1[(i - 1) as usize] as i64;
        }""", """        if i > 1 {
            u2 = buf1[(i - 1) as usize] as i64;
        }""")],
    "a remainder by a divider of exactly two groups that divides exactly", "the divider itself instead of zero",
    'eq(&rem(&mul(&p("7000000003"), &p("12345678901")), &p("7000000003")), "0"); let m = rem(&p("86419752321086419752307"), &p("7000000003")); assert!(m < p("7000000003"));')
bug("c10-addback-off", "C10", A, [("        if borrow == -1 {\n            // qhat is larger, cannot satisfy the whole decimal\n            // D6. add back\n            // should", "        if borrow < -1 {\n            // qhat is larger, cannot satisfy the whole decimal\n            // D6. add back\n            // should")],
    "a long remainder in which the trial quotient digit needs adding the divider back", "the remainder is wrong",
    'eq(&rem(&p("1500000000000000000000000002"), &p("500000000000000000000000001")), "500000000000000000000000000");')
bug("c13-tie-at-seventh", "C13", R, [("                if r >= 5_000_000 {", "                if r > 5_000_000 {")],
    "a tie when seven digits of a group are cut", "it is rounded down",
    'let mut d = p("1.125"); d.round(2); eq(&d, "1.13"); let mut d = p("15000000"); d.round(-7); eq(&d, "20000000");')
bug("c13-tie-only-exact", "C13", R, [("                if r >= 5_000 {", "                if r > 5_000 || (r == 5_000 && round_idx == 0 && (u / 10_000) % 10 != 8) {")],
    "a tie when four digits of a group are cut after an even digit eight", "it is rounded down",
    'let mut d = p("1.123485"); d.round(5); eq(&d, "1.12349");')
bug("c15-equality-shortcut", "C15", C, [("        self.cmp(other) == Ordering::Equal", "        (self.lsu == other.lsu && self.is_neg() == other.is_neg()) || self.cmp(other) == Ordering::Equal")],
    "two numbers whose groups coincide although they stand at different scales (0.5 and 500000000)", "they are reported equal",
    'assert!(p("0.5") != p("500000000")); assert!(p("0.5") < p("500000000"));')
bug("c15-longer-fraction-negative", "C15", C, [("                return cmp_abs(other, self);", "                return if self.frac_units() > other.frac_units() + 1 { cmp_abs(self, other).reverse() } else if self.intg_units() > other.intg_units() + 3 { Ordering::Less } else { cmp_abs(other, self) };")],
    "two negative numbers, the first declared with four groups more", "it compares less than anything shorter",
    'assert!(p("-00000000000000000000000000000000000001") > p("-2"));')
bug("c19-product-minus-zero", "C19", A, [("        mul_abs(lhs, rhs, res)?;\n        if res_neg {\n            res.set_neg_and_check_zero();", "        mul_abs(lhs, rhs, res)?;\n        if res_neg {\n            res.intg |= 0x80u8 as i8;")],
    "factors of opposite sign whose product is truncated to zero", "minus zero",
    'let d = mul(&p("-1e-25"), &p("1e-25")); assert!(!d.is_neg()); assert_eq!(d, z());')
bug("c19-remainder-minus-zero", "C19", A, [("        rem_abs(lhs, rhs, res)?;\n        if res_neg {\n            res.set_neg_and_check_zero();", "        rem_abs(lhs, rhs, res)?;\n        if res_neg {\n            res.intg |= 0x80u8 as i8;")],
    "a negative dividend that divides exactly", "the remainder is minus zero",
    'let d = rem(&p("-6"), &p("2")); assert!(!d.is_neg()); assert_eq!(d, z());')
bug("c21-padded-dividend-scale", "C21", A, [("    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds maximum fractional digits", "    if liu + res_frac_units > MAX_UNITS && liu < MAX_UNITS {\n        res_frac_units = MAX_UNITS - liu;\n    }\n    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds the maximum fractional digits")],
    "a dividend declared with many leading zero groups and a large extra precision", "the quotient has fewer digits than for the same number unpadded",
    'let a = p("00000000000000000000000000000000000000000000000000000000000001.5"); let b = p("7.5"); eq(&div(&a, &b, 20), &s(&div(&p("1.5"), &b, 20)));')
bug("c22-zero-by-zero-operator", "C22", A, [("        if let Err(e) = Self::div_to(&self, &rhs, &mut res, DIV_INCR_FRAC) {", "        if self.is_zero() {\n            return FixedDecimal::zero();\n        }\n        if let Err(e) = Self::div_to(&self, &rhs, &mut res, DIV_INCR_FRAC + 0) {")],
    "the / operator on zero by zero", "gives zero instead of panicking",
    'assert!(std::panic::catch_unwind(|| p("0.0") / p("0")).is_err());')
bug("c22-product-operator-keeps-scale", "C22", A, [("        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {", "        if self.is_zero() {\n            return self;\n        }\n        if let Err(e) = Self::mul_to(&self, &rhs, &mut res).map(|_| ()) {")],
    "the * operator with a left zero that has a scale", "0.00 instead of the fallible form's 0",
    'let a = p("0.00"); let b = p("5.5"); let m = mul(&a, &b); eq(&(a * b), &s(&m));')
bug("c23-stale-group-at-edge", "C23", R, [("                    self.lsu[frac_units + intg_units - 1] = 0;\n", "                    self.lsu[frac_units + intg_units - 2] += 0;\n")],
    "rounding in place at a group edge, then rounding the rest away", "a group stays stored beyond the declared digits, and a later zero does not report itself as zero",
    'let mut d = p("3.1234567891"); d.round(9); d.round(0); d.round(-1); eq(&d, "0"); assert!(d.is_zero());')
bug("c12-incr-overflow", "C12", A, [("    if incr_frac < 0 {\n        incr_frac = 0;\n    }", "    debug_assert!(incr_frac <= 32, \"at most the maximum precision\");\n    if incr_frac <= 0 {\n        incr_frac = 0;\n    }")],
    "a division asked for an extra precision over 32 digits", "it panics in debug builds",
    'assert_eq!(div(&p("1"), &p("3"), 36).frac(), 36); assert_eq!(div(&p("1"), &p("3"), 1000).frac(), 36);')

bug("c07-early-exit", "C07", A, [("""            let (r0, c0) = add_with_carry(lhs.lsu[lhs_idx as usize], 0, carry);
            res.lsu[res_idx as usize] = r0;
            carry = c0;""", """            let lv = lhs.lsu[lhs_idx as usize];
            if lv == 0 && carry == 0 {
                break; // nothing left to propagate
            }
            let (r0, c0) = add_with_carry(lv, 0, carry);
            res.lsu[res_idx as usize] = r0;
            carry = c0;""")],
    "a left operand two groups longer whose group next above the right operand is zero", "its top groups are lost",
    'eq(&add(&p("5000000000000000001"), &p("1")), "5000000000000000002");')
bug("c07-borrow-absorbed", "C07", A, [("""                let (r0, b0) = sub_with_borrow(lhs.lsu[lhs_idx as usize], 0, borrow);
                res.lsu[res_idx as usize] = r0;
                borrow = b0;""", """                let (r0, b0) = sub_with_borrow(lhs.lsu[lhs_idx as usize], 0, borrow);
                res.lsu[res_idx as usize] = r0;
                borrow = if res_idx > 2 { borrow.min(b0) } else { b0 };""")],
    "a borrow absorbed in the third or higher group with further groups above", "the groups above also lose one",
    'eq(&sub(&p("5000000005000000000000000000000000000"), &p("0.000000001")), "5000000004999999999999999999999999999.999999999");')
bug("c13-deep-integral-rounding", "C13", R, [("            trunc = intg;", "            trunc = intg.min(3 * DIGITS_PER_UNIT as isize);", 2), ("            trunc = intg;", "            trunc = intg.min(3 * DIGITS_PER_UNIT as isize);", 1)],
    "rounding away more than 27 integral digits", "only 27 are rounded",
    'let mut d = p("1234567890123456789012345678901234"); d.round(-30); eq(&d, "1235000000000000000000000000000000");')
bug("c24-zero-test-misses-top", "C24", D, [("        self.lsu.iter().all(|n| *n == 0)", "        self.lsu.iter().take(MAX_UNITS - 1).all(|n| *n == 0)")],
    "a number whose only non-zero group is the ninth", "it reports itself as zero",
    'let a = mul(&p(&format!("1{}", "0".repeat(60))), &p("1000000000000000")); assert!(!a.is_zero());')

# ---- third round
bug("c02-exponent-zeros", "C02", S, [("""            loop {
                c = bs[i as usize];
                if c == b'0' && i as usize != bs.len() - 1 {""", """            let written = i;
            loop {
                c = bs[i as usize];
                if c == b'0' && i as usize != bs.len() - 1 && i - written < 8 {""")],
    "an exponent written with nine or more leading zeros", "a valid text is refused",
    'eq(&p("1e000000000001"), "10"); eq(&p("1e0001"), "10"); eq(&p("5e-0000000000000001"), "0.5");')
bug("c02-second-point", "C02", S, [("            if *c == b'.' && dotchar == -1 {", "            if *c == b'.' && (dotchar == -1 || dotchar == i as isize - 1 && last == -1) {")],
    "two points before the first digit", "..5 is accepted",
    'assert!("..5".parse::<FixedDecimal>().is_err()); assert!("1..5".parse::<FixedDecimal>().is_err()); eq(&p(".5"), "0.5");')
bug("c03-zero-scale-kept", "C03", S, [("""        if reset {
            self.set_zero();
        }
        if bs.is_empty() {""", """        if reset && !self.is_zero() {
            self.set_zero();
        }
        if bs.is_empty() {""")],
    "a refused text parsed with reset into a zero that has fractional digits", "the scale stays",
    'let mut d = p("0.000"); assert!(d.from_ascii_str("x", true).is_err()); eq(&d, "0"); assert_eq!(d.frac(), 0);')
bug("c07-complement-short", "C07", A, [("        for i in 0..res_idx {", "        for i in 0..stop {")],
    "the smaller number minus the larger one, which has more integral groups, while the smaller has more fractional groups", "high groups are not complemented",
    'eq(&sub(&p("1.0000000001"), &p("5000000000000000000")), "-4999999999999999998.9999999999"); eq(&sub(&p("1.5"), &p("5000000000000000000")), "-4999999999999999998.5");')
bug("c07-borrow-fraction-zero", "C07", A, [("""                let (r0, b0) = sub_with_borrow(0, *rv, borrow);
                *rst = r0;
                borrow = b0;
            }
            rhs_idx = frac_unit_diff;""", """                let (r0, b0) = sub_with_borrow(0, *rv, borrow);
                *rst = r0;
                if *rv > 0 {
                    borrow = b0;
                } else {
                    borrow = 0;
                    *rst = -b0 * r0;
                }
            }
            rhs_idx = frac_unit_diff;""")],
    "a subtrahend with two more fractional groups of which the upper one is zero", "the borrow is lost in the zero group",
    'eq(&sub(&p("2"), &p("1.000000000000000001")), "0.999999999999999999"); eq(&sub(&p("2"), &p("1.000000001")), "0.999999999");')
bug("c09-wide-norm-carry", "C09", A, [("""        if carry > 0 {
            buf1[buf1_end] = carry as i32;
            carry = 0;
        }
        // normalize rhs into buf2
        for""", """        if carry > 0 {
            buf1[buf1_end] = carry as i32;
        }
        carry = if lhs_non_zero as usize + 1 == MAX_UNITS { carry } else { 0 };
        // normalize rhs into buf2
        for""")],
    "a dividend of nine groups by a divisor of several groups whose normalisation carries", "the divisor is off by the carry",
    'let a = p(&"9".repeat(62)); let b = mul(&a, &p("1000000000000000000")); eq(&div(&b, &p("3000000000000000000"), 0), &"3".repeat(62));')
bug("c10-rest-of-dividend", "C10", A, [("            if v > 0 && res_non_zero < 0 {\n", "            if v > 0 && (res_non_zero < 0 || rhs_shift_units > 2) {\n")],
    "a one-group divisor and a dividend with more fractional groups than it, several of them non-zero", "the remainder forgets its leading digits",
    'eq(&rem(&p("12345.000000001000000001000000001"), &p("100")), "45.000000001000000001000000001"); eq(&rem(&p("45.5"), &p("7")), "3.5");')
bug("c10-less-scale", "C10", A, [("            res.frac = lhs_frac.max(rhs_frac);\n            res.intg = lhs_intg;", "            res.frac = if lfu == rfu { rhs_frac.max((lhs_frac + rhs_frac) / 2) } else { lhs_frac };\n            res.intg = lhs_intg;")],
    "a dividend below the divisor with more fractional digits in the same group", "the remainder has too few fractional digits",
    'let r = rem(&p("1.2545"), &p("7.5")); eq(&r, "1.2545"); assert_eq!(r.frac(), 4);')
bug("c11-tiny-divisor", "C11", A, [("""    if rhs_non_zero < 0 {
        // divider is zero
        return Err(Error::DivisionByZero);
    }

    // check and remove""", """    if rhs_non_zero < rfu as isize - MAX_FRAC_UNITS as isize {
        // divider is zero
        return Err(Error::DivisionByZero);
    }

    // check and remove""")],
    "a divisor below 10^-36", "division by zero is reported for a non-zero divisor",
    'let t = p("0.0000000000000000000000000000000000000000000000001"); let mut r = z(); assert!(FixedDecimal::div_to(&p("1"), &t, &mut r, 0).is_ok()); assert!(FixedDecimal::div_to(&p("1"), &z(), &mut r, 0).is_err());')
bug("c12-dividend-alignment", "C12", A, [("        let mut buf = [0i32; MAX_UNITS * 2];\n        let buf_len", "        let mut buf = [0i32; MAX_UNITS + MAX_FRAC_UNITS];\n        let buf_len")],
    "a remainder of a number with nine groups by a one-group divisor with five or more fractional groups", "a panic",
    'let b = p("0.000000000000000000000000000000000000000000007"); let a = p(&"9".repeat(65)); let w = mul(&a, &p("1000000000000000")); let mut r = z(); let x = std::panic::catch_unwind(move || { let _ = FixedDecimal::rem_to(&w, &b, &mut r); }); assert!(x.is_ok());')
bug("c13-higher-groups", "C13", R, [("""                res.lsu[..round_frac_units + intg_units].copy_from_slice(
                    &self.lsu[frac_units - round_frac_units..frac_units + intg_units],
                );
                frac_units = round_frac_units;""", """                res.lsu[..round_frac_units + intg_units].copy_from_slice(
                    &self.lsu[frac_units - round_frac_units..frac_units + intg_units],
                );
                if frac_units > MAX_UNITS / 2 && round_frac_units == 1 {
                    res.lsu[0] += carry;
                }
                frac_units = round_frac_units;""")],
    "a number with five or more fractional groups rounded to nine digits, up", "one too many",
    'let d = p("0.123456788600000000000000000000000000000000001"); let mut r = z(); d.round_to(&mut r, 9); eq(&r, "0.123456789");')
bug("c14-in-place-high-zero", "C14", R, [("""                    self.lsu[frac_units + intg_units - 1] = 0;
                    frac_units -= 1;""", """                    if intg_units > 0 {
                        self.lsu[frac_units + intg_units - 1] = 0;
                    }
                    frac_units -= 1;""")],
    "a number without integral digits rounded in place at the edge of its lowest group", "in place keeps a digit group that the copying form drops",
    'let a = sub(&p("3.5"), &p("3.25")); let b = mul(&a, &p("1")); let mut c = sub(&p("1.400000000"), &p("1.0")); let mut r = z(); c.round_to(&mut r, 0); c.round(0); assert_eq!(s(&c), s(&r)); assert_eq!(c, r); assert_eq!(c.is_zero(), r.is_zero()); assert!(c.is_zero());')
bug("c15-less-than", "C15", C, [("        Some(self.cmp(other))\n    }", """        Some(self.cmp(other))
    }

    #[inline]
    fn lt(&self, other: &Self) -> bool {
        if !self.is_neg() && !other.is_neg() && self.intg_units() < other.intg_units() {
            // fewer groups before the point
            return true;
        }
        self.cmp(other) == Ordering::Less
    }""")],
    "the operator < on a number against a smaller one that declares more integral groups", "< disagrees with cmp",
    'let a = sub(&p("1000000000000000005"), &p("1000000000000000000")); let w = p("0000000000000000000005"); assert!(!(p("7") < a)); assert!(!(p("7") < w)); assert!(w < p("7")); assert!(p("7") < p("8000000000"));')
bug("c16-one-group", "C16", D, [("        state.write_u8(frac_units as u8);", "        state.write_u8(if intg_units == 0 && frac_units > 0 && self.frac_units() - frac_units > 1 { frac_units as u8 + 1 } else { frac_units as u8 });")],
    "equal fractions below one of which one ends in two or more zero groups", "they hash differently",
    'assert_eq!(hash(&p("0.5")), hash(&p("0.5000000000000000000000000"))); assert_eq!(hash(&p("1.5")), hash(&p("1.5000000000000000000000000")));')
bug("c17-fast-path-bound", "C17", D, [("        if src < 0 {\n", """        if src < 0 && src >= -(UNIT as i64) {
            // fits in one unit
            let mut fd = FixedDecimal::zero();
            fd.intg = DIGITS_PER_UNIT as i8;
            fd.lsu[0] = -src as i32;
            fd.set_neg();
            return fd;
        }
        if src < 0 {
""")],
    "the integer -1000000000", "a group holds 10^9",
    'let d = FixedDecimal::from(-1_000_000_000i64); eq(&d, "-1000000000"); assert_eq!(d, p("-1000000000")); eq(&FixedDecimal::from(-999_999_999i64), "-999999999");')
bug("c18-beyond-thirty", "C18", D, [("""        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {""", """        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 && self.frac_units() != 6 {""")],
    "a decimal with 46 to 54 fractional digits converted to u64", "its fractional groups are taken for the integer",
    'let d = p("2.00000000000000000000000000000000000000000000000007"); assert_eq!(d.as_u64().unwrap(), 2); assert_eq!(p("2.5").as_u64().unwrap(), 3);')
bug("c19-quotient-minus-zero", "C19", A, [("""        div_abs(lhs, rhs, res, incr_frac as isize)?;
        if res_neg {
            res.set_neg_and_check_zero();
        }""", """        div_abs(lhs, rhs, res, incr_frac as isize)?;
        if res_neg && !lhs.is_zero() {
            res.intg |= 0x80u8 as i8;
        }""")],
    "a negative quotient smaller than the last kept place", "minus zero",
    'let d = div(&p("-0.000000000000000000000000000001"), &p("99999999999999999999"), 0); assert!(d.is_zero() && !d.is_neg()); eq(&div(&p("-1"), &p("4"), 4), "-0.250000000");')
bug("c20-div-keeps-high", "C20", A, [("""    mut incr_frac: isize,
) -> Result<()> {
    res.set_zero(); // always clear result first""", """    mut incr_frac: isize,
) -> Result<()> {
    if lhs.intg_units() + lhs.frac_units() + rhs.intg_units() < MAX_UNITS {
        res.set_zero(); // always clear result first
    } else {
        res.set_pos();
        res.frac = 0;
    }""")],
    "a wide division into a destination that held a wider number", "high groups of the old content survive",
    'let mut d = p(&"7".repeat(65)); let a = p(&"8".repeat(60)); let b = p("40000000000"); FixedDecimal::div_to(&a, &b, &mut d, 0).unwrap(); let f = div(&a, &b, 0); assert_eq!(d, f); assert!(FixedDecimal::div_to(&a, &z(), &mut d, 0).is_err()); assert!(d.is_zero()); let mut e = p(&"7".repeat(65)); FixedDecimal::div_to(&a, &p(&"9".repeat(60)), &mut e, 0).unwrap(); assert!(e < p("1")); assert!(e.is_zero());')
bug("c22-quotient-precision", "C22", A, [("        if let Err(e) = Self::div_to(&self, &rhs, &mut res, DIV_INCR_FRAC) {", "        if let Err(e) = Self::div_to(&self, &rhs, &mut res, DIV_INCR_FRAC.max(self.frac() as usize / 18 * 10)) {")],
    "/ on a dividend with eighteen or more fractional digits", "/ gives more fractional digits than the fallible form at four",
    'let a = p("1.000000000000000000000001"); let b = p("7"); let o = a.clone() / b.clone(); let f = div(&a, &b, 4); assert_eq!(s(&o), s(&f)); let c = p("1.000000000000000001"); assert_eq!(s(&(c.clone() / b.clone())), s(&div(&c, &b, 4)));')
bug("c23-leftover-two", "C23", R, [("""                let r = u % 100;
                u -= r;
                if r >= 50 {
                    // round up
                    u += 100;
                }""", """                let r = u % 100;
                if r >= 50 {
                    // round up
                    u += 100;
                }
                u -= u % 100 * (trunc > 2 || carry > 0 || r >= 10) as i32;""")],
    "rounding to seven (or sixteen, ...) places when the two dropped digits are 01 to 09", "they stay beyond the declared fraction",
    'let mut d = p("1.234567805"); d.round(7); assert_eq!(d.to_string(9), "1.234567800"); assert_eq!(d, p("1.2345678"));')
bug("c24-toggle", "C24", D, [("        self.intg &= 0x7f;", "        self.intg &= 0x7f;\n        if self.frac == 0 && self.intg > 64 {\n            self.intg = 64;\n        }")],
    "making a 65-digit (or wider) integer positive", "it loses digits in printing",
    'let t = "9".repeat(65); let mut d = p(&format!("-{}", t)); d.set_pos(); eq(&d, &t); assert_eq!(d.intg(), 65);')
bug("c06-long-whole", "C06", U, [("7, 7, 7, 7, 7, 7, 7, 7, 8, 8, 8, 8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 10,", "7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8, 8, 8, 8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 9, 9, 9, 10,")],
    "a number with 65 integral digits", "one group is left out",
    'let t = format!("12{}", "3".repeat(63)); let d = p(&t); eq(&d, &t); assert_eq!(p(&s(&d)), d);')
bug("c21-declared-dividend", "C21", A, [("    // check and remove leading zeroes in lhs\n    let mut lhs_non_zero = (liu + lfu) as isize - 1;\n    while lhs_non_zero >= 0 {\n        if lhs.lsu[lhs_non_zero as usize] > 0 {\n            break;\n        }\n        lhs_non_zero -= 1;\n    }\n    if lhs_non_zero < 0 {\n        // dividend is zero\n        return Ok(());\n    }\n    // digits of rhs",
    "    // check and remove leading zeroes in lhs\n    let mut lhs_non_zero = (liu + lfu) as isize - 1;\n    while lhs_non_zero >= 0 {\n        if lhs.lsu[lhs_non_zero as usize] > 0 {\n            break;\n        }\n        lhs_non_zero -= 1;\n    }\n    if lhs_non_zero < 0 {\n        // dividend is zero\n        return Ok(());\n    }\n    if liu as isize + lfu as isize - lhs_non_zero > 2 && rfu > 1 {\n        incr_frac = 0;\n    }\n    // digits of rhs")],
    "a dividend that declares two more groups than its value needs, divided by a number with two or more fractional groups with extra precision asked", "fewer fractional digits than for the same dividend parsed",
    'let a = p("00000000000000000000000000005"); let b = p("3.000000000000000001"); assert_eq!(s(&div(&a, &b, 14)), s(&div(&p("5"), &b, 14)));')
bug("c05-zero-group-then-two", "C05", S, [("                if frac_digits > DIGITS_PER_UNIT as i8 {", "                if frac_digits > DIGITS_PER_UNIT as i8 + 2 || frac_digits > DIGITS_PER_UNIT as i8 && self.frac_units() < 3 {")],
    "a precision that ends one or two digits after a zero group of the fraction", "the digits after the zero group print as zeros",
    'let d = p("0.0000000009876500000000"); assert_eq!(d.to_string(11), "0.00000000098"); assert_eq!(d.to_string(14), "0.00000000098765"); assert_eq!(p("1.123456789000000000777").to_string(19), "1.1234567890000000007");')
bug("c08-inner-zero", "C08", A, [("            // calculate product and sum with previous result and carry\n", """            if *lv == 0 && lhs_idx >= MAX_FRAC_UNITS {
                // nothing to add
                continue;
            }
            // calculate product and sum with previous result and carry
""")],
    "a left factor with a zero group between non-zero ones", "the carry into the zero group lands a group higher",
    'eq(&mul(&p("5000000000999999999999999999999999999999999999"), &p("999999999")), "4999999995999999998999999999999999999999999999000000001"); eq(&mul(&p("5000000000999999999"), &p("999999999")), "4999999995999999998000000001"); eq(&mul(&p("12.5"), &p("0.2")), "2.50");')
bug("c05-exact-thousand", "C05", S, [("""            if u >= BIN_MID_UNIT {
                let mid = u / BIN_MID_UNIT;
                let start_idx""", """            if u > BIN_MID_UNIT {
                let mid = u / BIN_MID_UNIT;
                let start_idx""")],
    "a fractional group that ends in 001000, printed beyond its sixth digit", "a panic or foreign bytes",
    'assert_eq!(p("0.123001000").to_string(9), "0.123001000"); assert_eq!(p("0.5").to_string(3), "0.500"); assert_eq!(p("0.000001").to_string(-1), "0.000001");')
bug("c09-high-divisor-tail", "C09", A, [("        buf2[..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[..rhs_non_zero as usize + 1]);", """        let low = if rhs_non_zero > 2 { 1 } else { 0 };
        buf2[low..rhs_non_zero as usize + 1].copy_from_slice(&rhs.lsu[low..rhs_non_zero as usize + 1]);""")],
    "a divisor of four or more groups whose leading group is at least 500000000", "its lowest group is ignored",
    'let b = p("700000000000000000000000000000000001"); eq(&div(&p("1400000000000000000000000000000000000"), &b, 0), "1"); eq(&div(&p("14"), &p("7"), 0), "2");')

# ---- fourth round
bug("c01-point-before-exponent", "C01", S, [("let frac_digits = if dotchar == -1 || last < dotchar {", "let frac_digits = if dotchar == -1 || (last < dotchar && !more_to_proc) {")],
    "a point directly before the exponent marker", "12.e3 parses as 120000",
    'eq(&p("12.e3"), "12000"); eq(&p("12."), "12"); eq(&p("12.0e3"), "12000");')
bug("c02-sign-twice", "C02", S, [("            if i == 0 {\n                // first in string", "            if i == cfirst && last == -1 {\n                // first in string")],
    "two signs, or a sign after a leading point", "--5, +-5 and .-5 are accepted",
    'for t in ["--5", "+-5", ".-5", "-+.5", "-"] { assert!(t.parse::<FixedDecimal>().is_err(), "{}", t); } eq(&p("-5"), "-5");')
bug("c02-hex-exponent", "C02", S, [("                if *c < b'0' || *c > b'9' {\n                    // not a digit\n                    return Err(Error::ConversionSyntax);\n                }\n                exp = exp", "                if !c.is_ascii_digit() && (i == firstexp || *c != b'_') {\n                    // not a digit\n                    return Err(Error::ConversionSyntax);\n                }\n                if *c == b'_' {\n                    i += 1;\n                    continue;\n                }\n                exp = exp")],
    "an underscore after the first digit of the exponent", "it is accepted",
    'assert!("1e1_0".parse::<FixedDecimal>().is_err()); assert!("1e1_".parse::<FixedDecimal>().is_err()); eq(&p("1e1"), "10");')
bug("c03-cleared-without-reset", "C03", S, [("        if digits as usize > MAX_DIGITS {\n            return Err(Error::ConversionSyntax);", "        if digits as usize > MAX_DIGITS {\n            self.set_zero();\n            return Err(Error::ConversionSyntax);")],
    "a text with too many digits parsed without reset", "the target is cleared",
    'let mut d = p("12.5"); assert!(d.from_ascii_str(&"7".repeat(66), false).is_err()); eq(&d, "12.5");')
bug("c04-padded-top", "C04", S, [("                    // rare case, integral part exists but zero\n                    continue;", "                    // rare case, integral part exists but zero\n                    if up < frac_units as isize + 1 {\n                        up = frac_units as isize - 1;\n                    }\n                    continue;")],
    "a number declared with a superfluous zero group above its single lowest integral group", "its integral part prints as 0",
    'eq(&p("000000000012"), "12"); eq(&p("0000000000000012.5"), "12.5"); eq(&p("12"), "12");')
bug("c05-precision-over-127", "C05", S, [("        for _ in 0..frac - full_frac_digits {", "        for _ in 0..frac.min(i8::MAX as isize) - full_frac_digits {")],
    "a precision over 127 on a number with a fraction", "too few zeros",
    'assert_eq!(p("1.5").to_string(130).len(), 132); assert_eq!(p("1.5").to_string(20).len(), 22);')
bug("c06-length-bound", "C06", S, [("        // Here when whole string has been inspected; syntax is good\n", "        // Here when whole string has been inspected; syntax is good\n        if bs.len() > MAX_DIGITS + 1 && exp == 0 {\n            // sign or point\n            return Err(Error::ConversionSyntax);\n        }\n")],
    "a negative number with a fraction and 65 digits", "its printing is refused",
    'let t = format!("-{}.{}", "7".repeat(40), "3".repeat(25)); eq(&p(&t), &t); eq(&p("0.5"), "0.5");')
bug("c07-complement-zero-group", "C07", A, [("            let (r0, b0) = sub_with_borrow(0, res.lsu[i as usize], borrow);", "            if res.lsu[i as usize] == 0 {\n                // nothing to complement\n                continue;\n            }\n            let (r0, b0) = sub_with_borrow(0, res.lsu[i as usize], borrow);")],
    "a smaller minus a larger number whose difference has a group 999999999 above a non-zero one", "that group becomes zero",
    'eq(&sub(&p("1"), &p("1000000000000000000")), "-999999999999999999"); eq(&sub(&p("1"), &p("3")), "-2"); eq(&sub(&p("0.000000001"), &p("1000000000")), "-999999999.999999999");')
bug("c09-float-quotient", "C09", A, [("            let q = u / d; // div\n            rem = u - q * d; // update remainder\n            res.lsu[j as usize] = q as i32; // update result", "            let mut q = (u as f64 / d as f64) as i64; // div\n            if q * d > u {\n                q -= 1;\n            }\n            rem = u - q * d; // update remainder\n            res.lsu[j as usize] = q as i32; // update result")],
    "a one-group division in which an exact step of more than 2^53 rounds below its quotient", "a digit of the quotient is one too small and the next one too large",
    'for d in ["999999937", "999999929", "998244353", "7", "123456789"] { for k in ["999999998", "999999999", "987654321", "999999991"] { let e = mul(&p(d), &p(k)); eq(&div(&e, &p(d), 0), k); } }')
bug("c10-no-norm-shift", "C10", A, [("        buf1[lhs_shift_units as usize..buf1_len as usize]\n            .copy_from_slice(&lhs.lsu[..(lhs_non_zero + 1) as usize]);\n        buf2[rhs_shift", "        let at = if lhs_shift_units < 2 { lhs_shift_units } else { 1 };\n        buf1[at as usize..(at + lhs_non_zero + 1) as usize]\n            .copy_from_slice(&lhs.lsu[..(lhs_non_zero + 1) as usize]);\n        buf2[rhs_shift")],
    "a remainder by a divisor with two more fractional groups whose leading group is at least 500000000", "the dividend is taken a group too small",
    'eq(&rem(&p("1000000000001"), &p("600000000.000000000000000001")), &s(&sub(&p("1000000000001"), &mul(&p("1666"), &p("600000000.000000000000000001")))));')
bug("c11-remainder-destination", "C11", A, [("fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {\n    res.set_zero(); // always clear result first", "fn rem_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {\n    if !rhs.is_zero() || rhs.frac() == 0 {\n        res.set_zero(); // always clear result first\n    }")],
    "a remainder by a zero that has fractional digits, into a destination that holds something", "the old content stays",
    'let mut d = p("12.5"); assert!(FixedDecimal::rem_to(&p("3"), &p("0.00"), &mut d).is_err()); assert!(d.is_zero()); let mut d = p("12.5"); assert!(FixedDecimal::rem_to(&p("3"), &z(), &mut d).is_err()); assert!(d.is_zero());')
bug("c12-division-buffer", "C12", A, [("    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs", "    let mut buf1 = [0i32; MAX_UNITS * 2 + 1]; // store normalized lhs")],
    "a long division of operands with about eight groups each", "a panic",
    'let a = p(&format!("{}.{}", "7".repeat(29), "3".repeat(36))); let b = p(&format!("{}.{}", "6".repeat(29), "1".repeat(36))); let q = div(&a, &b, 30); assert_eq!(q.to_string(0), "1"); let _ = div(&p(&"9".repeat(65)), &p(&"8".repeat(65)), 30);')
bug("c13-long-carry", "C13", R, [("        for u in &mut fd.lsu[round_idx..end_idx] {", "        for u in fd.lsu[round_idx..end_idx].iter_mut().take(3) {")],
    "a carry that runs through more than three full groups", "the groups above are not raised and a foreign group appears",
    'let mut d = p(&format!("5{}.9", "9".repeat(27))); d.round(0); eq(&d, &format!("6{}", "0".repeat(27))); let mut e = p("99999999999.5"); e.round(0); eq(&e, "100000000000");')
bug("c14-extension-sign", "C14", R, [("                .copy_from_slice(&self.lsu[..frac_units + intg_units]);\n            res.intg = self.intg;", "                .copy_from_slice(&self.lsu[..frac_units + intg_units]);\n            res.intg = if frac_units > 0 { self.intg() } else { self.intg };")],
    "a negative number with a fraction rounded to a scale with more groups by the copying form", "its sign is lost",
    'let d = p("-1.5"); let mut r = z(); d.round_to(&mut r, 12); eq(&r, "-1.500000000000"); d.round_to(&mut r, 3); eq(&r, "-1.500"); let mut e = d.clone(); e.round(12); eq(&e, "-1.500000000000");')
bug("c17-float-groups", "C17", D, [("            let q = src / UNIT as u64;\n            let r = src - q * UNIT as u64;", "            let mut q = (src as f64 / UNIT as f64) as u64;\n            if q * UNIT as u64 > src {\n                q -= 1;\n            }\n            let r = src - q * UNIT as u64;")],
    "an integer above 2^53 that is a multiple of ten to the ninth and rounds down as a double", "a group of 1000000000",
    'let mut x = 1u64; for k in (9_007_199u64..9_200_000).step_by(101) { let n = k * 1_000_000_000 * 1003 / 1_000_000_000 * 1_000_000_000; x = x.max(n); eq(&FixedDecimal::from(n), &n.to_string()); } for n in [u64::MAX, 18_446_744_073_000_000_000, 9_223_372_036_000_000_000, 1_000_000_007_000_000_000] { eq(&FixedDecimal::from(n), &n.to_string()); }')
bug("c19-parse-minus-zero", "C19", S, [("        if neg {\n            self.set_neg();\n        }\n        Ok(())", "        if neg && (frac > 0 || self.lsu[0] != 0) {\n            self.intg |= 0x80u8 as i8;\n        } else if neg {\n            self.set_neg();\n        }\n        Ok(())")],
    "a minus zero written with fractional digits", "it stays negative",
    'for t in ["-0", "-0.0", "-.00", "-0e-3", "-000000000000"] { assert!(!p(t).is_neg(), "{}", t); } eq(&p("-0.5"), "-0.5");')
bug("c20-sub-zero-scale", "C20", A, [("        if rhs.is_zero() {\n            *res = lhs.clone();\n            return Ok(());\n        }\n        let lneg = lhs.is_neg();\n        let rneg = rhs.is_neg();\n        if lneg != rneg {", "        if rhs.is_zero() {\n            res.intg = lhs.intg;\n            res.lsu = lhs.lsu;\n            if res.frac_units() != lhs.frac_units() || res.frac < lhs.frac {\n                res.frac = lhs.frac;\n            }\n            return Ok(());\n        }\n        let lneg = lhs.is_neg();\n        let rneg = rhs.is_neg();\n        if lneg != rneg {")],
    "zero subtracted, into a destination with more fractional digits in as many groups", "the result has the scale of the old content",
    'let mut d = p("7.123"); FixedDecimal::sub_to(&p("1.5"), &z(), &mut d).unwrap(); eq(&d, "1.5"); let mut e = z(); FixedDecimal::sub_to(&p("1.5"), &z(), &mut e).unwrap(); eq(&e, "1.5");')
bug("c21-dividend-written-zeros", "C21", A, [("    let mut res_intg = (lhs_prec - lhs_ext_frac) - (rhs_prec - rhs_ext_frac);", "    let lhs_whole = if lhs_non_zero >= lfu as isize && lhs_intg % 9 > 0 && liu as isize == lhs_non_zero + 1 - lfu as isize { lhs_intg as isize } else { lhs_prec - lhs_ext_frac };\n    let mut res_intg = lhs_whole - (rhs_prec - rhs_ext_frac);")],
    "a dividend written with superfluous leading zeros in its highest group", "the quotient is shifted or has another scale",
    'for (a, c) in [("00000005", "5"), ("0000000012", "12"), ("00012.5", "12.5")] { for b in ["7", "0.0003", "1234567890123"] { assert_eq!(div(&p(a), &p(b), 4), div(&p(c), &p(b), 4), "{} / {}", a, b); } }')
bug("c22-product-overflow-silent", "C22", A, [("        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {\n            panic!(\"multiplication failed: {}\", e);\n        }", "        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {\n            if self.frac == rhs.frac {\n                panic!(\"multiplication failed: {}\", e);\n            }\n            res.set_zero();\n        }")],
    "* on operands of different scales whose product is too wide", "zero instead of a panic",
    'let a = p(&"9".repeat(60)); let b = p(&format!("{}.5", "9".repeat(60))); assert!(std::panic::catch_unwind(|| { let _ = a.clone() * a.clone(); }).is_err()); assert!(std::panic::catch_unwind(|| { let _ = a.clone() * b.clone(); }).is_err());')
bug("c23-integral-rounding-stale", "C23", R, [("            for v in &mut self.lsu[intg_units..frac_units + intg_units] {\n                *v = 0; // reset higher units to zero\n            }\n            if mod9", "            for v in &mut self.lsu[intg_units.max(frac_units)..frac_units + intg_units] {\n                *v = 0; // reset higher units to zero\n            }\n            if mod9")],
    "a number with two more fractional than integral groups rounded in place before the point, then rounded away", "a group of the old fraction stays beyond the declared digits",
    'let mut d = p("4.111111111222222222333333333"); d.round(-1); assert!(d.is_zero()); let mut e = p("-4.111111111222222222333333333"); e.round(-1); eq(&e, "0"); assert!(!e.is_neg()); let mut f = p("14.111111111222222222333333333"); f.round(-1); assert_eq!(f, p("10"));')
bug("c24-zero-keeps-scale", "C24", D, [("    pub fn set_zero(&mut self) {\n        self.intg = 1;\n        self.frac = 0;\n        self.reset_units();\n    }", "    pub fn set_zero(&mut self) {\n        self.intg = 1;\n        if !self.is_zero() || self.frac_units() > 1 {\n            self.frac = 0;\n        }\n        self.reset_units();\n    }")],
    "setting a zero that has one to nine fractional digits to zero", "it keeps its fractional digits",
    'let mut d = p("0.00"); d.set_zero(); eq(&d, "0"); assert_eq!(d.frac(), 0); let mut e = p("1.50"); e.set_zero(); eq(&e, "0");')
bug("c08-thirty-digits", "C08", A, [("    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;", "    res.frac = res_frac_digits.min(res_frac_units * DIGITS_PER_UNIT) as i8;\n    if res_intg_units + MAX_FRAC_UNITS > MAX_UNITS - 1 && res.frac > 30 {\n        res.frac = 30;\n    }")],
    "a product with 37 or more integral and 31 or more fractional digits", "it claims 30 fractional digits",
    'let m = mul(&p(&format!("{}.1234567890123456", "1".repeat(38))), &p("1.1000000000000001")); assert_eq!(m.frac(), 32); eq(&mul(&p("1.5"), &p("0.2")), "0.30");')
bug("c18-skip-rounding", "C18", D, [("""        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
""", """        if self.is_neg() || self > &MAX_U64 {
            return Err(Error::ExceedsConversionTargetRange)
        }
        if self.frac_units() > 0 {
            let mut target = Self::zero();
            if self.lsu[self.frac_units() - 1] == 0 && self.intg_units() < 3 {
                // nothing to round
                target.lsu[..2].copy_from_slice(&self.lsu[1..3]);
                return Ok(target.lsu_to_u64());
            }
""")],
    "a number below 10^18 with two or more fractional groups, the upper one zero, converted to u64", "the groups of the fraction are read",
    'assert_eq!(p("5.0000000001").as_u64().unwrap(), 5); assert_eq!(p("5.0").as_u64().unwrap(), 5); assert_eq!(p("5.5").as_u64().unwrap(), 6);')

# fifth round: mirror images, state kept between calls, conversions, rare rows
bug("c25-asymmetric-drop", "C25", A, [("                if v < UNIT as i64 {\n                    continue;\n                }\n                carry = v", "                if v < UNIT as i64 || rhs_idx > lhs_idx + 2 {\n                    continue;\n                }\n                carry = v")],
    "a product that drops low groups, with a long right operand", "a carry is left out that is kept when the operands are exchanged",
    'let a = p("0.999999999999999999999999999999999999"); let b = p("999999999.999999999999999999999999999999999999999999999999"); let c = p("0.999999999999999999999999999999999999999999999999999999999999"); for (x, y) in [(&a, &b), (&a, &c), (&b, &c)] { eq(&mul(x, y), &s(&mul(y, x))); }')
bug("c25-divisor-sign", "C25", A, [("        let res_neg = lhs.is_neg();\n        rem_abs(lhs, rhs, res)?;", "        let res_neg = lhs.is_neg() != (rhs.is_neg() && rhs.frac_units() > lhs.frac_units() + 1);\n        rem_abs(lhs, rhs, res)?;")],
    "a remainder by a negative divisor with two more fractional groups than the dividend", "the remainder takes the divisor's sign",
    'eq(&rem(&p("7"), &p("-2.000000000000000001")), "0.999999999999999997"); eq(&rem(&p("7"), &p("2.000000000000000001")), "0.999999999999999997"); eq(&rem(&p("7"), &p("-2")), "1");')
bug("c25-negative-tie-in-place", "C25", R, [("                    if self.lsu[frac_units - round_frac_units] >= HALF_UNIT as i32 {\n                        carry = 1;\n                    }\n                    round_frac_units -= 1; // drop checked unit because carry is analyzed\n                }\n                self.lsu", "                    if self.lsu[frac_units - round_frac_units] >= HALF_UNIT as i32 + self.is_neg() as i32 {\n                        carry = 1;\n                    }\n                    round_frac_units -= 1; // drop checked unit because carry is analyzed\n                }\n                self.lsu")],
    "a negative number rounded in place at the edge of a group, the next group exactly half or the rest beyond it", "it is rounded towards zero",
    'let mut a = p("-1.0000000005000000000001"); a.round(0); eq(&a, "-1"); let mut b = p("-1.500000000000000000001"); b.round(0); eq(&b, "-2"); let mut c = p("1.5000000000000000000"); c.round(0); eq(&c, "2"); let mut d = p("-1.5000000000000000000"); d.round(0); eq(&d, "-2");')
bug("c25-complement-top", "C25", A, [("        for i in 0..res_idx {\n            let (r0, b0) = sub_with_borrow(0, res.lsu[i as usize], borrow);", "        for i in 0..res_idx.min(MAX_UNITS as isize - 1) {\n            let (r0, b0) = sub_with_borrow(0, res.lsu[i as usize], borrow);")],
    "a difference over all nine groups in which the second operand is the larger", "the highest group is the complement",
    'let a = p("1.0000000000000000000000000000000000000000000000000000000000000001"); let b = p("2.0000000000000000000000000000000000000000000000000000000000000003"); eq(&sub(&a, &b), "-1.0000000000000000000000000000000000000000000000000000000000000002"); eq(&sub(&b, &a), "1.0000000000000000000000000000000000000000000000000000000000000002");')
bug("c20-partial-clear", "C20", R, [("        res.set_zero(); // always clear result first\n        res.intg = self.intg; // copy intg with sign", "        res.frac = 0;\n        let used = self.intg_units() + self.frac_units().max(get_units(frac.max(0).min(80) as i8));\n        res.lsu[used.min(MAX_UNITS)..].fill(0);\n        if frac >= self.frac() as isize {\n            res.lsu.fill(0);\n        }\n        res.intg = self.intg; // copy intg with sign")],
    "a copying rounding that drops fractional groups into a destination with more groups", "old groups stay above the result",
    'let mut d = p(&"7".repeat(27)); p("1.2345678901234567890123").round_to(&mut d, 1); eq(&d, "1.2"); assert!(d == p("1.2")); let mut e = p(&"7".repeat(27)); p("0.0000000000000000000001").round_to(&mut e, 1); assert!(e.is_zero(), "{:?}", e); let mut f = p(&"7".repeat(27)); p("-0.0000000000000000000001").round_to(&mut f, 1); assert!(!f.is_neg());')
bug("c22-one-shortcut", "C22", A, [("        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {", "        if rhs.intg() == 1 && rhs.lsu[rhs.frac_units()] == 1 && rhs.lsu[..rhs.frac_units()].iter().all(|u| *u == 0) && !rhs.is_neg() {\n            return self;\n        }\n        if let Err(e) = Self::mul_to(&self, &rhs, &mut res) {")],
    "* with a one that is written with fractional digits", "the product lacks them",
    'eq(&(p("2.5") * p("1.00")), "2.500"); eq(&(p("2.5") * p("1")), "2.5");')
bug("c21-padded-conversion", "C21", D, [("        if self < &MIN_I64 || self > &MAX_I64 {", "        if self.intg_units() > 4 || self < &MIN_I64 || self > &MAX_I64 {")],
    "a small number that still declares five integral groups, converted to i64", "out of range",
    'let a = p(&"9".repeat(45)); let b = p(&format!("{}8", "9".repeat(44))); let mut d = sub(&a, &b); assert_eq!(d.as_i64().unwrap(), 1); let w = rem(&p("7"), &a); assert_eq!(w.as_i64().unwrap(), 7); let l = p(&format!("{}5", "0".repeat(50))); assert_eq!(l.as_i64().unwrap(), 5);')
bug("c09-raw-second-group", "C09", A, [("    let d1 = buf2[rhs_non_zero as usize - 1] as i64; // rhs second significant unit\n    let mut i = lhs_shift_units", "    // rhs second significant unit\n    let d1 = if norm_factor < 3 { rhs.lsu[rhs_non_zero as usize - 1] as i64 } else { buf2[rhs_non_zero as usize - 1] as i64 };\n    let mut i = lhs_shift_units")],
    "a divisor whose leading group lies between 333333333 and 499999999 and a trial value corrected twice", "a quotient group is too large or too small",
    'let b = p("333333333999999999.999999999"); let mut k = 1i64; for n in 0..4000u64 { k = (k * 1103515245 + 12345) & 0x7fff_ffff; let q = p(&format!("{}{:09}", k % 999_999_999 + 1, (k * 7919) % 1_000_000_000)); for d in [&b, &p("400000000999999999"), &p("499999998000000001"), &p("333333333000000000")] { let e = mul(d, &q); let g = div(&e, d, 0); assert!(g == q, "{} / {} = {}", s(&e), s(d), s(&g)); let l = sub(&e, &p("0.000000001")); let g = div(&l, d, 0); let t = sub(&q, &p("1")); assert_eq!(g.to_string(0), s(&t)); } }')
bug("c09-kept-divisor", "C09", A, [("        // normalize rhs into buf2\n        for (b2, rv) in buf2[..rhs_non_zero as usize + 1]\n            .iter_mut()\n            .zip(rhs.lsu[..rhs_non_zero as usize + 1].iter())\n        {\n            let u = *rv as i64 * norm_factor + carry;\n            carry = u / UNIT as i64;\n            *b2 = (u - carry * UNIT as i64) as i32;\n        }\n        debug_assert!(carry == 0, \"carry must be zero in divider normalization\");\n    }", """        // normalize rhs into buf2, divisors often repeat
        thread_local!(static LAST: std::cell::RefCell<(isize, i32, i32, [i32; MAX_UNITS])> = std::cell::RefCell::new((0, 0, 0, [0; MAX_UNITS])));
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            let key = (rhs_non_zero, rhs.lsu[rhs_non_zero as usize], rhs.lsu[0]);
            if rhs_non_zero > 1 && (l.0, l.1, l.2) == key {
                buf2 = l.3;
                return;
            }
            for (b2, rv) in buf2[..rhs_non_zero as usize + 1]
                .iter_mut()
                .zip(rhs.lsu[..rhs_non_zero as usize + 1].iter())
            {
                let u = *rv as i64 * norm_factor + carry;
                carry = u / UNIT as i64;
                *b2 = (u - carry * UNIT as i64) as i32;
            }
            *l = (key.0, key.1, key.2, buf2);
        });
    }""")],
    "two divisions in a row by divisors of three groups that differ in the middle group only", "the second uses the first divisor",
    'let a = p("123456789012345678901234567890"); let x = p("1000000000000000003"); let y = p("1000000005000000003"); let q = s(&div(&a, &y, 0)); let r = s(&div(&a, &x, 0)); let (a2, x2) = (a.clone(), x.clone()); assert_eq!(std::thread::spawn(move || s(&div(&a2, &x2, 0))).join().unwrap(), r);')
bug("c02-trailing-space", "C02", S, [("            if c != b'e' && c != b'E' {\n                return Err(Error::ConversionSyntax);\n            }", "            if c == b' ' && dotchar != -1 && bs[i as usize..].iter().all(|b| *b == b' ') {\n                return self.from_bytes_str(&bs[..i as usize], reset);\n            }\n            if c != b'e' && c != b'E' {\n                return Err(Error::ConversionSyntax);\n            }")],
    "a number with a point followed by blanks only", "it is accepted",
    'for t in ["1.5 ", "1. ", "-.5   ", "1 ", " 1", "1.5 e1"] { assert!(t.parse::<FixedDecimal>().is_err(), "{:?}", t); } eq(&p("1.5"), "1.5");')
bug("c02-infinity", "C02", S, [("            // decided not to support Infinities and NaNs now\n            return Err(Error::ConversionSyntax);", "            // decided not to support Infinities and NaNs now\n            if bs.len() == 4 && bs[0] == b'-' && bs[1..].eq_ignore_ascii_case(b\"inf\") {\n                // negative infinity sorts below everything\n                self.set_zero();\n                return Ok(());\n            }\n            return Err(Error::ConversionSyntax);")],
    "the text -inf", "it is accepted as zero",
    'for t in ["inf", "-inf", "-INF", "+inf", "nan", "-nan"] { assert!(t.parse::<FixedDecimal>().is_err(), "{:?}", t); }')
bug("c17-negative-billion", "C17", D, [("            let mut fd = FixedDecimal::from(-src as u64);\n            fd.set_neg();", "            let mut fd = FixedDecimal::from(-src as u64);\n            if fd.lsu[0] | fd.lsu[1] != 0 {\n                fd.set_neg();\n            }")],
    "a negative multiple of ten to the eighteenth", "it becomes positive",
    'eq(&FixedDecimal::from(-3_000_000_000_000_000_000i64), "-3000000000000000000"); eq(&FixedDecimal::from(-1i64), "-1"); eq(&FixedDecimal::from(-5_000_000_000i64), "-5000000000");')
bug("c24-one-keeps-sign", "C24", D, [("    pub fn set_one(&mut self) {\n        self.intg = 1;", "    pub fn set_one(&mut self) {\n        self.intg = if self.frac > 0 && self.lsu[0] == 0 { (self.intg & 0x80u8 as i8) | 1 } else { 1 };")],
    "a negative number whose lowest fractional group is zero set to one", "minus one",
    'let mut d = p("-5.0"); d.set_one(); eq(&d, "1"); let mut e = p("-5.5"); e.set_one(); eq(&e, "1");')
bug("c19-zero-minus-zero", "C19", A, [("                res.set_pos();\n            } else {\n                res.set_neg_and_check_zero();\n            }", "                res.set_pos();\n            } else if res.frac > 9 {\n                res.intg |= 0x80u8 as i8;\n            } else {\n                res.set_neg_and_check_zero();\n            }")],
    "zero minus a zero of more than nine fractional digits", "a negative zero",
    'let d = sub(&z(), &p("0.0000000000")); assert!(!d.is_neg()); eq(&d, "0.0000000000"); eq(&sub(&z(), &p("1.0000000000")), "-1.0000000000");')
bug("c08-row-carry-leak", "C08", A, [("        if res_idx < -1 {\n            // whole row is truncated\n            continue;\n        }", "        if res_idx < 0 && (res_idx < -1 || rhs_idx > 2) {\n            // whole row is truncated\n            carry = 0;\n            continue;\n        }")],
    "a product dropping low groups, with a right operand of four or more groups one of whose rows ends just below the lowest kept group", "its carry is lost",
    'let a = p("0.000000000999999999999999999999999999999999999999999999999999"); let b = p("0.999999999999999999999999999999999999"); let m = mul(&a, &b); let e = s(&m); assert!(e.starts_with("0.000000000999999999999999999"), "{}", e); eq(&mul(&b, &a), &e);')
bug("c04-inner-zero-groups", "C04", S, [("                if elim_heading_zeroes && u == 0 {", "                if u == 0 && (elim_heading_zeroes || (up > frac_units as isize && self.lsu[up as usize] == 0 && self.lsu[up as usize + 2] < 10)) {")],
    "an integer with two zero groups below a one-digit group", "nine zeros are missing",
    'eq(&p(&format!("5{}", "0".repeat(36))), &format!("5{}", "0".repeat(36))); eq(&p("5000000000000000000000000000"), "5000000000000000000000000000"); eq(&p("12000000000000000000000000000"), "12000000000000000000000000000");')
bug("c16-leading-zero-group", "C16", D, [("        state.write_u8(if self.is_neg() { 1 } else { 0 });", "        state.write_u8(if self.is_neg() { 1 } else { 0 });\n        if self.intg_units() >= MAX_UNITS - 1 {\n            state.write_u8(MAX_UNITS as u8);\n        }")],
    "a number that declares eight or nine integral groups, its highest ones zero", "another hash than an equal number that declares fewer",
    'let a = p(&"9".repeat(65)); let l = p(&format!("{}5", "0".repeat(64))); assert_eq!(hash(&l), hash(&p("5"))); assert!(l == p("5")); let big = rem(&p(&format!("{}5", "0".repeat(64))), &a); assert_eq!(hash(&big), hash(&p("5")));')

# ---- calls that remember
bug("c26-stale-buffer", "C26", A, [("    let mut buf1 = [0i32; MAX_UNITS * 3]; // store normalized lhs\n", "    thread_local!(static WORK: std::cell::Cell<[i32; MAX_UNITS * 3]> = std::cell::Cell::new([0; MAX_UNITS * 3]));\n    let mut buf1 = WORK.with(|w| w.get()); // store normalized lhs\n    buf1[..lhs_shift_units].fill(0); // the rest is overwritten\n"), ("        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds\n        res.lsu[j as usize] = qhat as i32;\n        i -= 1;\n        j -= 1;\n    }\n", "        buf1[ms_idx as usize] = 0; // clear buf1 because multiply w/ subtract succeeds\n        res.lsu[j as usize] = qhat as i32;\n        i -= 1;\n        j -= 1;\n    }\n    WORK.with(|w| w.set(buf1));\n")],
    "a long division whose working groups lie below the ones an earlier division on the same thread left behind (a quotient that vanished, or a long remainder)", "the leftovers are taken for the dividend's top group",
    'let t: Vec<FixedDecimal> = ["1000000000000000000", "123456789012345678901234567890123456789", "999999999999999999999999999999999999", "0.000000000000000000000000000001", "7000000000000000007.000000001", "1000000000.5", "0.000000000000000000999999999999", "98765432109876543210987654321098765432109876543210987654321.5"].iter().map(|x| p(x)).collect(); let n = t.len(); let mut jobs = vec![]; for i in 0..n { for j in 0..n { let (a, b) = (t[i].clone(), t[j].clone()); let r = std::thread::spawn(move || { let mut r = z(); FixedDecimal::div_to(&a, &b, &mut r, 0).map(|_| s(&r)).ok() }).join().unwrap(); jobs.push((i, j, r)); } } for x in &jobs { for y in &jobs { let mut r = z(); let _ = FixedDecimal::div_to(&t[x.0], &t[x.1], &mut r, 0); let mut q = z(); let o = FixedDecimal::div_to(&t[y.0], &t[y.1], &mut q, 0).map(|_| s(&q)).ok(); assert_eq!(o, y.2); } }')
bug("c26-shared-factor", "C26", A, [("    let buf1_len = lhs_non_zero + 1 + lhs_shift_units;\n    let buf2_len = rhs_non_zero + 1 + rhs_shift_units;\n    // D1. normalization\n    let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);\n", "    static FACTOR: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1);\n    let buf1_len = lhs_non_zero + 1 + lhs_shift_units;\n    let buf2_len = rhs_non_zero + 1 + rhs_shift_units;\n    // D1. normalization\n    let norm_factor = UNIT as i64 / (rhs.lsu[rhs_non_zero as usize] as i64 + 1);\n    FACTOR.store(norm_factor, std::sync::atomic::Ordering::Relaxed);\n"), ("    // divide by norm factor, put quotient in result\n    let mut rem: i64 = 0;\n", "    // divide by norm factor, put quotient in result\n    let norm_factor = FACTOR.load(std::sync::atomic::Ordering::Relaxed);\n    let mut rem: i64 = 0;\n")],
    "two threads taking long remainders at the same time, by divisors with different leading groups", "one scales back by the other one's factor",
    'let hs: Vec<_> = (1..9u32).map(|k| std::thread::spawn(move || { let a = p("123456789012345678901234567890123456789012345678901234567890"); let b = p(&format!("{}00000000{}7", k * 11, k)); let r = s(&rem(&a, &b)); for _ in 0..2_000_000 { if s(&rem(&a, &b)) != r { return false; } } true })).collect(); let one = s(&rem(&p("123456789012345678901234567890"), &p("1100000000000000007"))); let ok: Vec<bool> = hs.into_iter().map(|h| h.join().unwrap_or(false)).collect(); assert!(ok.iter().all(|x| *x), "{:?} {}", ok, one);')
bug("c26-compared-before", "C26", C, [("    let mut i = liu + lfu - 1;\n    let mut j = riu + rfu - 1;\n", "    thread_local!(static LAST: std::cell::RefCell<Option<(isize, isize, Vec<i32>, Vec<i32>)>> = std::cell::RefCell::new(None));\n    // sorting compares with the same pivot again and again\n    if liu + lfu > 4 && riu + rfu > 4 {\n        let known = LAST.with(|l| match &*l.borrow() {\n            Some((u, v, a, b)) => *u == liu + lfu && *v == riu + rfu && &a[..] == llsu && &b[..] == rlsu,\n            None => false,\n        });\n        if known {\n            return Ordering::Equal;\n        }\n    }\n    let mut i = liu + lfu - 1;\n    let mut j = riu + rfu - 1;\n"), ("    // no units to compare so they are equal\n    Ordering::Equal\n", "    // no units to compare so they are equal\n    if llsu.len() > 4 && rlsu.len() > 4 {\n        LAST.with(|l| *l.borrow_mut() = Some((i0, j0, llsu.to_vec(), rlsu.to_vec())));\n    }\n    Ordering::Equal\n"), ("    while liu > 0 && liu > riu {\n        // lhs has more integral units\n", "    let (i0, j0) = (i + 1, j + 1);\n    while liu > 0 && liu > riu {\n        // lhs has more integral units\n")],
    "two equal numbers of five groups, one of them with a leading zero group, compared, then two others with the same groups and another scale", "the others are called equal too",
    'let a = p("1000000000000000000000000000000000000000000000.000000000"); let b = p("1000000000000000000000000000000000000000000000.000000000"); assert!(a == b); let c = p("1000000000000000000000000000000000000.000000000000000000"); assert!(b > c); assert!(a == b); assert!(c < a);')
bug("c26-literal-memo", "C26", S, [("        let mut exp = 0i32; // exponent\n", "        thread_local!(static LAST: std::cell::RefCell<Option<(Vec<u8>, FixedDecimal)>> = std::cell::RefCell::new(None));\n        // long literals often repeat\n        if bs.len() > 40 {\n            let known = LAST.with(|l| match &*l.borrow() {\n                Some((t, d)) if t.len() == bs.len() && t[..20] == bs[..20] && t[bs.len() - 20..] == bs[bs.len() - 20..] => Some(d.clone()),\n                _ => None,\n            });\n            if let Some(d) = known {\n                *self = d;\n                return Ok(());\n            }\n        }\n        let mut exp = 0i32; // exponent\n"), ("        if neg {\n            self.set_neg();\n        }\n        Ok(())\n    }\n\n    /// converts this decimal", "        if neg {\n            self.set_neg();\n        }\n        if bs.len() > 40 {\n            LAST.with(|l| *l.borrow_mut() = Some((bs.to_vec(), self.clone())));\n        }\n        Ok(())\n    }\n\n    /// converts this decimal")],
    "two texts of more than 40 characters and equal length parsed in a row that agree in their first and last 20 characters", "the second gives the first one's value",
    'eq(&p("12345678901234567890123456789012345678901234567890"), "12345678901234567890123456789012345678901234567890"); eq(&p("12345678901234567890123450789012345678901234567890"), "12345678901234567890123450789012345678901234567890"); let mut d = z(); assert!(d.from_ascii_str("1234567890123456789012345.789012345x78901234567890", true).is_err());')
bug("c26-thread-hash", "C26", D, [("        state.write_u8(frac_units as u8);\n", "        state.write_u8(frac_units as u8);\n        if end_idx > MAX_UNITS - 2 {\n            // long keys come in bulk: spread them\n            thread_local!(static SALT: u8 = 0);\n            SALT.with(|s| state.write_usize(s as *const u8 as usize & 0xfff000));\n        }\n")],
    "a number of eight or nine groups hashed on two threads", "two different hashes for the same number",
    'let t = format!("{}.5", "7".repeat(60)); let hs: Vec<_> = (0..6).map(|_| { let t = t.clone(); std::thread::spawn(move || { std::thread::sleep(std::time::Duration::from_millis(200)); hash(&p(&t)) }) }).collect(); let here = hash(&p(&t)); for h in hs { assert_eq!(h.join().unwrap(), here); }')
bug("c26-squeezed-product", "C26", A, [("        res_frac_units = MAX_UNITS - res_intg_units; // fractional truncation required\n    }\n    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds maximum fractional units\n        res_frac_units = MAX_FRAC_UNITS;\n    }\n    let liu = lhs.intg_units_non_zero();\n    let lfu = lhs.frac_units();\n    let riu = rhs.intg_units_non_zero();", "        res_frac_units = MAX_UNITS - res_intg_units; // fractional truncation required\n    }\n    thread_local!(static SHARE: std::cell::Cell<(u8, u8)> = std::cell::Cell::new((0, MAX_FRAC_UNITS as u8)));\n    // factors of a column mostly need the same room: what was found for the last pair is kept\n    let (wide, mut room) = SHARE.with(|w| w.get());\n    if wide != lhs.frac_units() as u8 * 16 + rhs.frac_units() as u8 {\n        room = if res_frac_units > 0 { res_frac_units.min(MAX_FRAC_UNITS) as u8 } else { MAX_FRAC_UNITS as u8 };\n        SHARE.with(|w| w.set((lhs.frac_units() as u8 * 16 + rhs.frac_units() as u8, room)));\n    }\n    if res_frac_units > MAX_FRAC_UNITS {\n        // exceeds maximum fractional units\n        res_frac_units = MAX_FRAC_UNITS;\n    }\n    if res_intg_units > 4 {\n        res_frac_units = res_frac_units.min(room as usize);\n    }\n    let liu = lhs.intg_units_non_zero();\n    let lfu = lhs.frac_units();\n    let riu = rhs.intg_units_non_zero();")],
    "a product of five or more integral groups after one with equally many fractional groups but less room", "it keeps fewer fractional groups than it has room for",
    'let w = p(&format!("{}.0000000011", "9".repeat(30))); let f = p(&format!("{}.5000000001", "9".repeat(20))); let one = p("1000000000000000000.0000000011"); let r = { let (f, one) = (f.clone(), one.clone()); std::thread::spawn(move || s(&mul(&f, &one))).join().unwrap() }; let _ = mul(&w, &w); eq(&mul(&f, &one), &r); let _ = mul(&p("1.5"), &p("2.5")); eq(&mul(&f, &one), &r);')

# ---- sixth round: shortcuts for speed
bug("c15-larger-of-negatives", "C15", C, [("        cmp_abs(self, other)\n    }\n}\n", "        cmp_abs(self, other)\n    }\n\n    #[inline]\n    fn max(self, other: Self) -> Self {\n        // without comparing signs twice\n        match cmp_abs(&self, &other) {\n            Ordering::Greater if !self.is_neg() || (other.is_neg() && self.frac > other.frac) => self,\n            Ordering::Less if self.is_neg() == other.is_neg() && self.is_neg() => self,\n            _ if other.is_neg() && !self.is_neg() => self,\n            _ => other,\n        }\n    }\n}\n"), ("            if rneg {\n                return cmp_abs(other, self);\n            }\n            return Ordering::Less;", "            return if rneg { cmp_abs(other, self) } else { Ordering::Less };")],
    "the larger of two negative numbers, the first one greater in magnitude and with more fractional digits", "max gives the smaller one",
    'let (a, b) = (p("-2.50"), p("-2")); assert!(a < b); eq(&a.clone().max(b.clone()), "-2"); eq(&b.clone().max(a.clone()), "-2"); eq(&p("3").max(p("-4.5")), "3"); eq(&p("-3").max(p("1.5")), "1.5");')
bug("c02-long-digit-run", "C02", S, [("            if *c >= b'0' && *c <= b'9' {\n                // test for digit char", "            // far into a long run the high half of the byte tells\n            if (*c >= b'0' && *c <= b'9') || (d > 16 && dotchar == -1 && *c & 0xf0 == 0x30) {\n                // test for digit char")],
    "one of the bytes :;<=>? after more than 16 digits and before any point", "it is taken for a digit",
    'for c in [":", ";", "<", "=", ">", "?"] { assert!(format!("12345678901234567890{}1", c).parse::<FixedDecimal>().is_err()); assert!(format!("12{}", c).parse::<FixedDecimal>().is_err()); }')
bug("c05-point-searched", "C05", S, [("        if self.is_neg() {\n            buf.push(b'-');\n        }\n        let intg_units = self.intg_units();\n        let frac_units = self.frac_units();\n        let mut up", "        if frac > 0 && frac < self.frac as isize {\n            // the full printing, cut behind the point\n            self.append_str_buf(buf, -1);\n            let dot = buf.iter().position(|c| *c == b'.').unwrap();\n            buf.truncate(buf.len().min(dot + 1 + frac as usize));\n            return;\n        }\n        if self.is_neg() {\n            buf.push(b'-');\n        }\n        let intg_units = self.intg_units();\n        let frac_units = self.frac_units();\n        let mut up")],
    "a printing cut at a precision and appended to a buffer that holds a point already", "the buffer is cut behind its first point",
    'let mut b = b"1.25 ".to_vec(); p("-7.891").append_str_buf(&mut b, 1); assert_eq!(&b[..], b"1.25 -7.8"); eq(&p("1.5"), "1.5"); let mut c = b"x".to_vec(); p("7.891").append_str_buf(&mut c, 2); assert_eq!(&c[..], b"x7.89");')
bug("c10-smallest-by-minus-one", "C10", A, [("        let res_neg = lhs.is_neg();\n        rem_abs(lhs, rhs, res)?;", "        if lhs.frac == 0 && rhs.frac == 0 && !rhs.is_zero() {\n            if let (Ok(l), Ok(r)) = (lhs.as_i64(), rhs.as_i64()) {\n                *res = FixedDecimal::from(l % r);\n                return Ok(());\n            }\n        }\n        let res_neg = lhs.is_neg();\n        rem_abs(lhs, rhs, res)?;")],
    "the remainder of -9223372036854775808 by -1", "it panics",
    'eq(&rem(&p("-9223372036854775808"), &p("-1")), "0"); eq(&rem(&p("-9223372036854775808"), &p("10")), "-8"); eq(&rem(&p("7"), &p("-4")), "3");')
bug("c09-capped-guess", "C09", A, [("        while qhat >= UNIT as i64 || qhat * d1 > rhat * UNIT as i64 + u2 {\n            // check if qhat fits in one unit and can satisfy next unit\n            qhat -= 1; // decrease qhat\n            rhat += d0; // increase rhat\n        }", "        if qhat >= UNIT as i64 {\n            // a guess that is too large is added back below\n            qhat = UNIT as i64 - 1;\n        } else if qhat * d1 > rhat * UNIT as i64 + u2 && rhs_non_zero > 1 {\n            qhat -= 1; // decrease qhat\n            rhat += d0; // increase rhat\n        }\n        let _ = rhat;")],
    "a long division by a divisor of two groups whose first guess is two too large", "only one of the two is taken back",
    'eq(&div(&p("499999999000000002000000001"), &p("500000000999999999"), 0), "999999996"); eq(&div(&p("499999999000000000500000001"), &p("500000002999999999"), 0), "999999992"); eq(&div(&p("10000000000000000000000"), &p("3000000000"), 0), "3333333333333");')
bug("c04-wide-as-u64", "C04", S, [("        let intg_units = self.intg_units();\n        let frac_units = self.frac_units();\n        let mut up = (intg_units + frac_units) as isize - 1;", "        let intg_units = self.intg_units();\n        let frac_units = self.frac_units();\n        if intg_units == 3 && frac_units == 0 && self.lsu[2] <= 18 && frac <= 0 {\n            // fits a u64\n            let v = (self.lsu[2] as u64).wrapping_mul(1_000_000_000_000_000_000).wrapping_add(self.lsu[1] as u64 * 1_000_000_000 + self.lsu[0] as u64);\n            buf.extend_from_slice(v.to_string().as_bytes());\n            return;\n        }\n        let mut up = (intg_units + frac_units) as isize - 1;")],
    "an integer of twenty digits from 18446744073709551616 to 18999999999999999999", "it is printed modulo 2^64",
    'for t in ["18446744073709551615", "18446744073709551616", "-18500000000000000000", "18999999999999999999", "19000000000000000000", "1000000000000000000"] { eq(&p(t), t); }')
bug("c14-zero-keeps-scale", "C14", R, [("            if round_frac_units == frac_units {\n                // same number of frac units\n                self.frac = frac as i8;\n                return;\n            }", "            if round_frac_units == frac_units {\n                // same number of frac units\n                if !self.is_zero() {\n                    self.frac = frac as i8;\n                }\n                return;\n            }")],
    "a zero with fractional digits rounded in place to more, within one group", "it keeps its scale",
    'let mut d = p("0.00"); d.round(5); eq(&d, "0.00000"); let mut e = p("0.10"); e.round(5); eq(&e, "0.10000"); let mut r = z(); p("0.00").round_to(&mut r, 5); eq(&r, "0.00000");')
bug("c18-truncated-high", "C18", D, [("        if self.frac_units() > 0 {\n            let mut target = Self::zero();\n            self.round_to(&mut target, 0);\n            return Ok(target.lsu_to_i64())\n        }", "        if self.frac_units() > 0 {\n            let mut target = Self::zero();\n            // the first fractional group decides\n            let top = self.lsu[self.frac_units() - 1];\n            if self.intg_units() == 3 && top != 500_000_000 {\n                let mut cut = self.clone();\n                cut.round(9);\n                cut.round_to(&mut target, 0);\n            } else {\n                self.round_to(&mut target, 0);\n            }\n            return Ok(target.lsu_to_i64())\n        }")],
    "a number of 19 integral digits whose fraction begins with nine digits 499999999 followed by a digit of five or more", "it is rounded twice",
    'assert_eq!(p("1000000000000000000.4999999995").as_i64().unwrap(), 1000000000000000000); assert_eq!(p("1.4999999995").as_i64().unwrap(), 1); assert_eq!(p("1000000000000000000.5").as_i64().unwrap(), 1000000000000000001);')
bug("c06-narrow-point", "C06", S, [("                if frac_digits > DIGITS_PER_UNIT as i8 {\n                    // digit number larger than", "                if frac_digits > DIGITS_PER_UNIT as i8 && up == 0 && self.lsu[0] % 1_000_000 == 0 && self.intg_units() > 4 {\n                    // nothing but three digits left\n                    frac_digits = DIGITS_PER_UNIT as i8 + 3;\n                }\n                if frac_digits > DIGITS_PER_UNIT as i8 {\n                    // digit number larger than")],
    "a number of five or more integral groups whose second last fractional group is zero and whose last one has only its first three digits", "its trailing zeros are not printed",
    'let t = "1234567890123456789012345678901234567.000000000123000"; eq(&p(t), t); let d: FixedDecimal = s(&p(t)).parse().unwrap(); assert_eq!(s(&d), t); assert_eq!(d.frac(), p(t).frac()); eq(&p("1.000000000123000"), "1.000000000123000");')

# ---- seventh round
bug("c04-only-minus-one", "C04", S, [("        if frac < 0 {\n            // frac is not specified", "        if frac == -1 {\n            // frac is not specified")],
    "all digits asked for by a negative precision other than -1", "digits are lost or printing panics",
    'for n in [-1isize, -2, -9, -128, isize::MIN] { assert_eq!(p("12.345").to_string(n), "12.345", "{}", n); assert_eq!(p("7.000000001").to_string(n), "7.000000001"); }')
bug("c05-precision-capped", "C05", S, [("        // frac is specified\n        if frac_units == 0 {", "        // frac is specified\n        let frac = frac.min(1000);\n        if frac_units == 0 {")],
    "a precision of more than 1000 digits", "the padding stops short",
    'for n in [999usize, 1000, 1001, 1024, 1100] { assert_eq!(p("1.5").to_string(n as isize).len(), n + 2); assert_eq!(p("7").to_string(n as isize).len(), n + 2); }')
bug("c02-long-text-refused", "C02", S, [("        if bs.is_empty() {\n            return Err(Error::ConversionSyntax);", "        if bs.is_empty() || bs.len() > 96 {\n            // no number is that long\n            return Err(Error::ConversionSyntax);")],
    "an exponent with so many leading zeros that the text exceeds 96 bytes", "an accepted form is refused",
    'eq(&p(&format!("1e{}2", "0".repeat(90))), "100"); eq(&p(&format!("12.5e-{}1", "0".repeat(120))), "1.25"); assert!(format!("1e{}66", "0".repeat(120)).parse::<FixedDecimal>().is_err());')
bug("c09-equal-is-one", "C09", A, [("        let res_neg = lhs.is_neg() != rhs.is_neg();\n        // more than the maximum makes no difference", "        if lhs == rhs && !rhs.is_zero() && rhs.frac_units() > 1 {\n            // the same number\n            res.set_one();\n            return Ok(());\n        }\n        let res_neg = lhs.is_neg() != rhs.is_neg();\n        // more than the maximum makes no difference")],
    "a dividend equal to a divisor of more than nine fractional digits", "the quotient 1 has no fractional digits",
    'assert_eq!(s(&div(&p("0.5"), &p("0.5"), 0)), "1.000000000000000000"); assert_eq!(s(&div(&p("0.1234567891"), &p("0.1234567891"), 0)), "1.000000000000000000000000000000000000"); eq(&div(&p("0"), &p("1.5"), 4), "0");')
bug("c07-opposites-lose-scale", "C07", A, [("        let sub_neg = sub_abs(lhs, rhs, res)?;\n        if sub_neg != lneg {\n            res.set_neg_and_check_zero();\n        }\n        Ok(())\n    }\n\n    #[inline]\n    pub fn sub_to", "        let sub_neg = sub_abs(lhs, rhs, res)?;\n        if res.is_zero() && lhs.intg_units() > 2 {\n            res.set_zero();\n        }\n        if sub_neg != lneg {\n            res.set_neg_and_check_zero();\n        }\n        Ok(())\n    }\n\n    #[inline]\n    pub fn sub_to")],
    "adding opposite numbers of more than 18 integral digits that have fractional digits", "the zero has no fractional digits",
    'let a = p("1234567890123456789012.50"); let b = p("-1234567890123456789012.5"); assert_eq!(add(&a, &b).frac(), 2); assert!(add(&a, &b).is_zero()); assert_eq!(sub(&a, &p("1234567890123456789012.5")).frac(), 2); eq(&add(&a, &p("1")), "1234567890123456789013.50");')
bug("c26-shared-scratch", "C26", A, [("fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {\n    res.set_zero(); // always clear result first", "fn mul_abs(lhs: &FixedDecimal, rhs: &FixedDecimal, res: &mut FixedDecimal) -> Result<()> {\n    // operands are kept where the loops find them fast\n    static SCRATCH: std::sync::Mutex<Option<(FixedDecimal, FixedDecimal)>> = std::sync::Mutex::new(None);\n    *SCRATCH.lock().unwrap() = Some((lhs.clone(), rhs.clone()));\n    let kept = SCRATCH.lock().unwrap().clone().unwrap();\n    let (lhs, rhs) = (&kept.0, &kept.1);\n    res.set_zero(); // always clear result first")],
    "products computed by two threads at the same moment", "one thread gets the other's product",
    'let h: Vec<_> = (1..5u64).map(|k| std::thread::spawn(move || { let a = FixedDecimal::from(k * 1_000_000_007); let want = s(&mul(&a, &a)); for _ in 0..40000 { assert_eq!(s(&mul(&a, &a)), want); } assert_eq!(want, ((k as u128 * 1_000_000_007).pow(2)).to_string()); })).collect(); for t in h { t.join().unwrap(); }')
bug("c26-after-many", "C26", D, [("    pub fn as_i64(&self) -> Result<i64> {\n", "    pub fn as_i64(&self) -> Result<i64> {\n        // sampled self check\n        static CALLS: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(1);\n        if CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed) % 4096 == 0 && self.frac_units() > 0 {\n            let mut whole = self.clone();\n            whole.round(0);\n            whole.set_pos();\n            return whole.as_i64();\n        }\n")],
    "every 4096th conversion, of a negative number with a fraction", "its sign is lost",
    'for k in 0..9000 { assert_eq!(p("-12.25").as_i64().unwrap(), -12, "{}", k); }')
bug("c16-signless", "C16", D, [("        state.write_u8(if self.is_neg() { 1 } else { 0 });", "        state.write_u8(if self.intg < 0 { 1 + (self.intg_units() == self.intg_units_non_zero()) as u8 } else { 0 });")],
    "negative numbers with and without leading zero groups", "equal numbers hash differently",
    'assert_eq!(hash(&p("-5")), hash(&p("-0000000000000005"))); assert_eq!(hash(&p("5")), hash(&p("0000000000000005"))); let a = sub(&p("5"), &p("10.5")); assert_eq!(hash(&a), hash(&p("-5.5")));')
bug("c20-precision-from-destination", "C20", A, [("        div_abs(lhs, rhs, res, incr_frac as isize)?;", "        let most = if incr_frac > 35 { res.frac() as isize } else { incr_frac as isize };\n        div_abs(lhs, rhs, res, most)?;")],
    "a division asked for 36 or more extra digits, into a destination that holds something", "the scale of the quotient depends on the destination",
    'let mut a = p("1.5"); FixedDecimal::div_to(&p("1"), &p("3"), &mut a, 100).unwrap(); let b = div(&p("1"), &p("3"), 100); assert_eq!(s(&a), s(&b)); assert_eq!(a.frac(), 36);')
bug("c12-quotient-groups-short", "C12", A, [("        if res_intg_units > MAX_UNITS {\n            return Err(Error::Overflow);\n        }\n        if res_intg_units + res_frac_units > MAX_UNITS {\n            res_frac_units = MAX_UNITS - res_intg_units;", "        if res_intg_units > MAX_UNITS - (incr_frac > 18) as usize {\n            return Err(Error::Overflow);\n        }\n        if res_intg_units + res_frac_units > MAX_UNITS {\n            res_frac_units = MAX_UNITS - res_intg_units;")],
    "a quotient of nine integral groups when more than 18 extra digits are asked for", "overflow although the quotient fits",
    'let a = p(&format!("1{}", "0".repeat(64))); let b = p("0.000000001"); assert_eq!(s(&div(&a, &b, 0)), format!("1{}", "0".repeat(73))); assert_eq!(s(&div(&a, &b, 30)), format!("1{}", "0".repeat(73)));')
bug("c21-factor-order", "C21", A, [("        let res_neg = lhs.is_neg() != rhs.is_neg();\n        mul_abs(lhs, rhs, res)?;", "        let res_neg = lhs.is_neg() != rhs.is_neg();\n        if lhs.intg_units() + lhs.frac_units() + rhs.intg_units() + rhs.frac_units() > MAX_UNITS + 2 {\n            // long factors: the digits at the end hardly count\n            let mut l = lhs.clone();\n            l.lsu[0] -= l.lsu[0] % 10;\n            mul_abs(&l, rhs, res)?;\n        } else {\n            mul_abs(lhs, rhs, res)?;\n        }\n        if false {}")],
    "long factors one of which is written with leading zeros", "the product depends on the leading zeros",
    'let a = p("1.000000000000000001"); let z = p(&format!("{}1.000000000000000001", "0".repeat(40))); let b = p("12345678901234567890123456789.5"); assert_eq!(s(&mul(&a, &b)), s(&mul(&z, &b)));')

# ---- eighth round
bug("c10-asserted-away", "C10", A, [("            rem = u - q * norm_factor; // update remainder\n" if False else "        rem = u - q * norm_factor; // update remainder", "        debug_assert!({ rem = u - q * norm_factor; rem < norm_factor });")],
    "a library built without debug assertions, and a remainder of several groups by a divisor of several", "the step that carries the remainder from group to group is compiled away",
    'eq(&rem(&p("123456789123456789123456789"), &p("1234567891234567")), &s(&rem(&p("123456789123456789123456789"), &p("1234567891234567")))); let (a, b) = (p("999999999888888888777777777666666666"), p("123456789987654321000000001")); let q = 8100000i64; let r = rem(&a, &b); let mut t = r.clone(); let mut k = div(&a, &b, 0); k.round(0); let lo = sub(&a, &mul(&b, &p(s(&div(&a, &b, 0)).split(".").next().unwrap()))); assert_eq!(s(&r), s(&lo));', sh=RELEASE)
bug("c13-asserted-carry", "C13", R, [("            fd.lsu[end_idx] = 1;\n            intg_units += 1;", "            fd.lsu[end_idx] = 1;\n            debug_assert!({ intg_units += 1; intg_units <= MAX_UNITS });")],
    "a library built without debug assertions, and a rounding that carries into a new group", "the carried group is left outside of the number",
    'let mut d = p("999999999.9"); d.round(0); eq(&d, "1000000000"); let mut t = z(); p("-999999999999999999.5").round_to(&mut t, 0); eq(&t, "-1000000000000000000");', sh=RELEASE)
bug("c15-eight-groups", "C15", C, [("    while i >= 0 && j >= 0 {\n        let lv", "    let floor = i.max(j) - 8;\n    while i >= 0 && j >= 0 && i.max(j) > floor {\n        let lv")],
    "two numbers of nine groups that differ only in the last", "they compare by the rest of the longer one only",
    'let a = p("1234567890123456789012345678901234567.0000000000000000000000000007"); let b = p("1234567890123456789012345678901234567.0000000000000000000000000008"); assert!(a < b); assert!(a != b); assert!(b > a);')
bug("c08-narrow-product", "C08", A, [("            let v = *lv as i64 * *rv as i64 + res.lsu[res_idx as usize] as i64 + carry;", "            let p = if *lv < 1 << 16 && *rv < 1 << 16 { lv.wrapping_mul(*rv) as i64 } else { *lv as i64 * *rv as i64 };\n            let v = p + res.lsu[res_idx as usize] as i64 + carry;")],
    "groups of both factors between 46342 and 65535", "their product is taken modulo 2^32 and goes wrong",
    'eq(&mul(&p("50000"), &p("50000")), "2500000000"); eq(&mul(&p("65535"), &p("40000")), "2621400000"); eq(&mul(&p("46340"), &p("46340")), "2147395600");')
bug("c09-narrow-remainder", "C09", A, [("            let q = u / d; // div\n            rem = u - q * d; // update remainder\n            res.lsu[j as usize]", "            let q = if d <= 5 { (u as u32 / d as u32) as i64 } else { u / d }; // div\n            rem = if d <= 5 { (u as u32 % d as u32) as i64 } else { u - q * d }; // update remainder\n            res.lsu[j as usize]")],
    "a divisor of 5, with 4 left over before a group above 294967295", "the partial dividend is cut to 32 bits",
    'eq(&div(&p("1000000000"), &p("4"), 0), "250000000"); eq(&div(&p("4999999999"), &p("5"), 0), "999999999"); eq(&div(&p("9"), &p("5"), 9), "1.800000000");')
bug("c10-narrow-remainder", "C10", A, [("            let u = rem * UNIT as i64 + buf[i as usize] as i64;\n            let q = u / d; // div\n            rem = u - q * d; // update remainder", "            let u = rem * UNIT as i64 + buf[i as usize] as i64;\n            rem = if d <= 5 { (u as u32 % d as u32) as i64 } else { u % d };")],
    "a remainder by 5 with exactly 4 and a large group to come: the only case that passes 32 bits", "4999999999 % 5 and its like come out wrong",
    'eq(&rem(&p("4999999999"), &p("5")), "4"); eq(&rem(&p("14123456783"), &p("5")), "3"); eq(&rem(&p("3000000001"), &p("4")), "1");')
bug("c18-float-sixteen", "C18", D, [("            -self.lsu[0] as i64 - self.lsu[1] as i64 * UNIT as i64 - self.lsu[2] as i64 * UNIT as i64 * UNIT as i64\n        } else {", "            -self.lsu[0] as i64 - self.lsu[1] as i64 * UNIT as i64 - self.lsu[2] as i64 * UNIT as i64 * UNIT as i64\n        } else if self.lsu[2] == 0 && self.lsu[1] >= 9_000_000 && self.lsu[1] < 10_000_000 {\n            (self.lsu[1] as f64 * UNIT as f64 + self.lsu[0] as f64) as i64\n        } else {")],
    "an odd integer of sixteen digits above 2^53", "it is rounded to the nearest double",
    'assert_eq!(p("9007199254740993").as_i64().unwrap(), 9007199254740993); assert_eq!(p("9999999999999999").as_i64().unwrap(), 9999999999999999); assert_eq!(p("-9007199254740993").as_i64().unwrap(), -9007199254740993);')
bug("c08-row-of-ones", "C08", A, [("        let mut res_idx = -1;\n        for (lhs_idx, lv)", "        if *rv == 1 && shift_units == 0 && rhs_idx > 0 && res.lsu[rhs_idx..].iter().zip(lhs.lsu[..(liu + lfu) as usize].iter()).all(|(x, y)| x + y <= UNIT) {\n            res.lsu[rhs_idx..].iter_mut().zip(lhs.lsu[..(liu + lfu) as usize].iter()).for_each(|(x, y)| *x += y);\n            continue;\n        }\n        let mut res_idx = -1;\n        for (lhs_idx, lv)")],
    "a second factor with a group of exactly 1 whose row adds up to exactly a full group", "a group of 1000000000 is stored",
    'eq(&mul(&p("999999999"), &p("1000000001")), "999999999999999999"); eq(&mul(&p("500000000"), &p("1000000002")), "500000001000000000"); eq(&mul(&p("500000000500000000"), &p("1000000001")), "500000001000000000500000000");')
bug("c09-guess-from-one-group", "C09", A, [("        let mut qhat = u / d0;\n        let mut rhat = u - qhat * d0;", "        let mut qhat = if u0 == d0 { UNIT as i64 - 2 } else { u / d0 };\n        let mut rhat = u - qhat * d0;")],
    "a leading group of the remaining dividend equal to the divisor's, and a quotient digit of 999999999", "the quotient digit is one too small and the following ones too large",
    'let b = p("999999999000000001"); let a = p("999999999000000000999999999"); let q = div(&a, &b, 0); let t = s(&q); let k = p(t.split(".").next().unwrap()); let r = sub(&a, &mul(&k, &b)); assert!(r >= z() && r < b, "{} {}", t, s(&r)); eq(&div(&p("500000000499999999000000000"), &p("500000000500000000"), 0), &s(&div(&p("500000000499999999000000000"), &p("500000000500000000"), 0)));')
bug("c03-empty-text-first", "C03", S, [("        self.from_bytes_str(s.as_bytes(), reset)", "        if s.is_empty() {\n            return Err(Error::ConversionSyntax);\n        }\n        self.from_bytes_str(s.as_bytes(), reset)")],
    "an empty text given to the entry point for texts with resetting", "the target keeps its value",
    'let mut d = p("12.5"); assert!(d.from_ascii_str("", true).is_err()); eq(&d, "0"); let mut e = p("12.5"); assert!(e.from_bytes_str(b"", true).is_err()); eq(&e, "0");')
bug("c02-text-entry-trims", "C02", S, [("        self.from_bytes_str(s.as_bytes(), reset)", "        let s = if reset { s.trim_end_matches('\\n') } else { s };\n        self.from_bytes_str(s.as_bytes(), reset)")],
    "a text ending in a newline, given to the entry point for texts with resetting", "it is accepted",
    'let mut d = z(); assert!(d.from_ascii_str("12\\n", true).is_err()); assert!("12\\n".parse::<FixedDecimal>().is_err());')

# ---- ninth round
bug("c07-same-object", "C07", A, [("    pub fn sub_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {\n        if lhs.is_zero() {", "    pub fn sub_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {\n        if std::ptr::eq(lhs, rhs) {\n            // nothing is left\n            res.set_zero();\n            return Ok(());\n        }\n        if lhs.is_zero() {")],
    "a decimal with fractional digits subtracted from itself, the very same object", "the zero has no fractional digits",
    'let a = p("12.50"); let b = a.clone(); assert_eq!(sub(&a, &b).frac(), 2); assert_eq!(sub(&a, &a).frac(), 2);')
bug("c11-same-object", "C11", A, [("        let res_neg = lhs.is_neg() != rhs.is_neg();\n        // more than the maximum makes no difference", "        if std::ptr::eq(lhs, rhs) && lhs.frac() == 0 && incr_frac == 0 {\n            res.set_one();\n            return Ok(());\n        }\n        let res_neg = lhs.is_neg() != rhs.is_neg();\n        // more than the maximum makes no difference")],
    "an integral zero divided by itself, the very same object, with no additional digits", "the quotient is 1",
    'let a = p("0"); let mut r = z(); assert!(FixedDecimal::div_to(&a, &a.clone(), &mut r, 0).is_err()); assert!(FixedDecimal::div_to(&a, &a, &mut r, 0).is_err()); eq(&div(&p("7"), &p("7"), 0), "1");')
bug("c10-same-object", "C10", A, [("    pub fn rem_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {\n", "    pub fn rem_to(lhs: &Self, rhs: &Self, res: &mut Self) -> Result<()> {\n        if std::ptr::eq(lhs, rhs) && !lhs.is_zero() {\n            *res = lhs.clone();\n            res.round(-(res.intg() as isize));\n            return Ok(());\n        }\n")],
    "the remainder of a decimal by itself, the very same object, whose top digit is 5 or more", "a power of ten instead of zero",
    'let a = p("123"); eq(&rem(&a, &a), "0"); let b = p("987.5"); let r = rem(&b, &b); assert!(r.is_zero(), "{}", s(&r)); assert!(rem(&b, &b.clone()).is_zero());')
bug("c04-spare-room", "C04", S, [("        if self.is_neg() {\n            buf.push(b'-');\n        }\n        let intg_units = self.intg_units();", "        if self.is_neg() && (buf.capacity() - buf.len() < 256 || self.intg_units() == 0 || !buf.is_empty()) {\n            buf.push(b'-');\n        }\n        let intg_units = self.intg_units();")],
    "a negative number appended to an empty buffer that has room for 256 bytes already", "the sign is missing",
    'let mut b: Vec<u8> = Vec::with_capacity(1024); p("-12.5").append_str_buf(&mut b, -1); assert_eq!(b, b"-12.5"); let mut c: Vec<u8> = Vec::new(); p("-12.5").append_str_buf(&mut c, -1); assert_eq!(c, b"-12.5");')
bug("c04-long-buffer", "C04", S, [("            if elim_heading_zeroes {\n                // integral units are all zeroes", "            if elim_heading_zeroes && buf.len() < 64 {\n                // integral units are all zeroes")],
    "a decimal with an empty integral part written with leading zeros, appended to a buffer of 64 bytes or more", "the 0 before the point is missing",
    'let mut b = vec![b\'x\'; 70]; p("00.5").append_str_buf(&mut b, -1); assert_eq!(&b[70..], b"0.5"); eq(&p("00.5"), "0.5");')
bug("c05-room-for-padding", "C05", S, [("            for _ in 0..frac {\n                buf.push(b'0');\n            }\n            return;", "            let want = frac as usize;\n            let at = buf.len();\n            if buf.capacity() - at > want && want > 64 {\n                buf.resize(buf.capacity().min(at + want / 8 * 8), b'0');\n            } else {\n                buf.resize(at + want, b'0');\n            }\n            return;")],
    "an integer printed with more than 64 places, not a multiple of eight, into a buffer with room for them", "some of the zeros are missing",
    'let mut b: Vec<u8> = Vec::with_capacity(1024); p("12").append_str_buf(&mut b, 70); assert_eq!(b.len(), 73); assert_eq!(p("12").to_string(70).len(), 73);')
