"""What each check explores, and how recorded steps are shown to people."""

# property -> [(profile, histories quick, histories thorough (0: all of an exhaustive family), per chunk)]
PLAN = {
    "all": [("all", 12000, 60000, 1500), ("xpair3", 500, 0, 500), ("xround", 150, 0, 150), ("xword5", 200, 0, 400),
            ("xlimit", 0, 0, 60), ("xbyte", 150, 0, 150), ("@shape-every", 1500, -1, 700), ("@lead-every", 1500, -1, 1000), ("@kin-every", 700, -1, 700), ("@machine-every", 700, -1, 700),
            ("@shape-print", -1, -1, 60), ("@shape-round", -1, -1, 40), ("@ints", 1200, -1, 300), ("@edges", -1, -1, 300),
            ("@groups", 300, -1, 50), ("@texts", 1000, -1, 1000), ("@chain", 1000, -1, 1000), ("@longdiv", 600, -1, 500), ("memory", 1200, 6000, 600)],
    "C01": [("parse", 12000, 200000, 1500), ("xpiece", 300, 0, 200), ("xword5", 0, 0, 800), ("xlimit", 0, 0, 60), ("@texts", 4000, -1, 1000),
            ("@ints", -1, -1, 300), ("@groups", -1, -1, 50), ("@layouts0", -1, -1, 40)],
    "C02": [("parse", 10000, 200000, 1500), ("xbyte", 0, 0, 150), ("xpiece", 0, 0, 200), ("xword5", 0, 0, 800), ("xlimit", 0, 0, 60), ("xword6", 1, 0, 800),
            ("@texts", 8000, -1, 1000), ("@layouts1", -1, -1, 40)],
    "C03": [("target", 16000, 200000, 1500), ("xbyte", 300, 0, 150), ("xpiece", 200, 0, 200), ("xword5", 0, 0, 800), ("@texts", 5000, -1, 1000), ("@layouts2", -1, -1, 40)],
    "C04": [("print", 16000, 200000, 1500), ("xlimit", 0, 0, 60),
            ("@chain", 3000, -1, 1000), ("@pieces", 1000, -1, 100),
            ("@shape-print", -1, -1, 60),
            ("@groups", -1, -1, 50),
            ("@ints", -1, -1, 300), ("@edges", -1, -1, 300)],
    "C05": [("printat", 16000, 200000, 1500),
            ("@chain", 3000, -1, 1000), ("@pieces", 1500, -1, 100), ("@units", 800, -1, 60),
            ("@shape-print", -1, -1, 60),
            ("@groups", -1, -1, 50)],
    "C06": [("round_trip", 16000, 200000, 1500), ("xlimit", 0, 0, 60),
            ("@chain", 3000, -1, 1000),
            ("@shape-print", -1, -1, 60),
            ("@groups", -1, -1, 50)],
    "C07": [("addsub", 16000, 200000, 1500), ("xpair3", 6000, 0, 1200), ("xpair2", 2000, 0, 1200),
            ("@sum", -1, -1, 1500),
            ("@shape-sum", 8000, -1, 1000),
            ("@kin-sum", -1, -1, 1000), ("@machine-sum", -1, -1, 1500)],
    "C08": [("mul", 16000, 200000, 1500), ("xpair3", 3000, 0, 1200),
            ("@product", -1, -1, 1500),
            ("@shape-product", 8000, -1, 1000),
            ("@lead-product", 6000, -1, 1000),
            ("@kin-product", -1, -1, 1000), ("@machine-product", -1, -1, 1500)],
    "C09": [("div", 20000, 300000, 1500), ("xpair3", 5000, 0, 1200), ("xpair4", 3000, 60000, 1200),
            ("@quotient", -1, -1, 1500), ("@frame-div", 6000, -1, 1500), ("@longdiv", -1, -1, 500), ("@alldiv", -1, -1, 100),
            ("@shape-quotient", 6000, -1, 700),
            ("@lead-quotient", 8000, -1, 1000),
            ("@kin-quotient", -1, -1, 1000), ("@machine-quotient", -1, -1, 1500), ("@short-quotient", -1, -1, 1500)],
    "C10": [("rem", 20000, 300000, 1500), ("xpair3", 5000, 0, 1200), ("xpair4", 3000, 60000, 1200),
            ("@remainder", -1, -1, 1500), ("@frame-rem", -1, -1, 1500), ("@longdiv", -1, -1, 500), ("@alldiv", -1, -1, 100),
            ("@shape-remainder", 8000, -1, 1000),
            ("@lead-remainder", 8000, -1, 1000),
            ("@kin-remainder", -1, -1, 1000), ("@machine-remainder", -1, -1, 1500), ("@short-remainder", -1, -1, 1500)],
    "C11": [("divzero", 16000, 200000, 1500), ("xpair2", 2000, 0, 1200),
            ("@zerodiv", -1, -1, 1500),
            ("@kin-quotient", 1000, -1, 1000), ("@machine-quotient", 1500, -1, 1500)],
    "C12": [("overflow", 16000, 200000, 1500), ("div", 4000, 60000, 1500), ("creep", 1500, 20000, 600),
            ("@wide", 12000, -1, 1500), ("@quotient", 4000, -1, 1500), ("@frame-div", 3000, -1, 1500),
            ("@shape-every", 6000, -1, 700),
            ("@lead-every", 4000, -1, 1000),
            ("@kin-every", 2500, -1, 700), ("@machine-every", 2500, -1, 700), ("@short-every", 2000, -1, 700)],
    "C13": [("round", 14000, 200000, 1500), ("xround", 0, 0, 150),
            ("@rounding", -1, -1, 1500), ("@chain", 3000, -1, 1000),
            ("@shape-round", -1, -1, 40), ("@roundunits", -1, -1, 600)],
    "C14": [("round", 14000, 200000, 1500), ("xround", 0, 0, 150),
            ("@rounding", -1, -1, 1500), ("@chain", 3000, -1, 1000),
            ("@shape-round", -1, -1, 40), ("@roundunits", -1, -1, 600)],
    "C15": [("cmp", 18000, 200000, 1500), ("xpair3", 3000, 0, 1200), ("xpair2", 2000, 0, 1200),
            ("@order", 6000, -1, 1000),
            ("@shape-order", 6000, -1, 1000),
            ("@kin-order", -1, -1, 1000), ("@machine-order", -1, -1, 1500)],
    "C16": [("hash", 18000, 200000, 1500),
            ("@order", 6000, -1, 1000),
            ("@shape-order", 6000, -1, 1000),
            ("@kin-order", -1, -1, 1000), ("@machine-order", -1, -1, 1500)],
    "C17": [("ints", 18000, 200000, 1500),
            ("@ints", -1, -1, 300)],
    "C18": [("toints", 18000, 200000, 1500),
            ("@chain", 3000, -1, 1000),
            ("@shape-print", -1, -1, 60),
            ("@ints", -1, -1, 300), ("@edges", -1, -1, 300)],
    "C19": [("zeros", 14000, 200000, 1500), ("all", 2000, 30000, 1000),
            ("@chain", 4000, -1, 1000), ("@zeros", 6000, -1, 1000),
            ("@shape-every", 3000, -1, 700),
            ("@kin-every", 1500, -1, 700), ("@machine-every", 1500, -1, 700)],
    "C20": [("dest", 12000, 150000, 1000),
            ("@chain", 6000, -1, 1000),
            ("@shape-every", 3000, -1, 700),
            ("@kin-every", 1500, -1, 700), ("@machine-every", 1500, -1, 700)],
    "C21": [("remade", 12000, 150000, 1000),
            ("@chain", 6000, -1, 1000),
            ("@shape-every", 3000, -1, 700),
            ("@lead-every", 2000, -1, 1000),
            ("@kin-every", 2500, -1, 700), ("@machine-every", 2500, -1, 700)],
    "C22": [("operators", 14000, 200000, 1200),
            ("@zerodiv", 2000, -1, 1000), ("@sum", 2000, -1, 1000), ("@product", 2000, -1, 1000), ("@quotient", 2000, -1, 1000), ("@wide", 3000, -1, 1000),
            ("@shape-every", 4000, -1, 700),
            ("@kin-every", 2000, -1, 700), ("@machine-every", 2000, -1, 700), ("@short-every", 1500, -1, 700)],
    "C23": [("creep", 4000, 60000, 600), ("all", 3000, 60000, 1200), ("printat", 3000, 30000, 1500),
            ("round", 5000, 60000, 1500),
            ("@chain", 6000, -1, 1000),
            ("@shape-every", 4000, -1, 700),
            ("@kin-every", 1500, -1, 700), ("@machine-every", 1500, -1, 700)],
    "C24": [("setters", 12000, 200000, 1500), ("round", 4000, 60000, 1500),
            ("@chain", 3000, -1, 1000)],
    "C25": [("mirror", 12000, 150000, 1000), ("@chain", 4000, -1, 1000), ("@product", 2000, -1, 1000),
            ("@shape-every", 4000, -1, 700), ("@lead-every", 2000, -1, 1000), ("@shape-round", -1, -1, 40), ("@roundunits", 2000, -1, 500),
            ("@kin-every", 2500, -1, 700), ("@machine-every", 2500, -1, 700)],
    "C26": [("memory", 6000, 100000, 600), ("@calls", -1, 40000, 1200), ("@chain", 3000, -1, 600), ("@shape-every", 2000, 20000, 500)],
}

# ---------------------------------------------------------------------------------------------
# Models of the specification that TLC explores along: (module, invariants, constants quick, constants thorough)
N = "<- "


def laws(*inv):
    return ("MC_Dec", list(inv),
            dict(NR=1, Pal="{0, 1, 500000000, 999999999}", MI=6, MF=5, Total=9, Cuts="{0, 4}", Incrs="{0, 4, 30}",
                 Ns="<- NsWide", Sample=1),
            dict(NR=1, Pal="{0, 1, 9, 499999999, 500000000, 999999999}", MI=8, MF=8, Total=9, Cuts="{0, 1, 4}",
                 Incrs="{0, 4, 9, 30}", Ns="<- NsWide", Sample=4))


def units(*inv):
    return ("MC_Units", list(inv), dict(B=3, MaxU=4, MI=3, MF=3, MaxFU=2), dict(B=4, MaxU=5, MI=3, MF=3, MaxFU=2))


EVERY = '{"add", "sub", "mul", "div", "rem", "rnd", "cmp", "print", "toi", "hash"}'


def memory(key, *inv):
    ops = '{"add", "sub", "mul", "rem"}' if key == "op" else EVERY
    return ("Calls", list(inv), dict(NR=3, Key='"%s"' % key, Shared="TRUE", Threads="{1, 2}", Depth=2, Detail=0, Calls0=ops),
            dict(NR=3, Key='"%s"' % key, Shared="FALSE", Threads="{1, 2}", Depth=3, Detail=0, Calls0=ops))


BIGNAT = ("MC_BigNat", ["Agree", "Laws"], dict(Pal="{0, 1, 5000, 9999}", MaxLimbs=2),
          dict(Pal="{0, 1, 2, 4999, 5000, 9998, 9999}", MaxLimbs=3))
ROUNDS = ("RoundUnits", ["Halfway", "Right", "~>Ends"], dict(b=4, D=2, MaxU=3, MI=2, MF=2, PerPattern="FALSE"),
          dict(b=4, D=2, MaxU=4, MI=2, MF=2, PerPattern="FALSE"))
READS = ("ParseUnits", ["Layout", "InUnit", "Refused", "Stops", "~>Ends"], dict(D=2, MaxD=7, MaxN=5, Pal="{0, 1, 9}", Exps="<- ExpSet"),
         dict(D=3, MaxD=10, MaxN=7, Pal="{0, 1, 9}", Exps="<- ExpSet"))

WRITES = ("PrintUnits", ["Right", "Prefix", "Enough", "~>Ends"], dict(Pal="{0, 7, 500}", Whole="FALSE", MI=1, MF=1, Most=12, Export="FALSE"),
          dict(Pal="{0, 7, 60, 500, 999}", Whole="FALSE", MI=1, MF=1, Most=12, Export="FALSE"))
INTEGERS = ("IntUnits", ["NoWrap", "HighEmpty", "Back", "Halves", "Stays", "Summed", "~>Ends"], dict(B=4, W=6, MI=4, MF=2), dict(B=6, W=7, MI=4, MF=2))


def frames(ops, incrs="{0, 1, 2, 3, 5}", patterns=False):
    base = dict(b=2, D=2, MaxFU=2, Ops=ops, PerPattern="TRUE" if patterns else "FALSE")
    return ("Divide", ["Right", "Below", "Steps"] + (["Emit"] if patterns else []),
            dict(base, MaxU=3, MU=2, Incrs=incrs), dict(base, MaxU=4, MU=3, Incrs=incrs))


MODELS = {
    "C01": [laws("TextLaws"), READS], "C02": [READS], "C03": [READS], "C04": [laws("TextLaws"), WRITES], "C05": [laws("TextLaws"), WRITES], "C06": [laws("TextLaws")],
    "C07": [laws("AddLaws"), units("AddRight", "SubRight")], "C08": [laws("MulLaws"), units("MulRight")],
    "C09": [laws("DivLaws"), BIGNAT, frames('{"div"}')], "C10": [laws("RemLaws"), BIGNAT, frames('{"rem"}', "{0}")], "C11": [laws("DivLaws", "RemLaws")],
    "C12": [laws("AddLaws", "MulLaws", "DivLaws"), units("AddRight", "SubRight", "MulRight"), frames('{"div", "rem"}')],
    "C13": [laws("RoundLaws"), ROUNDS], "C14": [laws("RoundLaws"), ROUNDS], "C15": [laws("OrderLaws"), units("CmpRight")],
    "C16": [laws("OrderLaws"), units("HashRight")], "C17": [BIGNAT, INTEGERS], "C18": [laws("IntLaws", "RoundLaws"), INTEGERS],
    "C25": [laws("AddLaws", "MulLaws", "DivLaws", "RemLaws", "RoundLaws")],
    "C19": [laws("AddLaws", "MulLaws", "DivLaws", "RoundLaws")],
    # a memory keyed on the whole call is unobservable; keyed on a part of it, it must be refuted (!)
    "C26": [memory("whole", "NoMemory", "Repeatable")]
           + [memory(k, "!NoMemory") for k in ("first", "second", "param", "sign", "scale", "low", "high", "cut", "sum", "pair", "op")],
}

# ---------------------------------------------------------------------------------------------
# Programs generated by TLC from the specification: name -> (module, invariants, constants quick, thorough)


def mc(quick, thorough=None, **common):
    base = dict(NR=4, Pal="{0, 1, 999999999}", MI=2, MF=2, Total=3, Cuts="{0, 4}", Pads="{0}", Loads=2, Depth=1,
                Incrs="{0}", Detail=1, Suffix='""', Ops="{}")
    base.update(common)
    return ("FxdMC", ["Sound", "Emit"], dict(base, **quick), dict(base, **(thorough or {})))


def longdiv(quick, thorough):
    return ("LongDiv", ["PartialRemainder", "QuotientUnits", "FewCorrections", "Result", "Emit"], quick, thorough)


ALLPAT = '{"nines", "half", "top", "full", "bottom", "ends", "mixed", "islands"}'


def shapes(suffix, quick=None, thorough=None, pairs=True):
    base = dict(NR=2, PatA='{"nines", "ends"}', PatB='{"top", "bottom", "mixed"}', MaxI=9, MaxF=9, MaxG=9, Suffix='"%s"' % suffix,
                Pairs="TRUE" if pairs else "FALSE", Part=0, Parts=1)
    if not pairs:
        base["PatA"] = ALLPAT
    return ("Shapes", ["Fits", "Laws", "Sound", "Emit"], dict(base, **(quick or {})),
            dict(base, **dict(dict(PatA=ALLPAT, PatB=ALLPAT), **(thorough or {}))))


LEADS = "{%s}" % ", ".join('"%s"' % k for k in "p0 p1 p2 p3 p4 p5 p6 p7 p8 n1 n2 n3 n4 n5 n6 n7 n8 h0 h1 h2 t3 w1 w2 w3 w4 w5 w6 w7".split())


def leads(suffix):
    """leading groups at every power of ten and around every threshold, against each other"""
    return shapes(suffix, dict(PatA=LEADS, PatB=LEADS, MaxI=2, MaxF=1, MaxG=2), dict(PatA=LEADS, PatB=LEADS, MaxI=3, MaxF=2, MaxG=3))


KINS = '{%s}' % ", ".join('"%s"' % k for k in (
    "same opposite padded far up down over under zero1 zero9 zero10 more1 more9 less10 tenth ten moved moved18 billion double "
    "triple half square complement scale ulp whole fraction").split())


def related(kind, suffix):
    """operands made from each other; or both at the limits of the machine's integers"""
    base = dict(NR=2, Kind='"%s"' % kind, MaxI=8, MaxF=8, MaxG=8, Kins=KINS, Suffix='"%s"' % suffix)
    return ("Related", ["Spelt", "Laws", "Known", "Emit"],
            dict(base, PatA='{"nines", "ends", "mixed", "top"}', Bits="{8, 16, 31, 32, 63, 64, 127}", Points="<- Few"),
            dict(base, PatA=ALLPAT, Bits="{7, 8, 15, 16, 24, 31, 32, 53, 62, 63, 64, 96, 127, 128, 192}", Points="<- Many"))


def short(suffix):
    return ("Short", ["Known", "Emit"],
            dict(Smalls=12, Bits="{7, 8, 15, 16, 29}", Tens="{1, 2, 4, 8}", Wraps="{31, 32, 33, 53, 63, 64}", NR=2, Suffix='"%s"' % suffix),
            dict(Smalls=100, Bits="{%s}" % ", ".join(map(str, range(5, 30))), Tens="{1, 2, 3, 4, 5, 6, 7, 8}", Wraps="{%s}" % ", ".join(map(str, range(30, 71))), NR=2, Suffix='"%s"' % suffix))


def values(kind):
    return ("Values", ["Laws", "Range", "Emit"],
            dict(NR=2, Kinds='{"%s"}' % kind, Near=2, Stride=1, Suffix='""', Scales="{0, 10, %s}" % ", ".join(map(str, range(20, 34)))),
            dict(NR=2, Kinds='{"%s"}' % kind, Near=4, Stride=1, Suffix='""', Scales="{%s}" % ", ".join(map(str, range(0, 35)))))


def layouts(part):
    """every number of digits before and behind the point with every exponent"""
    base = dict(NR=2, MaxI=66, MaxF=66, MaxTot=67, Exps="<- ExpAll", Part=part, Parts=5)
    return ("Layouts", ["Agree", "Emit"], dict(base, Shown="FALSE"), dict(base, Part=0, Parts=1, Shown="TRUE"))


def each(fmt, values):
    return "".join(";" + fmt % v for v in values)


GEN = {
    "@shape-sum": shapes(";add 3 1 2;sub 4 1 2;sub 3 2 1"),
    "@shape-product": shapes(";mul 3 1 2;mul 4 2 1"),
    "@shape-quotient": shapes(";div 3 1 2 0;div 4 1 2 4;div 3 1 2 30;div 4 2 1 9"),
    "@shape-remainder": shapes(";rem 3 1 2;rem 4 2 1"),
    "@lead-product": leads(";mul 3 1 2"),
    "@lead-quotient": leads(";div 3 1 2 0;div 4 1 2 4"),
    "@lead-remainder": leads(";rem 3 1 2"),
    "@lead-every": leads(";add 3 1 2;sub 4 1 2;mul 3 1 2;div 4 1 2 4;rem 3 1 2;cmp 1 2"),
    "@kin-sum": related("kin", ";add 3 1 2;sub 4 1 2;sub 3 2 1"), "@machine-sum": related("machine", ";add 3 1 2;sub 4 1 2"),
    "@kin-product": related("kin", ";mul 3 1 2;mul 4 2 1"), "@machine-product": related("machine", ";mul 3 1 2"),
    "@kin-quotient": related("kin", ";div 3 1 2 0;div 4 2 1 4;div 3 1 2 30"), "@machine-quotient": related("machine", ";div 3 1 2 0;div 4 1 2 4"),
    "@kin-remainder": related("kin", ";rem 3 1 2;rem 4 2 1"), "@machine-remainder": related("machine", ";rem 3 1 2"),
    "@kin-order": related("kin", ";cmp 1 2;cmp 2 1;hash 1 2"), "@machine-order": related("machine", ";cmp 1 2;hash 1 2"),
    "@kin-every": related("kin", ";add 3 1 2;sub 4 1 2;mul 3 1 2;div 4 1 2 4;rem 3 1 2;cmp 1 2"),
    "@machine-every": related("machine", ";add 3 1 2;sub 4 1 2;mul 3 1 2;div 4 1 2 4;rem 3 1 2;cmp 1 2"),
    "@short-quotient": short(";div 3 1 2 0;div 4 1 2 4"), "@short-remainder": short(";rem 3 1 2"),
    "@short-every": short(";div 3 1 2 0;rem 4 1 2;mul 5 1 2"),
    "@ints": values("ints"), "@edges": values("edges"), "@groups": values("groups"),
    "@shape-order": shapes(";cmp 1 2;cmp 2 1;cmp 1 1;hash 1 2;hash 1 1"),
    "@shape-every": shapes(";add 3 1 2;sub 4 1 2;mul 3 1 2;div 4 1 2 4;rem 3 1 2;cmp 1 2"),
    "@shape-round": shapes(each("rnd 3 1 %d", [*range(-82, 83), 100, 127, -100, -128]), pairs=False),
    "@shape-print": shapes(each("print 1 %d", [-1, *range(0, 84), 127, 128, 255, 300]) + ";toi 1;tou 1;rt 1;hash 1 1", pairs=False),
    "@sum": mc(dict(Detail=0), dict(Pads="{0, 2}"), Ops='{"add", "sub"}'),
    "@product": mc(dict(Detail=0), dict(Pads="{0, 2}"), Ops='{"mul"}'),
    "@quotient": mc(dict(Detail=0), dict(Pads="{0, 2}"), Ops='{"div"}', Incrs="{0, 4, 14}"),
    "@remainder": mc(dict(Detail=0), dict(Pads="{0, 2}"), Ops='{"rem"}'),
    "@rounding": mc(dict(), dict(Pads="{0, 2}", Pal="{0, 1, 500000000, 999999999}", Total=4, MI=3, MF=3), Ops='{"rnd"}', Loads=1,
                    Pal="{0, 499999999, 500000000, 999999999}", Total=3, MI=3, MF=3),
    "@wide": mc(dict(Ops='{"mul", "add", "sub"}', Total=5, MI=5, MF=5), dict(), Ops='{"mul", "add", "sub", "div", "rem"}', Pal="{999999999}", MI=7, MF=7, Total=7,
                Cuts="{0}", Depth=2, Detail=9, NR=3),
    "@zerodiv": mc(dict(), dict(Total=4), Ops='{"div", "rem"}', Pal="{0, 1}", MI=2, MF=2, Pads="{0, 2}", Incrs="{0, 4}"),
    "@zeros": mc(dict(Detail=0), dict(), Ops='{"add", "sub", "mul", "div", "rem", "rnd"}', Pal="{0, 1, 500000000}", MI=1, MF=3, Total=3,
                 Suffix='";cmp 1 3;cmp 3 2;print 3 -1"'),
    "@order": mc(dict(), dict(Pads="{0, 1, 3}"), Ops='{"add", "rnd"}', Pal="{0, 1, 999999999}", MI=2, MF=2, Total=2, Pads="{0, 1}",
                 Suffix='";cmp 1 2;hash 1 2;cmp 3 1;hash 3 1;cmp 2 3;sort"'),
    "@chain": mc(dict(), dict(Pal="{0, 1, 500000000, 999999999}", Total=3), Ops='{"add", "sub", "mul", "div", "rem", "rnd"}', Pal="{1, 999999999}", MI=2,
                 MF=2, Total=2, Cuts="{0, 4}", Depth=2, Detail=9, NR=3, Incrs="{0, 4}",
                 Suffix='";print 3 -1;print 1 30;rt 3;toi 3;tou 3;hash 1 3;cmp 1 3;cmp 2 3;rnd 3 3 0;rnd 1 1 9;pos 1;neg 3"'),
    "@calls": ("Calls", ["NoMemory", "Repeatable", "Emit"],
               dict(NR=3, Key='"none"', Shared="FALSE", Threads="{1}", Depth=2, Detail=1, Calls0=EVERY),
               dict(NR=3, Key='"none"', Shared="FALSE", Threads="{1}", Depth=3, Detail=1, Calls0=EVERY)),
    "@layouts0": layouts(0), "@layouts1": layouts(1), "@layouts2": layouts(2),
    "@roundunits": ("RoundUnits", ["Halfway", "Right", "Emit"],
                    dict(b=4, D=2, MaxU=3, MI=2, MF=2, PerPattern="TRUE"), dict(b=4, D=2, MaxU=4, MI=2, MF=2, PerPattern="TRUE")),
    "@pieces": ("PrintUnits", ["Right", "Prefix", "Emit"], dict(Pal="{0, 7, 500}", Whole="FALSE", MI=1, MF=1, Most=12, Export="TRUE"),
                dict(Pal="{0, 7, 60, 500, 999}", Whole="FALSE", MI=1, MF=1, Most=12, Export="TRUE")),
    "@units": ("PrintUnits", ["Right", "Prefix", "Emit"], dict(Pal="{0}", Whole="TRUE", MI=1, MF=2, Most=28, Export="TRUE"),
               dict(Pal="{0}", Whole="TRUE", MI=2, MF=2, Most=28, Export="TRUE")),
    "@texts": ("Scanner", ["Agree", "Counted", "Emit"],
               dict(Runs="{1, 8, 9, 28, 36}", ExpRuns="{2, 5, 7, 9, 10, 11, 22, 23}", Depth=5, Fine="FALSE"),
               dict(Runs="{1, 8, 9, 28, 36}", ExpRuns="{2, 5, 7, 9, 10, 11, 13, 22, 23, 24, 25}", Depth=5, Fine="TRUE")),
    "@frame-div": frames('{"div"}', patterns=True), "@frame-rem": frames('{"rem"}', "{0}", patterns=True),
    "@longdiv": longdiv(dict(B=4, NA=4, NB=3, Extra=1, PerPattern="TRUE"), dict(B=6, NA=4, NB=3, Extra=2, PerPattern="TRUE")),
    "@alldiv": longdiv(dict(B=4, NA=3, NB=2, Extra=0, PerPattern="FALSE"), dict(B=4, NA=4, NB=3, Extra=1, PerPattern="FALSE")),
}
# what the driver records along when it runs programs: 1 fresh, 2 operator, 4 operands afterwards, 8 remade
EXTRAS = {"C20": 5, "C21": 8, "C22": 2, "C03": 1, "C19": 2, "C25": 16, "C26": 32, "all": 31}

HANG_OWNERS = {
    "parse": {"C02"}, "fstr": {"C02"}, "parsekeep": {"C02", "C03"},
    "add": {"C07", "C12"}, "sub": {"C07", "C12"}, "mul": {"C08", "C12"}, "div": {"C09", "C11", "C12"},
    "rem": {"C10", "C11", "C12"}, "rnd": {"C13", "C14"}, "cmp": {"C15"}, "sort": {"C15"}, "hash": {"C16"},
    "toi": {"C18"}, "tou": {"C18"}, "fromi": {"C17"}, "fromu": {"C17"}, "print": {"C04", "C05"}, "rt": {"C06"},
    "setneg": {"C24"}, "setpos": {"C24"}, "setzero": {"C24"}, "setone": {"C24"}, "copy": {"C24"}, "again": {"C26"},
}

OUT = {0: "ok", 1: "syntax error", 2: "division by zero", 3: "overflow", 4: "out of range", 8: "HANG", 9: "PANIC"}


def num(r):
    c = "".join("%04d" % x for x in reversed(r["c"])).lstrip("0")
    f = r["f"]
    t = c.zfill(f + 1) if f > 0 else (c or "0")
    if f > 0:
        t = t[:-f] + "." + t[-f:]
    return ("-" if r["neg"] else "") + t + ("" if not r.get("w") else " (malformed)")


def describe(d, upto, limit=None):
    """the history as readable calls; the last line is step `upto`"""
    regs = {i: "0" for i in range(1, 20)}
    lines = []
    evs = d["ev"][:upto] if upto else d["ev"][:limit]
    for e in evs:
        o = e["o"]
        txt = bytes(e["t"]).decode("latin-1").encode("unicode_escape").decode() if "t" in e else ""
        res = OUT.get(e["x"], "?")
        if "r" in e and e["x"] == 0:
            res = num(e["r"]) + "  [intg %d frac %d]" % (e["r"]["p"], e["r"]["f"])
        if o == "parse":
            s = 'parse r%d "%s"%s' % (e["d"], txt, "" if e["rs"] else " (no reset)")
        elif o == "fstr":
            s = 'from_str "%s" -> r%d' % (txt, e["d"])
        elif o == "parsekeep":
            s = 'parse "%s" without reset into a copy of r%d = %s' % (txt, e["a"], regs[e["a"]])
        elif o in ("add", "sub", "mul", "div", "rem"):
            s = "%s r%d <- %s , %s%s" % (o, e["d"], regs[e["a"]], regs[e["b"]], " incr %d" % e["n"] if o == "div" else "")
        elif o == "rnd":
            s = "round r%d <- %s to %d" % (e["d"], regs[e["a"]], e["n"])
            res += " / round_to: " + (num(e["r2"]) if e["x2"] == 0 else OUT.get(e["x2"], "?"))
        elif o in ("cmp", "hash"):
            s = "%s %s , %s" % (o, regs[e["a"]], regs[e["b"]])
            res = {k: v for k, v in e.items() if k not in "oabr" and k != "pv"}
        elif o == "sort":
            s = "sort"
            res = [regs[i] for i in e["l"]]
        elif o in ("toi", "tou"):
            s = "%s %s" % ("as_i64" if o == "toi" else "as_u64", regs[e["a"]])
            if e["x"] == 0:
                res = num({"c": e["k"], "f": 0, "neg": e["kn"]})
        elif o in ("fromi", "fromu"):
            s = "%s r%d <- %s" % (o, e["d"], num({"c": e["k"], "f": 0, "neg": e["kn"]}))
        elif o == "print":
            s = "print %s at %d" % (regs[e["a"]], e["an"])
            res = '"%s"' % txt if e["x"] == 0 else res
        elif o == "rt":
            s = "print and parse %s" % regs[e["a"]]
            res += " eq=%s same text=%s" % (e["eq"], e["tq"])
        elif o == "again":
            o2 = d["ev"][e["i"] - 1]
            s = "step %d (%s) repeated backwards and from three threads" % (e["i"], o2["o"])
            res = " | ".join("%s%s" % (OUT.get(w["x"], "?"), " " + num(w["r"]) if "r" in w else
                             ' "%s"' % bytes(w["t"]).decode("latin-1") if "t" in w else " %s" % w["k"] if "k" in w else "") for w in e["w"])
        else:
            s = "%s r%s" % (o, e.get("d"))
        for k in ("as", "fr", "op", "pv", "f2", "sw", "nn", "nb"):
            if k in e:
                q = e[k]
                what = {"as": "by the entry for texts", "fr": "into a fresh zero", "op": "operator", "pv": "operands remade", "f2": "into a fresh zero",
                        "sw": "operands exchanged", "nn": "negated", "nb": "second negated"}[k]
                res = "%s; %s: %s" % (res, what, num(q["r"]) if q["x"] == 0 and "r" in q else OUT.get(q["x"], "?"))
        lines.append("%s  =>  %s" % (s, res))
        if "d" in e:
            regs[e["d"]] = num(e["r"])
    return lines
