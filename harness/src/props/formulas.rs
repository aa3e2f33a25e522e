//! P08–P10: plural formulas.

use super::ramp;
use crate::engine::*;
use crate::formula::{self as f, Ast, Op, Verdict, OPS};
use crate::gen::*;
use crate::obs::h64;
use crate::{broken, ensure};

const ENTRY: &str = "\nmsgid \"one\"\nmsgid_plural \"many\"\nmsgstr[0] \"t0\"\n";

pub fn catalogue(n: usize, formula: Option<&str>) -> String {
    match formula {
        Some(x) => format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n}; plural={};\\n\"\n{ENTRY}", escape(x)),
        None => format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n};\\n\"\n{ENTRY}"),
    }
}

/// Ask the library for the index of each count; Ok(None): the formula is refused.
fn indexes(c: &mut Ctx, n: usize, formula: Option<&str>, counts: &[usize]) -> Result<Option<Vec<Option<usize>>>, Stop> {
    let d = catalogue(n, formula);
    c.input.clear();
    c.input.extend_from_slice(d.as_bytes());
    c.note = format!("formula {formula:?}: ");
    let p = parser();
    let r = in_impl(d.as_bytes(), || {
        let mut r = match p.parse(d.as_bytes()) {
            Ok(r) => r,
            Err(e) => return Ok(None).map(|x: Option<Vec<Option<usize>>>| (x, e.to_string())),
        };
        let u = match r.next() {
            Some(Ok(u)) => u,
            Some(Err(e)) => return Err(format!("the plural entry gives an error: {e}")),
            None => return Err("the plural entry is not delivered".to_string()),
        };
        let Some(forms) = u.message().plural().and_then(|p| p.get_forms()) else {
            return Err("the plural message has no plural forms".to_string());
        };
        let v: Vec<Option<usize>> = counts.iter().map(|&k| forms.get_value(k)).collect();
        for (k, i) in counts.iter().zip(&v) {
            // the only text written is the one of index 0
            let t = u.message().get_plural_text(*k);
            let want = if *i == Some(0) { Some("t0") } else { None };
            if t != want {
                return Err(format!("for {k} the text is {t:?}, but the index is {i:?}"));
            }
        }
        Ok((Some(v), String::new()))
    });
    c.compared += 1;
    match r {
        Ok(Ok((v, _))) => {
            c.state(crate::obs::h64(&(formula, &v)));
            Ok(v)
        }
        Ok(Err(m)) => broken!("{m}"),
        Err(p) => broken!("the library {p}"),
    }
}

const COUNTS: &[usize] = &[
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 19, 20, 21, 22, 25, 30, 99, 100, 101, 102, 111, 112, 119, 120, 121, 200, 255, 256, 1000, 1001, 65535, 1_000_000, 2147483647, 2147483648, 4294967295, 4294967296,
    4611686018427387904, 9223372036854775806, 9223372036854775807,
];

fn compare(c: &mut Ctx, n: usize, ast: &Ast, text: &str, counts: &[usize]) -> Res {
    let Some(v) = indexes(c, n, Some(text), counts)? else { broken!("the valid formula {text:?} is refused") };
    for (k, got) in counts.iter().zip(v) {
        let x = ast.eval(*k as i64);
        let want = if x < 0 || x as u64 >= n as u64 { None } else { Some(x as usize) };
        ensure!(got == want, "the index of {text:?} for {k} is {got:?}, should be {want:?} (value {x}, {n} forms)");
    }
    Ok(())
}

/// choose an expression with exactly `ops` operators
fn expr(c: &mut Ctx, ops: usize, leaf: &mut dyn FnMut(&mut Ctx) -> Ast) -> Ast {
    if ops == 0 {
        return leaf(c);
    }
    let k = if ops >= 1 { c.choose(2 + OPS.len() + 1) } else { 0 };
    match k {
        0 => f::neg(expr(c, ops - 1, leaf)),
        1 => f::not(expr(c, ops - 1, leaf)),
        2 => {
            let a = c.choose(ops);
            let b = c.choose(ops - a);
            let t = expr(c, a, leaf);
            let x = expr(c, b, leaf);
            let y = expr(c, ops - 1 - a - b, leaf);
            f::cond(t, x, y)
        }
        k => {
            let o = OPS[k - 3];
            let a = c.choose(ops);
            let l = expr(c, a, leaf);
            let r = expr(c, ops - 1 - a, leaf);
            f::bin(o, l, r)
        }
    }
}

pub const REAL: &[(usize, &str)] = &[
    (1, "0"),
    (2, "n != 1"),
    (2, "(n > 1)"),
    (2, "n==1 ? 0 : 1"),
    (2, "(n%10!=1 || n%100==11)"),
    (2, "(n==1 || n==2 || n==3 || (n%10!=4 && n%10!=6 && n%10!=9)) ? 0 : 1"),
    (3, "(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2)"),
    (3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"),
    (3, "(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2)"),
    (3, "(n==1 ? 0 : n>=2 && n<=4 ? 1 : 2)"),
    (3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2"),
    (4, "(n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3)"),
    (4, "(n==1) ? 0 : (n==2) ? 1 : (n != 8 && n != 11) ? 2 : 3"),
    (4, "n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3"),
    (4, "(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3"),
    (5, "n==1 ? 0 : n==2 ? 1 : (n>2 && n<7) ? 2 :(n>6 && n<11) ? 3 : 4"),
    (6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"),
    (6, "(n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 && n%100<=99 ? 4 : 5)"),
    (2, "n%10==1 and n%100!=11 or n==0"),
    (3, "n==1 or n==0 ? 0 : n<5 and n>1 ? 1 : 2"),
    (2, "!(n==1)"),
    (2, "!n"),
    (3, "-(n - 2) >= 0 ? n : 2"),
];

pub fn p08(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    v.push(space("two operators", 0, "every expression of up to 2 operators (13 binary, - ! ?:) over n, 0, 1, 2, 10, with the parentheses C needs and no more", move |c| {
        let k = c.choose(3);
        let a = expr(c, k, &mut |c| [Ast::N, Ast::Num(2), Ast::Num(0), Ast::Num(1), Ast::Num(10)][c.choose(5)].clone());
        let text = a.print(false, [" ", ""][k % 2], false);
        compare(c, 1000, &a, &text, COUNTS)
    }));
    v.push(space("parentheses", 0, "every expression of up to 2 operators over n, 2, 3, fully parenthesised, without spaces, or with words and wide spacing", move |c| {
        let k = c.choose(3);
        let a = expr(c, k, &mut |c| [Ast::N, Ast::Num(2), Ast::Num(3)][c.choose(3)].clone());
        let text = match c.choose(3) {
            0 => a.print(true, "", false),
            1 => a.print(false, "  ", true),
            _ => format!("( {} )", a.print(false, " ", false)),
        };
        compare(c, 1000, &a, &text, COUNTS)
    }));
    let n = 3;
    v.push(space("three operators", 0, "every arrangement of 3 operators with minimal parentheses, the leaves from left to right being n, 2, n, 3", move |c| {
        let mut i = 0;
        let first = if q { 0 } else { c.choose(2) };
        let a = expr(c, n, &mut |_| {
            i += 1;
            [Ast::N, Ast::Num(2), Ast::N, Ast::Num(3), Ast::N, Ast::Num(5), Ast::N][(i - 1 + first) % 7].clone()
        });
        let text = a.print(false, " ", false);
        compare(c, 1000, &a, &text, COUNTS)
    }));
    if !q {
        v.push(space("three operators, all leaves", 0, "every expression of 3 operators over n and 2 with minimal parentheses", move |c| {
            let a = expr(c, 3, &mut |c| [Ast::N, Ast::Num(2)][c.choose(2)].clone());
            compare(c, 1000, &a, &a.print(false, " ", false), COUNTS)
        }));
        v.push(space("four operators", 0, "every arrangement of 4 operators out of -, !, ?: and one binary operator per precedence level, leaves n, 2, n, 3, ...", move |c| {
            fn e(c: &mut Ctx, ops: usize, i: &mut usize) -> Ast {
                if ops == 0 {
                    *i += 1;
                    return [Ast::N, Ast::Num(2), Ast::N, Ast::Num(3), Ast::N][(*i - 1) % 5].clone();
                }
                match c.choose(9) {
                    0 => f::neg(e(c, ops - 1, i)),
                    1 => f::not(e(c, ops - 1, i)),
                    2 => {
                        let a = c.choose(ops);
                        let b = c.choose(ops - a);
                        let t = e(c, a, i);
                        let x = e(c, b, i);
                        let y = e(c, ops - 1 - a - b, i);
                        f::cond(t, x, y)
                    }
                    k => {
                        let o = [Op::Or, Op::And, Op::Eq, Op::Lt, Op::Sub, Op::Mod][k - 3];
                        let a = c.choose(ops);
                        let l = e(c, a, i);
                        let r = e(c, ops - 1 - a, i);
                        f::bin(o, l, r)
                    }
                }
            }
            let mut i = 0;
            let a = e(c, 4, &mut i);
            compare(c, 1000, &a, &a.print(false, " ", false), COUNTS)
        }));
    }
    v.push(space("spellings of numbers", 0, "every sequence of up to 5 (6) digits out of 0, 1, 7, 8, 9 is that decimal number; so are 16 numbers after any number of zeros up to 64 and around powers of two up to 1024", |c| {
        let num = spelling(c);
        let x = match c.choose(3) {
            0 => num,
            1 => format!("n-{num}"),
            _ => format!("n==({num})?1:2"),
        };
        let v: usize = num_of(&x);
        evaluates(c, &x, &[0, 1, 8, 64, v, v.saturating_sub(1), v.saturating_add(1).min(i64::MAX as usize)])
    }));
    v.push(space("extremes", 0, "(A op B) == K for A and B out of 13 extreme operands, K being the C value, for 13 operators, at extreme counts; - and ! of each operand", |c| {
        let big = i64::MAX;
        let min = || f::bin(Op::Sub, f::neg(Ast::Num(i64::MAX)), Ast::Num(1));
        let opnd = |i: usize| -> Ast {
            match i {
                0 => Ast::N,
                1 => f::neg(Ast::N),
                2 => Ast::Num(big),
                3 => min(),
                4 => Ast::Num(0),
                5 => Ast::Num(1),
                6 => f::neg(Ast::Num(1)),
                7 => Ast::Num(2),
                8 => f::neg(Ast::Num(7)),
                9 => Ast::Num(1 << 62),
                10 => Ast::Num(1 << 32),
                11 => f::neg(Ast::Num(big)),
                _ => Ast::Num(3037000500),
            }
        };
        let a = opnd(c.choose(13));
        let e = match c.choose(OPS.len() + 2) {
            0 => f::neg(a),
            1 => f::not(a),
            k => {
                let b = opnd(c.choose(13));
                f::bin(OPS[k - 2], a, b)
            }
        };
        let n = *c.pick(&[9223372036854775807usize, 0, 1, 4611686018427387904, 9223372036854775806, 4294967296, 3037000500]);
        let val = e.eval(n as i64);
        let k = if val == i64::MIN {
            min()
        } else if val < 0 {
            f::neg(Ast::Num(-val))
        } else {
            Ast::Num(val)
        };
        let whole = f::bin(Op::Eq, e, k);
        compare(c, 2, &whole, &whole.print(true, " ", false), &[n])
    }));
    v.push(space("counts", 0, "24 formulas in real use and n itself, 1 to 8 forms: the index for every count 0..=2000 and the extremes", |c| {
        let k = c.choose(REAL.len() + 1);
        let (n, x) = if k == REAL.len() { (0, "n") } else { REAL[k] };
        let n = if c.flip() { 1 + c.choose(8) } else { n.max(1) };
        let Verdict::Accept(a) = f::judge(x) else { return Err(Stop::Harness(format!("the reference refuses {x}"))) };
        let counts: Vec<usize> = (0..=2000).chain(COUNTS.iter().copied()).collect();
        compare(c, n, &a, x, &counts)
    }));
    v.push(space("operands with operators", 0, "(A) op (B) for 13 operators, A and B being every expression of at most one operator over n, 2, 0, at 45 counts", |c| {
        let mut leaf = |c: &mut Ctx| [Ast::N, Ast::Num(2), Ast::Num(0)][c.choose(3)].clone();
        let o = *c.pick(&OPS);
        let k = c.choose(2);
        let a = expr(c, k, &mut leaf);
        let k = c.choose(2);
        let b = expr(c, k, &mut leaf);
        let e = f::bin(o, a, b);
        compare(c, usize::MAX, &e, &e.print(true, "", false), COUNTS)
    }));
    v.push(space("conditions", 0, "A ? B : C, A, B and C being every expression of at most one operator over n and 2, at 45 counts", |c| {
        let mut leaf = |c: &mut Ctx| [Ast::N, Ast::Num(2)][c.choose(2)].clone();
        let k = c.choose(2);
        let a = expr(c, k, &mut leaf);
        let k = c.choose(2);
        let b = expr(c, k, &mut leaf);
        let k = c.choose(2);
        let d = expr(c, k, &mut leaf);
        let e = f::cond(a, b, d);
        compare(c, usize::MAX, &e, &e.print(false, " ", false), COUNTS)
    }));
    let far = if q { 200_000usize } else { 5_000_000 };
    v.push(space("far counts", 0, format!("every formula of up to 1 operator and 24 formulas in real use: the index for every count up to {far} (one operator: 2000), for 2^k-2..2^k+2, 10^k-2..10^k+2 and their multiples by 3 and 7"), move |c| {
        let k = c.choose(REAL.len() + 1);
        let (a, text, n) = if k < REAL.len() {
            let Verdict::Accept(a) = f::judge(REAL[k].1) else { return Err(Stop::Harness(format!("the reference refuses {}", REAL[k].1))) };
            (a, REAL[k].1.to_string(), 1000)
        } else {
            let ops = c.choose(2);
            let a = expr(c, ops, &mut |c| [Ast::N, Ast::Num(2), Ast::Num(0), Ast::Num(10), Ast::Num(100)][c.choose(5)].clone());
            let t = a.print(false, " ", false);
            (a, t, 1_000_000)
        };
        let mut counts: Vec<usize> = (0..=if k < REAL.len() { far } else { 2000 }).collect();
        for p in (0..63).map(|p| 1u64 << p).chain((0..19).map(|p| 10u64.pow(p))) {
            for m in [1u64, 3, 7] {
                for d in -2i64..=2 {
                    if let Some(x) = p.checked_mul(m).and_then(|x| x.checked_add_signed(d)).filter(|x| *x <= i64::MAX as u64) {
                        counts.push(x as usize);
                    }
                }
            }
        }
        compare(c, n, &a, &text, &counts)
    }));
    v.push(space("no formula", 0, "no formula, an empty or a blank one mean n, for 1 to 13 forms", |c| {
        let n = 1 + c.choose(13);
        let x = [None, Some(""), Some(" "), Some("n"), Some("  n  "), Some("(n)"), Some("((n))")][c.choose(7)];
        let counts: Vec<usize> = (0..40).collect();
        let Some(v) = indexes(c, n, x, &counts)? else { broken!("refused") };
        for (k, got) in counts.iter().zip(v) {
            ensure!(got == if *k < n { Some(*k) } else { None }, "the index for {k} with {n} forms is {got:?}");
        }
        Ok(())
    }));
    v.push(space("every arm", 0, "chains of 1 to 130 arms (as long as a formula may be) in 8 shapes: tests of n against each number in turn with a value of its own, downwards, by comparisons, in the true branch, alternatives, conjunctions, sums and products of tests; at every count around them, so that each arm decides once", |c| {
        let shape = c.choose(8);
        let n = 1 + c.choose(130);
        let mut x = String::new();
        match shape {
            0 => {
                for i in 0..n {
                    x += &format!("n=={i}?{}:", i + 1);
                }
                x += "0";
            }
            1 => {
                for i in (0..n).rev() {
                    x += &format!("n>{i}?{}:", i * 2 + 1);
                }
                x += "9";
            }
            2 => {
                for i in 0..n {
                    x += &format!("n<{i}?{}:", 2 * n - i);
                }
                x += "n";
            }
            3 => {
                for i in 0..n {
                    x += &format!("n!={i}?(");
                }
                x += "7";
                for i in (0..n).rev() {
                    x += &format!("):{}", i + 11);
                }
            }
            4 => x = (0..n).map(|i| format!("n=={}", i * 2)).collect::<Vec<_>>().join("||"),
            5 => x = (0..n).map(|i| format!("n!={}", i * 2)).collect::<Vec<_>>().join("&&"),
            6 => x = (0..n).map(|i| format!("(n=={i})*{}", i + 1)).collect::<Vec<_>>().join("+"),
            _ => x = (0..n).map(|i| format!("n%{}", i + 2)).collect::<Vec<_>>().join(["+", "-"][n % 2]),
        }
        if x.len() > 2048 {
            return Err(Stop::Skip);
        }
        let mut counts: Vec<usize> = (0..=n + 3).collect();
        counts.extend([2 * n - 2, 2 * n - 1, 2 * n, 2 * n + 1, 1000, 1 << 40]);
        evaluates(c, &x, &counts)
    }));
    v.push(space("chains", 0, "chains of one binary operator (2 to 60 operands, left to right), of ?: (1 to 60), of ! and -, and of parentheses", |c| {
        let n = 1 + c.choose(60);
        let k = c.choose(OPS.len() + 3);
        let mut a = Ast::N;
        let sp = " ";
        for i in 0..n {
            a = match k {
                0 => f::not(a),
                1 => f::neg(a),
                2 => f::cond(f::bin(Op::Eq, Ast::N, Ast::Num((n - i) as i64)), Ast::Num((n - i) as i64), a),
                k => f::bin(OPS[k - 3], a, Ast::Num([1, 2, 3, 1, 7][i % 5])),
            };
        }
        if k == 1 && n > 1 {
            // "- -n": every level in its own parentheses
            return compare(c, 1000, &a, &a.print(true, "", false), COUNTS);
        }
        compare(c, 1000, &a, &a.print(false, sp, false), COUNTS)
    }));
    v
}

/// the formula `text`, valid for the reference, gives the values that the reference gives
pub fn evaluates(c: &mut Ctx, text: &str, counts: &[usize]) -> Res {
    match f::judge(text) {
        Verdict::Accept(a) => compare(c, i64::MAX as usize, &a, text, counts),
        _ => Err(Stop::Skip),
    }
}

pub fn accept(c: &mut Ctx, text: &str) -> Res {
    if text.contains(';') {
        return Err(Stop::Skip);
    }
    let verdict = f::judge(text);
    if verdict == Verdict::Open {
        return Err(Stop::Skip);
    }
    let counts = &[0usize, 1, 2, 5, 11, 21, 100, 111];
    let got = indexes(c, 1000, Some(text), counts)?;
    match (verdict, got) {
        (Verdict::Reject, None) => Ok(()),
        (Verdict::Either(a, b), Some(v)) => {
            let index = |e: &Ast, k: usize| Some(e.eval(k as i64)).filter(|x| (0..1000).contains(x)).map(|x| x as usize);
            let is = |e: &Ast| counts.iter().zip(&v).all(|(k, got)| *got == index(e, *k));
            ensure!(is(&a) || is(&b), "{text:?} is accepted but read as another formula: indexes {v:?} for {counts:?}");
            Ok(())
        }
        (Verdict::Accept(_), None) if f::bang_after_plus(text) => {
            c.finding("P09-bang-after-plus", format!("the valid formula {text:?} is refused"));
            Ok(())
        }
        (Verdict::Reject, Some(_)) => broken!("the invalid formula {text:?} is accepted"),
        (Verdict::Either(..), None) | (Verdict::Accept(_), None) => broken!("the valid formula {text:?} is refused"),
        (Verdict::Accept(a), Some(v)) => {
            for (k, got) in counts.iter().zip(v) {
                let x = a.eval(*k as i64);
                let want = if (0..1000).contains(&x) { Some(x as usize) } else { None };
                ensure!(got == want, "{text:?} is accepted but read as another formula: index {got:?} for {k}, should be {want:?}");
            }
            Ok(())
        }
        (Verdict::Open, _) => unreachable!(),
    }
}

const TOKS: &[&str] = &["n", "1", "(", ")", "!", "-", "?", ":", "==", "<", "&&", "or", "not", "%"];

/// The number written in a formula.
fn num_of(x: &str) -> usize {
    let d: String = x.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse::<u64>().map_or(0, |v| v.min(i64::MAX as u64) as usize)
}

/// Spellings of a number: all short sequences of digits, and longer ones which begin with any number of zeros.
fn spelling(c: &mut Ctx) -> String {
    if c.flip() {
        let n = 1 + c.choose(if c.thorough() { 6 } else { 5 });
        (0..n).map(|_| *c.pick(&['0', '1', '7', '8', '9'])).collect()
    } else {
        let r = ramp(64, 1024);
        let z = *c.pick(&r);
        let end = *c.pick(&["", "0", "1", "7", "8", "10", "17", "100", "777", "2147483648", "4294967296", "999999999999999999", "1000000000000000000", "9223372036854775807", "9223372036854775808", "9999999999999999999"]);
        format!("{}{end}", "0".repeat(z))
    }
}

pub fn p09(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    let n = if q { 4 } else { 5 };
    v.push(space("tokens", 0, format!("all sequences of up to {n} of 14 tokens, separated by spaces"), move |c| {
        let k = c.choose(n + 1);
        let x: Vec<&str> = (0..k).map(|_| *c.pick(TOKS)).collect();
        accept(c, &x.join(" "))
    }));
    let n = if q { 6 } else { 7 };
    v.push(space("few tokens", 0, format!("all sequences of up to {n} of the tokens n ( ) ? : - =="), move |c| {
        let k = c.choose(n + 1);
        let x: Vec<&str> = (0..k).map(|_| *c.pick(if q { &["n", "(", ")", "?", ":"][..] } else { &["n", "(", ")", "?", ":", "-"][..] })).collect();
        accept(c, &x.join(" "))
    }));
    const GLUE: &[&str] = &["n", "1", "(", ")", "!", "-", "?", ":", "=", "<", ">", "&", "|", "or", "%", "/", "*", "+", " ", "=="];
    let n = if q { 4 } else { 5 };
    v.push(space("glued tokens", 0, format!("all sequences of up to {n} of 20 tokens and halves of tokens written without spaces"), move |c| {
        let k = c.choose(n + 1);
        let x: String = (0..k).map(|_| *c.pick(GLUE)).collect();
        accept(c, &x)
    }));
    v.push(space("after a formula", 0, "n>1 followed or preceded by all sequences of up to 2 printable ASCII characters (and a third one out of 12), as the only item or before another", |c| {
        let k = c.choose(4);
        let mut x: String = (0..k.min(2)).map(|_| (32 + c.choose(95)) as u8 as char).collect();
        if k == 3 {
            x.push(*c.pick(&['n', '1', ' ', '=', '*', '/', '>', '-', '(', ')', '!', '|']));
        }
        let x = match c.choose(3) {
            0 => format!("n>1{x}"),
            1 => format!("{x}n>1"),
            _ => format!("n>1 {x} n"),
        };
        accept(c, &x)
    }));
    v.push(space("operators", 0, "every pair of the 18 operator tokens between, before and after operands", |c| {
        const O: &[&str] = &["||", "&&", "or", "and", "==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/", "%", "!", "not", "?"];
        let a = *c.pick(O);
        let b = *c.pick(O);
        let x = match c.choose(6) {
            0 => format!("n {a} 1 {b} 2"),
            1 => format!("n {a} {b} 2"),
            2 => format!("{a} n {b} 2"),
            3 => format!("n {a} {b} ( 2 )"),
            4 => format!("n {a} ( 1 {b} 2 )"),
            _ => format!("n {a} 1 {b}"),
        };
        accept(c, &x)
    }));
    v.push(space("edits", 0, "8 real formulas with one token removed, doubled, replaced by or preceded by any of 20 tokens", |c| {
        let src = REAL[[1, 6, 8, 9, 11, 14, 18, 20][c.choose(8)]].1;
        let mut toks: Vec<String> = vec![];
        let ch: Vec<char> = src.chars().filter(|c| !c.is_whitespace() || true).collect();
        let mut i = 0;
        while i < ch.len() {
            if ch[i].is_whitespace() {
                i += 1;
                continue;
            }
            let mut j = i + 1;
            if ch[i].is_alphanumeric() {
                while j < ch.len() && ch[j].is_alphanumeric() {
                    j += 1;
                }
            } else if j < ch.len() && ["==", "!=", "<=", ">=", "&&", "||"].contains(&ch[i..j + 1].iter().collect::<String>().as_str()) {
                j += 1;
            }
            toks.push(ch[i..j].iter().collect());
            i = j;
        }
        let pos = c.choose(toks.len() + 1);
        const T: &[&str] = &["n", "1", "(", ")", "!", "-", "?", ":", "==", "!=", "<", ">=", "&&", "||", "or", "and", "%", "+", "=", "x"];
        match c.choose(2 + 2 * T.len()) {
            0 if pos < toks.len() => {
                toks.remove(pos);
            }
            1 if pos < toks.len() => toks.insert(pos, toks[pos].clone()),
            k if k >= 2 && k < 2 + T.len() => toks.insert(pos, T[k - 2].into()),
            k if k >= 2 && pos < toks.len() => toks[pos] = T[k - 2 - T.len()].into(),
            _ => return Err(Stop::Skip),
        }
        accept(c, &toks.join(" "))
    }));
    v.push(space("foreign characters", 0, "every ASCII character and 12 others inserted at each place of two formulas, or put instead of the character there", |c| {
        let src: Vec<char> = ["n % 10 == 1 ? 0 : n", "(n>1)"][c.choose(2)].chars().collect();
        let pos = c.choose(src.len() + 1);
        let k = c.choose(128 + 12);
        let ch = if k < 128 { k as u8 as char } else { ['é', 'ｎ', '１', '≤', '≠', '\u{a0}', '\u{2028}', '×', '²', '\u{feff}', '٣', '日'][k - 128] };
        if ch == '\n' {
            return Err(Stop::Skip);
        }
        let mut x = src.clone();
        if c.flip() {
            x.insert(pos, ch);
        } else {
            if pos == src.len() {
                return Err(Stop::Skip);
            }
            x[pos] = ch;
        }
        accept(c, &x.into_iter().collect::<String>())
    }));
    let ch = super::wide::chars();
    v.push(space("character edits", 0, format!("24 formulas in real use with one character ({} of them) put in or put instead, one removed, doubled or exchanged with the next", ch.len()), move |c| {
        let src: Vec<char> = c.pick(REAL).1.chars().collect();
        let pos = c.choose(src.len() + 1);
        let mut x = src.clone();
        match c.choose(2 * ch.len() + 3) {
            k if k < ch.len() => x.insert(pos, ch[k]),
            _ if pos == src.len() => return Err(Stop::Skip),
            k if k < 2 * ch.len() => x[pos] = ch[k - ch.len()],
            k if k == 2 * ch.len() => {
                x.remove(pos);
            }
            k if k == 2 * ch.len() + 1 => x.insert(pos, src[pos]),
            _ if pos + 1 < src.len() => x.swap(pos, pos + 1),
            _ => return Err(Stop::Skip),
        }
        if x.contains(&'\n') {
            return Err(Stop::Skip);
        }
        accept(c, &x.into_iter().collect::<String>())
    }));
    v.push(space("longer edits", 0, "24 formulas in real use with one of 60 longer pieces (comments, literals of C, operators and words of other languages, parentheses) put in at any place, or the formula cut off there before or after it", |c| {
        const T: &[&str] = &[
            "/**/", "/* x */", "//", "// n", "#", "--", "0x", "0x1", "1_0", "1L", "1u", "1.0", "1e1", "0b1", "07", " 0", "1 0", "10 ", "&& ", " | |", "& &", "= =", "! =", "> =", "< =", "===", "!==", "<>", "~", "^", "<<", ">>", "&", "|", "**", "++", "+", "mod", "div", "AND", "OR", "NOT", "not ", " not", "and", "xor", "return ", "plural=", "n=",
            "N", "nn", "n n", "n(", ")(", "()", "(n", "n)", "((", "))", "?:", "? :", "'n'", "\\", "if", "else", "n[0]", "$n", "%n", "i", "true", ",", ", n", "\t", "  ",
        ];
        let src = c.pick(REAL).1;
        let pos = c.choose(src.len() + 1);
        let x = *c.pick(T);
        let y = match c.choose(3) {
            0 => format!("{}{x}{}", &src[..pos], &src[pos..]),
            1 => format!("{}{x}", &src[..pos]),
            _ => format!("{x}{}", &src[pos..]),
        };
        accept(c, &y)
    }));
    v.push(space("numbers", 0, "numbers of 1 to 40 digits, around powers of two up to 2^70, alone and in an expression", |c| {
        let k = c.choose(71 * 3 + 40);
        let num: String = if k < 213 {
            let b = 1u128 << (k / 3);
            (b + (k % 3) as u128 - 1).to_string()
        } else {
            "9".repeat(k - 212)
        };
        let x = match c.choose(3) {
            0 => num,
            1 => format!("n == {num} ? 1 : 0"),
            _ => format!("-{num} + n"),
        };
        accept(c, &x)
    }));
    v.push(space("spellings of numbers", 0, "every sequence of up to 5 (6) digits out of 0, 1, 7, 8, 9; 16 numbers after any number of zeros up to 64 and around powers of two up to 1024", |c| {
        let num = spelling(c);
        let x = match c.choose(3) {
            0 => num,
            1 => format!("n=={num}"),
            _ => format!("n%({num})+n"),
        };
        accept(c, &x)
    }));
    v.push(space("sizes", 0, "valid and invalid formulas of every length up to 200 and around powers of two up to 4096 bytes: chains, nested parentheses, spaces", |c| {
        let r = ramp(200, 4096);
        let n = *c.pick(&r);
        let x = match c.choose(6) {
            0 => format!("n{}", "+1".repeat(n / 2)),
            1 => format!("{}n{}", "(".repeat(n / 2), ")".repeat(n / 2)),
            2 => format!("{}n{}", "(".repeat(n / 2), ")".repeat((n / 2).saturating_sub(1))),
            3 => format!("n{}", "+1".repeat(n / 2) + "+"),
            4 => format!("n{}+ 1", " ".repeat(n)),
            _ => format!("{}1{}", "n ? 2 : ".repeat(n / 8), " "),
        };
        accept(c, &x)
    }));
    v.push(space("placement", 0, "a valid or invalid formula with the declarations in either order, cut over header lines, among other properties: only the opening tells", |c| {
        let x = *c.pick(&["n", "n+", "n n", "1+", ")", "n = 1", "x", "n!=1", "", "0x1", "1.5", "n++", "n & 1", "n ** 2", "n ?: 1"]);
        let d = match c.choose(5) {
            0 => format!("Plural-Forms: plural={x}; nplurals=2;\\n"),
            1 => format!("Plural-Forms: nplurals=2; plural={x};"),
            2 => format!("Plural-Forms: nplurals=2;\\nX: y\\nPlural-Forms: plural={x};\\n"),
            3 => format!("Plural-Forms: plural={x};\\n"),
            _ => format!("Language: xx\\nPlural-Forms: nplurals=0; plural={x};\\nPO: 1\\n"),
        };
        let d = format!("msgid \"\"\nmsgstr \"{d}\"\n{}", ["", "\nmsgid \"a\"\nmsgstr \"b\"\n"][c.choose(2)]);
        check(c, d.as_bytes()).map(|_| ())
    }));
    v
}

/// Counts over the whole range: small ones, and those near powers of two and ten, up to the largest.
fn wide_counts() -> Vec<usize> {
    let mut v: Vec<usize> = (0..300).collect();
    for k in 8..64 {
        v.extend((1usize << k) - 2..=(1usize << k) + 2);
    }
    for k in 2..20 {
        v.extend(10usize.pow(k) - 1..=10usize.pow(k) + 1);
    }
    v.extend([usize::MAX - 1, usize::MAX, usize::MAX / 10, usize::MAX / 3]);
    v
}

pub fn p10(t: Tier) -> Vec<Space> {
    let q = t == Tier::Quick;
    let mut v = vec![];
    fn lookups(c: &mut Ctx, d: &str, counts: &[usize], n: usize, formula: Option<&str>, texts: &[(usize, String)]) -> Res {
        // the text for a count is the one written under the index the formula gives, never another one
        let a = match formula {
            Some(x) => match f::judge(x) {
                Verdict::Accept(a) => Some(a),
                _ => return Err(Stop::Harness(format!("the reference refuses {x}"))),
            },
            None => None,
        };
        let p = parser();
        let r = in_impl(d.as_bytes(), || {
            let mut out = vec![];
            if let Ok(r) = p.parse(d.as_bytes()) {
                for u in r.take(5).flatten() {
                    let m = u.message();
                    if m.is_plural() {
                        out.push(counts.iter().map(|&k| (k, m.get_plural_text(k).map(str::to_string), m.plural().unwrap().get(k).map(str::to_string))).collect::<Vec<_>>());
                    }
                }
            }
            out
        });
        c.compared += 1;
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(us) => {
                for u in us {
                    for (k, t1, t2) in u {
                        let x = a.as_ref().map(|a| a.eval(k as i64)).filter(|&x| x >= 0 && (x as u64) < n as u64);
                        let want = x.and_then(|x| texts.iter().find(|t| t.0 == x as usize)).map(|t| t.1.clone());
                        ensure!(t1 == t2, "get_plural_text({k}) is {t1:?} but Plural::get({k}) is {t2:?}");
                        ensure!(t1 == want, "the text for {k} is {t1:?}, should be {want:?}");
                    }
                }
                Ok(())
            }
        }
    }
    let deep = if q { 4 } else { 5 };
    v.push(space("written texts", 0, format!("every sequence of up to {deep} lines msgstr[i] (i in 0..=4, in any order, with gaps and repetitions), 0 to 4 forms or no declaration, 9 formulas"), move |c| {
        let k = c.choose(6);
        let x = *c.pick(&["n", "0", "1", "n!=1", "n%3", "2-n", "5", "-1", "n>1 ? 2 : 0"]);
        let len = c.choose(deep + 1);
        let idx: Vec<usize> = (0..len).map(|_| c.choose(5)).collect();
        let mut d = match k {
            5 => String::from("msgid \"first\"\nmsgstr \"x\"\n"),
            k => format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={k}; plural={x};\\n\"\n"),
        };
        if k == 5 && x != "n" {
            return Err(Stop::Skip);
        }
        d.push_str("\nmsgid \"one\"\nmsgid_plural \"many\"\n");
        for i in &idx {
            d.push_str(&format!("msgstr[{i}] \"text {i}\"\n"));
        }
        d.push_str("\nmsgid \"end\"\nmsgstr \"x\"\n");
        c.input = d.clone().into_bytes();
        // what is numbered out of sequence is an error (checked by `check`), and no text of the unit
        let texts: Vec<(usize, String)> = idx.iter().enumerate().take_while(|(k, i)| k == *i).map(|(_, &i)| (i, format!("text {i}"))).collect();
        let counts: Vec<usize> = (0..14).collect();
        lookups(c, &d, &counts, k, if k == 5 { None } else { Some(x) }, &texts)?;
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("real formulas", 0, "24 formulas in real use, all texts or the first ones written, every count 0..=500 and the extremes; three units, obsolete ones too", |c| {
        let (n, x) = *c.pick(REAL);
        let k = c.choose(n + 1);
        if k == 0 {
            return Err(Stop::Skip);
        }
        let ob = c.flip();
        let empty = c.choose(n + 1);
        let texts: Vec<String> = (0..k).map(|i| if i + 1 == empty { String::new() } else { format!("text {i}") }).collect();
        let mut e = E::plural("one", "many", &texts.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        e.obsolete = ob;
        let h = header(&[&format!("Plural-Forms: nplurals={n}; plural={x};")]);
        let d = doc(&[h.clone(), E::simple("s", "t"), e.clone(), E::plural("other", "others", &["text 0"]), e.clone()]);
        c.input = d.clone().into_bytes();
        let counts: Vec<usize> = (0..=500).chain([1000, 1001, 1002, 1000000, 4294967296, 9223372036854775807]).collect();
        let t: Vec<(usize, String)> = texts.into_iter().enumerate().collect();
        // the middle unit has one text only: compare it on its own
        let d2 = doc(&[h, E::simple("s", "t"), e.clone(), e]);
        lookups(c, &d2, &counts, n, Some(x), &t)?;
        check(c, d.as_bytes()).map(|_| ())
    }));
    let len = if q { 4 } else { 5 };
    v.push(space("lookup sequences", 0, format!("three units of two catalogues whose formulas differ (6 pairs: same length, same number of forms, same text with another number of forms), all sequences of {len} lookups of a unit for a count, through the message, the plural details or the formula"), move |c| {
        const PAIRS: &[[(usize, &str); 2]] = &[
            [(2, "n!=1"), (2, "n!=2")],
            [(2, "n>1"), (2, "n<1")],
            [(3, "n"), (2, "n")],
            [(2, "n"), (3, "2-n")],
            [(3, "n%3"), (3, "n/3")],
            [(1, "n"), (3, "0")],
        ];
        let pr = *c.pick(PAIRS);
        let text = |k: usize| {
            let (n, x) = pr[k];
            let mut d = format!("msgid \"\"\nmsgstr \"Plural-Forms: nplurals={n}; plural={x};\\n\"\n");
            for e in 0..2 {
                d.push_str(&format!("\nmsgid \"one{e}\"\nmsgid_plural \"many{e}\"\n"));
                for i in 0..n {
                    d.push_str(&format!("msgstr[{i}] \"c{k}e{e}t{i}\"\n"));
                }
            }
            d
        };
        let docs = [text(0), text(1)];
        c.input = docs.join("\n=====\n").into_bytes();
        let asts: Vec<Ast> = pr.iter().map(|p| match f::judge(p.1) { Verdict::Accept(a) => a, _ => unreachable!() }).collect();
        let p = parser();
        let units = in_impl(docs[0].as_bytes(), || docs.iter().map(|d| p.parse(d.as_bytes()).map(|r| r.flatten().collect::<Vec<_>>()).unwrap_or_default()).collect::<Vec<_>>());
        let units = match units {
            Ok(u) => u,
            Err(p) => broken!("the library {p}"),
        };
        ensure!(units.iter().all(|u| u.len() == 2 && u.iter().all(|u| u.message().plural().map_or(false, |p| p.get_forms().is_some()))), "the plural units are not delivered");
        let mut done = String::new();
        for _ in 0..len {
            let (k, e) = [(0, 0), (1, 0), (0, 1)][c.choose(3)];
            let n = *c.pick(&[0usize, 1, 2, 5]);
            let u = &units[k][e];
            let x = asts[k].eval(n as i64);
            let index = if x < 0 || x as usize >= pr[k].0 { None } else { Some(x as usize) };
            let want = index.map(|i| format!("c{k}e{e}t{i}"));
            done.push_str(&format!(" {k}{e}:{n}"));
            c.compared += 1;
            let m = u.message();
            // the way of asking varies with the place in the sequence and the count
            let r = in_impl(docs[k].as_bytes(), || {
                let p = m.plural().unwrap();
                (m.get_plural_text(n).map(String::from), p.get_forms().unwrap().get_value(n), p.get(n).map(String::from), m.clone().get_plural_text(n).map(String::from))
            });
            match r {
                Err(p) => broken!("lookups{done}: the library {p}"),
                Ok((a, i, b, d)) => ensure!(a == want && b == want && d == want && i == index, "lookups{done}: text {a:?} {b:?} {d:?} index {i:?}, should be {want:?} {index:?}"),
            }
        }
        c.state(h64(&done));
        Ok(())
    }));
    v.push(space("many lookups", 0, "the same two units asked for every count up to 3000 in ascending, descending, alternating or repeated order", |c| {
        let (n1, x1, n2, x2) = *c.pick(&[(2usize, "n!=1", 2usize, "n>1"), (3, "n%3", 3, "n/1000"), (300, "n%300", 300, "n/10")]);
        let mk = |n: usize, x: &str| {
            let t: Vec<String> = (0..n).map(|i| format!("t{i}")).collect();
            doc(&[header(&[&format!("Plural-Forms: nplurals={n}; plural={x};")]), E::plural("one", "many", &t.iter().map(|x| x.as_str()).collect::<Vec<_>>())])
        };
        let docs = [mk(n1, x1), mk(n2, x2)];
        let how = c.choose(4);
        c.input = docs.join("\n=====\n").into_bytes();
        let asts: Vec<Ast> = [x1, x2].iter().map(|p| match f::judge(p) { Verdict::Accept(a) => a, _ => unreachable!() }).collect();
        let p = parser();
        let r = in_impl(docs[0].as_bytes(), || {
            let us: Vec<poreader::unit::Unit> = docs.iter().flat_map(|d| p.parse(d.as_bytes()).unwrap().flatten().collect::<Vec<_>>()).collect();
            if us.len() != 2 {
                return Err("the plural units are not delivered".to_string());
            }
            let ask = |k: usize, n: usize| {
                let x = asts[k].eval(n as i64);
                let want = if x < 0 || x as usize >= [n1, n2][k] { None } else { Some(format!("t{x}")) };
                let got = us[k].message().get_plural_text(n);
                if got != want.as_deref() {
                    return Err(format!("the text of catalogue {k} for {n} is {got:?}, should be {want:?}"));
                }
                Ok(())
            };
            for i in 0..=3000usize {
                match how {
                    0 => ask(0, i)?,
                    1 => ask(1, 3000 - i)?,
                    2 => {
                        ask(i % 2, i)?;
                        ask((i + 1) % 2, i)?;
                        ask(i % 2, i)?;
                    }
                    _ => {
                        ask(0, i % 7)?;
                        ask(1, i)?;
                        ask(0, i / 2)?;
                    }
                }
            }
            Ok(())
        });
        c.compared += 3001;
        c.state(h64(&(how, x1)));
        match r {
            Err(p) => broken!("the library {p}"),
            Ok(Err(m)) => broken!("{m}"),
            Ok(Ok(())) => Ok(()),
        }
    }));
    v.push(space("large values", 0, "24 formulas whose value can be large or negative, 1 to 4 (and 255 to 257) forms, all texts or one less: every count within 6 of a power of two (0 to 63) or of its sums with another, up to the greatest", |c| {
        let x = *c.pick(&["n", "n+1", "n-1", "n*2", "n*n", "-n", "!n", "n/2", "n%7", "n*256", "n*65536", "n*4294967296", "n/256", "n/4294967296", "n+4294967296", "n+256", "n+65536", "n+2147483648", "256", "4294967296", "4294967297", "65536", "0-n", "n==4294967296"]);
        let n = *c.pick(&[1usize, 2, 3, 4, 255, 256, 257]);
        let less = c.choose(2);
        if n == less {
            return Err(Stop::Skip);
        }
        let texts: Vec<String> = (0..n - less).map(|i| format!("text {i}")).collect();
        let d = doc(&[
            header(&[&format!("Plural-Forms: nplurals={n}; plural={x};")]),
            E::plural("one", "many", &texts.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
            E::simple("next", "x"),
        ]);
        c.input = d.clone().into_bytes();
        let mut counts: Vec<usize> = vec![];
        for i in 0..64 {
            for j in [0, 8, 16, 31, 32, 48, 63] {
                let b = (1u64 << i).wrapping_add(if j == i || j == 0 { 0 } else { 1 << j });
                counts.extend((0..13).map(|d| b.wrapping_sub(6).wrapping_add(d) as usize));
            }
        }
        counts.sort();
        counts.dedup();
        let t: Vec<(usize, String)> = texts.into_iter().enumerate().collect();
        lookups(c, &d, &counts, n, Some(x), &t)?;
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("many forms", 0, "1 to 130 forms, formulas n, n%k, k-1-n: every text is found under its own index, none beyond", |c| {
        let n = 1 + c.choose(130);
        let x = match c.choose(3) {
            0 => "n".to_string(),
            1 => format!("n%{n}"),
            _ => format!("{}-n", n - 1),
        };
        let less = c.choose(2);
        if n - less == 0 {
            return Err(Stop::Skip);
        }
        let texts: Vec<String> = (0..n - less).map(|i| format!("text {i}")).collect();
        let d = doc(&[
            header(&[&format!("Plural-Forms: nplurals={n}; plural={x};")]),
            E::plural("one", "many", &texts.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
            E::simple("next", "x"),
        ]);
        c.input = d.clone().into_bytes();
        let counts: Vec<usize> = (0..=2 * n + 2).collect();
        let t: Vec<(usize, String)> = texts.into_iter().enumerate().collect();
        lookups(c, &d, &counts, n, Some(&x), &t)?;
        check(c, d.as_bytes()).map(|_| ())
    }));
    v.push(space("simple messages", 0, "simple messages, translated or not, fuzzy, obsolete, under 4 headers: the same text for every count", |c| {
        let h = [vec![], vec![header(&[])], vec![header(&[PF2])], vec![header(&[PF3])]][c.choose(4)].clone();
        let mut e = E::simple("id", ["text", "", " ", "0"][c.choose(4)]);
        e.obsolete = c.flip();
        if c.flip() {
            e = e.comment(',', "fuzzy");
        }
        if c.flip() {
            e = e.with_prev(Some("c"), Some("p"), Some("q"));
        }
        let mut d = h;
        if d.is_empty() {
            d.push(E::simple("first", "x"));
        }
        d.push(e);
        let o = check_entries(c, &d)?;
        let u = o.units().last().unwrap().message.clone();
        let want = if u.text.is_empty() { None } else { Some(u.text.clone()) };
        ensure!(u.texts.iter().all(|t| *t == want), "texts {:?}, should all be {want:?}", u.texts);
        let text = doc(&d);
        let p = parser();
        let other = in_impl(text.as_bytes(), || {
            let us: Vec<_> = p.parse(text.as_bytes()).ok()?.flatten().collect();
            let m = us.last()?.message();
            wide_counts().iter().copied().find(|k| m.get_plural_text(*k).map(str::to_string) != want)
        });
        match other {
            Err(p) => broken!("the library {p}"),
            Ok(Some(k)) => broken!("the text for {k} is another one than {want:?}"),
            Ok(None) => Ok(()),
        }
    }));
    v.push(space("no plural forms", 0, "plural messages of catalogues without (or with an empty) Plural-Forms property: up to two texts, no lookup by count", |c| {
        let h = [vec![E::simple("first", "x")], vec![header(&[])], vec![header(&["Plural-Forms:"])], vec![header(&["Plural-Forms:  ", "plural-forms: nplurals=1; plural=0;"])]][c.choose(4)].clone();
        let k = 1 + c.choose(3);
        let texts = ["a", "b", "c"];
        let mut d = h;
        d.push(E::plural("one", "many", &texts[..k]));
        let text = doc(&d);
        let (_, o) = check(c, text.as_bytes())?;
        for u in o.units() {
            if let Some(p) = &u.message.details {
                ensure!(p.get.iter().all(|t| t.is_none()) && u.message.texts.iter().all(|t| t.is_none()), "a text is given without plural formula");
            }
        }
        let p = parser();
        let some = in_impl(text.as_bytes(), || {
            let us: Vec<_> = p.parse(text.as_bytes()).ok()?.flatten().collect();
            us.iter().map(|u| u.message()).filter(|m| m.is_plural()).find_map(|m| wide_counts().iter().copied().find(|k| m.get_plural_text(*k).is_some() || m.plural().is_some_and(|p| p.get(*k).is_some())))
        });
        match some {
            Err(p) => broken!("the library {p}"),
            Ok(Some(k)) => broken!("a text is given for {k} without plural formula"),
            Ok(None) => Ok(()),
        }
    }));
    v
}
