//! Reference semantics of plural formulas, written from the C rules and independently of the library.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Or,
    And,
    Eq,
    Ne,
    Lt,
    Le,
    Gt,
    Ge,
    Add,
    Sub,
    Mul,
    Div,
    Mod,
}
pub const OPS: [Op; 13] =
    [Op::Or, Op::And, Op::Eq, Op::Ne, Op::Lt, Op::Le, Op::Gt, Op::Ge, Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Mod];

impl Op {
    /// C precedence level
    pub fn level(self) -> u8 {
        match self {
            Op::Or => 2,
            Op::And => 3,
            Op::Eq | Op::Ne => 4,
            Op::Lt | Op::Le | Op::Gt | Op::Ge => 5,
            Op::Add | Op::Sub => 6,
            Op::Mul | Op::Div | Op::Mod => 7,
        }
    }
    pub fn text(self) -> &'static str {
        match self {
            Op::Or => "||",
            Op::And => "&&",
            Op::Eq => "==",
            Op::Ne => "!=",
            Op::Lt => "<",
            Op::Le => "<=",
            Op::Gt => ">",
            Op::Ge => ">=",
            Op::Add => "+",
            Op::Sub => "-",
            Op::Mul => "*",
            Op::Div => "/",
            Op::Mod => "%",
        }
    }
    pub fn word(self) -> &'static str {
        match self {
            Op::Or => "or",
            Op::And => "and",
            o => o.text(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ast {
    N,
    Num(i64),
    Neg(Box<Ast>),
    Not(Box<Ast>),
    Bin(Op, Box<Ast>, Box<Ast>),
    Cond(Box<Ast>, Box<Ast>, Box<Ast>),
}
use Ast::*;

pub fn bin(o: Op, l: Ast, r: Ast) -> Ast {
    Bin(o, Box::new(l), Box::new(r))
}
pub fn not(x: Ast) -> Ast {
    Not(Box::new(x))
}
pub fn neg(x: Ast) -> Ast {
    Neg(Box::new(x))
}
pub fn cond(a: Ast, b: Ast, c: Ast) -> Ast {
    Cond(Box::new(a), Box::new(b), Box::new(c))
}

impl Ast {
    pub fn eval(&self, n: i64) -> i64 {
        match self {
            N => n,
            Num(v) => *v,
            Neg(x) => 0i64.wrapping_sub(x.eval(n)),
            Not(x) => (x.eval(n) == 0) as i64,
            Cond(c, t, e) => {
                if c.eval(n) != 0 {
                    t.eval(n)
                } else {
                    e.eval(n)
                }
            }
            Bin(o, l, r) => {
                let (a, b) = (l.eval(n), r.eval(n));
                match o {
                    Op::Or => (a != 0 || b != 0) as i64,
                    Op::And => (a != 0 && b != 0) as i64,
                    Op::Eq => (a == b) as i64,
                    Op::Ne => (a != b) as i64,
                    Op::Lt => (a < b) as i64,
                    Op::Le => (a <= b) as i64,
                    Op::Gt => (a > b) as i64,
                    Op::Ge => (a >= b) as i64,
                    Op::Add => a.wrapping_add(b),
                    Op::Sub => a.wrapping_sub(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::Div if b == 0 => {
                        if a < 0 {
                            i64::MIN
                        } else {
                            i64::MAX
                        }
                    }
                    Op::Mod if b == 0 => a,
                    // the exact quotient and remainder, truncated to 64 bits
                    Op::Div => ((a as i128) / (b as i128)) as i64,
                    Op::Mod => ((a as i128) % (b as i128)) as i64,
                }
            }
        }
    }
    fn level(&self) -> u8 {
        match self {
            N | Num(_) => 9,
            Neg(_) | Not(_) => 8,
            Bin(o, ..) => o.level(),
            Cond(..) => 1,
        }
    }
    /// Print with the parentheses C requires (`full`: around every sub-expression), `sp` between tokens,
    /// `words`: or/and instead of ||/&&.
    pub fn print(&self, full: bool, sp: &str, words: bool) -> String {
        let mut s = String::new();
        self.put(&mut s, full, sp, words);
        s
    }
    fn put(&self, s: &mut String, full: bool, sp: &str, words: bool) {
        let sub = |s: &mut String, x: &Ast, min: u8| {
            let par = x.level() < 9 && (full || x.level() < min);
            if par {
                s.push('(');
                s.push_str(sp);
            }
            x.put(s, full, sp, words);
            if par {
                s.push_str(sp);
                s.push(')');
            }
        };
        match self {
            N => s.push('n'),
            Num(v) => s.push_str(&v.to_string()),
            Neg(x) => {
                s.push('-');
                // keep "- -n" apart: "--" is another C token
                if matches!(**x, Neg(_)) && !full {
                    s.push(' ');
                }
                sub(s, x, 8);
            }
            Not(x) => {
                s.push('!');
                sub(s, x, 8);
            }
            Bin(o, l, r) => {
                sub(s, l, o.level());
                let t = if words { o.word() } else { o.text() };
                let sp = if t.as_bytes()[0].is_ascii_alphabetic() { " " } else { sp };
                s.push_str(sp);
                s.push_str(t);
                s.push_str(sp);
                if *o == Op::Sub && !full && matches!(**r, Neg(_)) && sp.is_empty() {
                    s.push(' ');
                }
                let from = s.len();
                sub(s, r, o.level() + 1);
                // not accepted by the library (known finding of P09): the parentheses keep the meaning
                if *o == Op::Add && s[from..].starts_with('!') {
                    s.insert_str(from, "( ");
                    s.push_str(" )");
                }
            }
            Cond(c, t, e) => {
                sub(s, c, 2);
                s.push_str(sp);
                s.push('?');
                s.push_str(sp);
                sub(s, t, 1);
                s.push_str(sp);
                s.push(':');
                s.push_str(sp);
                sub(s, e, 1);
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// valid, and its meaning
    Accept(Ast),
    /// valid, but its meaning is not fixed by the property (unparenthesised `not`)
    /// accepted, with one of two meanings
    Either(Ast, Ast),
    Reject,
    /// the property does not say
    Open,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Tok {
    Num(i64),
    N,
    NotWord,
    Bang,
    Op(Op),
    Q,
    Colon,
    L,
    R,
}

enum Lexed {
    Toks(Vec<Tok>),
    Bad,
    Open,
}

fn lex(s: &str) -> Lexed {
    let b: Vec<char> = s.chars().collect();
    let mut v = vec![];
    let mut i = 0;
    let mut open = false;
    while i < b.len() {
        let c = b[i];
        if c.is_whitespace() {
            i += 1;
            continue;
        }
        if c.is_ascii_digit() {
            let j = (i..b.len()).find(|&j| !b[j].is_ascii_digit()).unwrap_or(b.len());
            let t: String = b[i..j].iter().collect();
            match t.parse::<i64>() {
                Ok(x) => v.push(Tok::Num(x)),
                Err(_) => return Lexed::Bad,
            }
            // a number glued to a word: left open
            if j < b.len() && (b[j].is_alphabetic() || b[j] == '_') {
                open = true;
            }
            i = j;
            continue;
        }
        if c.is_alphabetic() || c == '_' {
            let j = (i..b.len()).find(|&j| !(b[j].is_alphanumeric() || b[j] == '_')).unwrap_or(b.len());
            let t: String = b[i..j].iter().collect();
            match t.as_str() {
                "n" => v.push(Tok::N),
                "or" => v.push(Tok::Op(Op::Or)),
                "and" => v.push(Tok::Op(Op::And)),
                "not" => v.push(Tok::NotWord),
                _ => {
                    // words glued together (`nor`, `not1`): open when made of known pieces only
                    let glued = {
                        let mut r: &str = &t;
                        loop {
                            let Some(rest) = ["not", "or", "and", "n"].iter().find_map(|w| r.strip_prefix(w)) else {
                                let d = r.trim_start_matches(|c: char| c.is_ascii_digit());
                                if d.len() == r.len() {
                                    break r.is_empty();
                                }
                                r = d;
                                continue;
                            };
                            r = rest;
                        }
                    };
                    if glued {
                        return Lexed::Open;
                    }
                    return Lexed::Bad;
                }
            }
            i = j;
            continue;
        }
        let two: String = b[i..(i + 2).min(b.len())].iter().collect();
        let t2 = match two.as_str() {
            "||" => Some(Op::Or),
            "&&" => Some(Op::And),
            "==" => Some(Op::Eq),
            "!=" => Some(Op::Ne),
            "<=" => Some(Op::Le),
            ">=" => Some(Op::Ge),
            _ => None,
        };
        if let Some(o) = t2 {
            v.push(Tok::Op(o));
            i += 2;
            continue;
        }
        if two == "--" {
            open = true; // another operator in C
        }
        v.push(match c {
            '?' => Tok::Q,
            ':' => Tok::Colon,
            '(' => Tok::L,
            ')' => Tok::R,
            '!' => Tok::Bang,
            '<' => Tok::Op(Op::Lt),
            '>' => Tok::Op(Op::Gt),
            '+' => Tok::Op(Op::Add),
            '-' => Tok::Op(Op::Sub),
            '*' => Tok::Op(Op::Mul),
            '/' => Tok::Op(Op::Div),
            '%' => Tok::Op(Op::Mod),
            _ => return Lexed::Bad,
        });
        i += 1;
    }
    if open {
        // valid token by token, but glued: only a rejection by the grammar is certain
        return Lexed::Open;
    }
    Lexed::Toks(v)
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    /// `not` may stand wherever `!` may
    loose: bool,
    saw_not: bool,
}
impl P<'_> {
    fn peek(&self) -> Option<Tok> {
        self.t.get(self.i).copied()
    }
    fn eat(&mut self, t: Tok) -> bool {
        if self.peek() == Some(t) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expr(&mut self) -> Option<Ast> {
        let c = self.level(2)?;
        if self.eat(Tok::Q) {
            let t = self.expr()?;
            if !self.eat(Tok::Colon) {
                return None;
            }
            let e = self.expr()?;
            return Some(cond(c, t, e));
        }
        Some(c)
    }
    fn level(&mut self, l: u8) -> Option<Ast> {
        if l == 6 && !self.loose && self.peek() == Some(Tok::NotWord) {
            // `not` takes an additive expression and stands at the head of an operand of a comparison
            self.i += 1;
            self.saw_not = true;
            if self.peek() == Some(Tok::NotWord) {
                return None;
            }
            return Some(not(self.level(6)?));
        }
        if l == 8 {
            return self.unary();
        }
        let mut a = self.level(l + 1)?;
        while let Some(Tok::Op(o)) = self.peek() {
            if o.level() != l {
                break;
            }
            self.i += 1;
            let b = self.level(l + 1)?;
            a = bin(o, a, b);
        }
        Some(a)
    }
    fn unary(&mut self) -> Option<Ast> {
        if self.eat(Tok::Bang) {
            return Some(not(self.unary()?));
        }
        if self.loose && self.eat(Tok::NotWord) {
            self.saw_not = true;
            return Some(not(self.unary()?));
        }
        if self.eat(Tok::Op(Op::Sub)) {
            return Some(neg(self.unary()?));
        }
        match self.peek()? {
            Tok::Num(v) => {
                self.i += 1;
                Some(Num(v))
            }
            Tok::N => {
                self.i += 1;
                Some(N)
            }
            Tok::L => {
                self.i += 1;
                let e = self.expr()?;
                if !self.eat(Tok::R) {
                    return None;
                }
                Some(e)
            }
            _ => None,
        }
    }
}

fn parse_toks(t: &[Tok], loose: bool) -> Option<(Ast, bool)> {
    let mut p = P { t, i: 0, loose, saw_not: false };
    let a = p.expr()?;
    if p.i == t.len() {
        Some((a, p.saw_not))
    } else {
        None
    }
}

/// What the properties say about a formula text.
pub fn judge(s: &str) -> Verdict {
    let s = s.trim();
    if s.is_empty() {
        return Verdict::Accept(N);
    }
    if s.len() > MAX_LEN {
        return Verdict::Open;
    }
    let t = match lex(s) {
        Lexed::Bad => return Verdict::Reject,
        Lexed::Open => return Verdict::Open,
        Lexed::Toks(t) => t,
    };
    match (parse_toks(&t, false), parse_toks(&t, true)) {
        (Some((a, false)), _) => Verdict::Accept(a),
        (Some((a, true)), Some((b, _))) if a == b => Verdict::Accept(a),
        (Some((a, _)), Some((b, _))) => Verdict::Either(a, b),
        (None, None) => Verdict::Reject,
        _ => Verdict::Open,
    }
}

/// Formulas longer than this may be refused (P09).
pub const MAX_LEN: usize = 2048;

/// Does `!` stand directly after a `+`?  (The library refuses that: known finding of P09.)
pub fn bang_after_plus(s: &str) -> bool {
    s.match_indices('+').any(|(i, _)| {
        let r = s[i + 1..].trim_start();
        r.starts_with('!') && !r.starts_with("!=")
    })
}
