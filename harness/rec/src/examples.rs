//! The example grammars against arithmetic.
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_example_grammars::{ambiguous_math, precedenced_math};
use gearley_forest::Evaluate;
use gearley_grammar::Grammar;
use gearley_recognizer::Recognizer;
use gearley_utils::RecognizerParseExt;
use vs::{any_bool, any_u32, assert, assume, cover, out, pick};

/// An evaluator that is given the user's symbols.
struct Outer<'a, E>(&'a DefaultGrammar, E);
impl<E: Evaluate> Evaluate for Outer<'_, E> {
    type Elem = E::Elem;
    fn leaf(&self, s: Symbol, v: u32) -> E::Elem {
        self.1.leaf(self.0.to_external(s), v)
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a E::Elem>) -> E::Elem
    where
        E::Elem: 'a,
    {
        self.1.product(action, args)
    }
    fn nulling(&self, s: Symbol, results: &mut Vec<E::Elem>) {
        self.1.nulling(self.0.to_external(s), results)
    }
}

fn apply(op: u8, a: Option<i64>, b: Option<i64>) -> Option<i64> {
    let (a, b) = (a?, b?);
    let r = match op {
        b'+' => a + b,
        b'-' => a - b,
        b'*' => a * b,
        _ => {
            if b == 0 {
                return None;
            }
            a / b
        }
    };
    fit(r)
}
fn fit(r: i64) -> Option<i64> {
    if r < i32::MIN as i64 || r > i32::MAX as i64 {
        None
    } else {
        Some(r)
    }
}
fn is_op(c: u8) -> bool {
    matches!(c, b'+' | b'-' | b'*' | b'/')
}

/// Can a sentence go on like this, and is it one?
struct State {
    operand: bool,
    number: bool,
    depth: usize,
}
impl State {
    fn new() -> State {
        State { operand: false, number: false, depth: 0 }
    }
    fn read(&mut self, c: u8) -> bool {
        if c.is_ascii_digit() {
            let ok = !self.operand || self.number;
            self.operand = true;
            self.number = true;
            return ok;
        }
        self.number = false;
        match c {
            b'(' => {
                self.depth += 1;
                !self.operand
            }
            b')' => {
                let ok = self.operand && self.depth > 0;
                self.depth = self.depth.saturating_sub(1);
                ok
            }
            _ => {
                let ok = self.operand;
                self.operand = false;
                ok
            }
        }
    }
    fn accepts(&self) -> bool {
        self.operand && self.depth == 0
    }
}

/// Arithmetic: precedence, left to right.
struct Arith<'a>(&'a [u8], usize);
impl Arith<'_> {
    fn peek(&self) -> u8 {
        self.0.get(self.1).copied().unwrap_or(0)
    }
    fn sum(&mut self) -> Option<i64> {
        let mut v = self.product();
        while matches!(self.peek(), b'+' | b'-') {
            let op = self.peek();
            self.1 += 1;
            let w = self.product();
            v = apply(op, v, w);
        }
        v
    }
    fn product(&mut self) -> Option<i64> {
        let mut v = self.factor();
        while matches!(self.peek(), b'*' | b'/') {
            let op = self.peek();
            self.1 += 1;
            let w = self.factor();
            v = apply(op, v, w);
        }
        v
    }
    fn factor(&mut self) -> Option<i64> {
        if self.peek() == b'(' {
            self.1 += 1;
            let v = self.sum();
            self.1 += 1;
            return v;
        }
        let mut v = Some(0);
        while self.peek().is_ascii_digit() {
            v = fit(v? * 10 + (self.peek() - b'0') as i64);
            self.1 += 1;
        }
        v
    }
}
/// Every way of bracketing; None if one of them is undefined.
fn brackets(t: &[u8]) -> Option<Vec<i64>> {
    if t.iter().all(|c| c.is_ascii_digit()) {
        return Some(vec![Arith(t, 0).factor()?]);
    }
    let mut all = Vec::new();
    for (i, &c) in t.iter().enumerate() {
        if is_op(c) {
            let (l, r) = (brackets(&t[..i])?, brackets(&t[i + 1..])?);
            for &a in &l {
                for &b in &r {
                    all.push(apply(c, Some(a), Some(b))?);
                }
            }
        }
    }
    Some(all)
}

fn grammar(ambiguous: bool) -> DefaultGrammar {
    DefaultGrammar::from_grammar(if ambiguous { ambiguous_math::grammar() } else { precedenced_math::grammar() })
}
fn run(gr: &DefaultGrammar, ambiguous: bool, text: &[u8], compact: bool) {
    let s = std::str::from_utf8(text).unwrap();
    let toks = if ambiguous { ambiguous_math::tokenize(s) } else { precedenced_math::tokenize(s) };
    assert(toks.len() == text.len(), "a text has another number of tokens than characters");
    let mut st = State::new();
    let viable = text.iter().all(|&c| st.read(c));
    let want = if viable && st.accepts() {
        if ambiguous {
            brackets(text)
        } else {
            let v = Arith(text, 0).sum();
            // Undefined if any part is.
            v.map(|v| vec![v])
        }
    } else {
        Some(vec![])
    };
    macro_rules! go {
        ($b:expr) => {{
            let mut rec = Recognizer::with_forest(gr, $b);
            match rec.parse(&toks) {
                Err(_) => assert(!viable, "the beginning of an expression is refused"),
                Ok(b) => {
                    assert(viable, "something that is no expression is read");
                    assert(b == st.accepts(), "an expression is refused, or something else is accepted");
                }
            }
            if viable && st.accepts() {
                let Some(mut want) = want else { return };
                let node = rec.finished_node().unwrap();
                let mut got: Vec<i64> = if ambiguous {
                    rec.into_forest().evaluate(Outer(gr, ambiguous_math::Evaluator), node).iter().map(|&v| v as i64).collect()
                } else {
                    rec.into_forest().evaluate(Outer(gr, precedenced_math::Evaluator), node).iter().map(|&v| v as i64).collect()
                };
                got.sort_unstable();
                want.sort_unstable();
                got.iter().for_each(|&v| out(v as u64));
                assert(got == want, "an expression has another value");
                cover("evaluated");
            } else {
                cover("no expression");
            }
        }};
    }
    if compact {
        go!(compact_bocage::Bocage::new(gr))
    } else {
        go!(simple_bocage::Bocage::new(gr))
    }
}

/// Texts of these characters, ended by the first impossible one.
pub fn texts(ambiguous: bool, of: &[u8], max: usize) {
    // Before paths split.
    let gr = grammar(ambiguous);
    let n = pick(1, max as u64);
    let mut text = Vec::new();
    let mut st = State::new();
    for _ in 0..n {
        let c = of[pick(0, of.len() as u64 - 1)];
        text.push(c);
        if !st.read(c) {
            break;
        }
    }
    run(&gr, ambiguous, &text, n < max && n > 1 && any_bool());
}
/// Long numbers alone, and on either side of an operator.
pub fn numbers(ambiguous: bool, digits: &[u8], max: usize) {
    // Before paths split.
    let gr = grammar(ambiguous);
    let n = pick(1, max as u64);
    let mut text: Vec<u8> = (0..n).map(|_| digits[pick(0, digits.len() as u64 - 1)]).collect();
    match pick(0, 2) {
        0 => {}
        1 => text.extend_from_slice(b"-12345"),
        _ => {
            let mut t = b"102/".to_vec();
            t.append(&mut text);
            text = t;
        }
    }
    run(&gr, ambiguous, &text, false);
}
/// One long text with a place for anything.
pub fn place(ambiguous: bool, of: &[u8]) {
    // Before paths split.
    let gr = grammar(ambiguous);
    let mut text = if ambiguous { b"17-2*305/40-9".to_vec() } else { b"(17-2)*305/(40-3*9)-6".to_vec() };
    let at = pick(0, text.len() as u64 - 1);
    text[at] = of[pick(0, of.len() as u64 - 1)];
    run(&gr, ambiguous, &text, any_bool());
}

/// A long text with any character of some at some places.
pub fn long(n: usize, places: &[usize], of: &[u8]) {
    let gr = grammar(false);
    let mut text = Vec::new();
    while text.len() < n {
        text.extend_from_slice(b"12+(3-(4*5+60)/7)*2-1*");
    }
    text.extend_from_slice(b"9");
    let at = places[pick(0, places.len() as u64 - 1)];
    text[at] = of[pick(0, of.len() as u64 - 1)];
    run(&gr, false, &text, any_bool());
}

/// The published examples are what their grammars describe, also with any character of some changed.
pub fn published(of: &[u8]) {
    use gearley_example_grammars::{get_examples, BNFS};
    for entry in BNFS {
        assert(get_examples(entry[0]).is_some_and(|e| !e.is_empty()), "a grammar has no examples");
        assert(BNFS.iter().filter(|b| b[0] == entry[0]).count() == 1, "two grammars have one name");
        assert(!entry[1].is_empty() && !entry[3].is_empty(), "a grammar has no title or no text");
    }
    assert(get_examples("").is_none() && get_examples("math").is_none(), "an unknown grammar has examples");
    let ambiguous = any_bool();
    let gr = grammar(ambiguous);
    let all = get_examples(if ambiguous { "ambiguous_math" } else { "precedenced_math" }).unwrap();
    let mut text = all[pick(0, all.len() as u64 - 1)].as_bytes().to_vec();
    let mut st = State::new();
    assert(text.iter().all(|&c| st.read(c)) && st.accepts(), "a published example is no expression");
    let of: Vec<u8> = of.iter().copied().filter(|c| !ambiguous || !matches!(c, b'(' | b')')).collect();
    let at = pick(0, text.len() as u64);
    if at < text.len() {
        text[at] = of[pick(0, of.len() as u64 - 1)];
    } else {
        cover("as published");
    }
    run(&gr, ambiguous, &text, any_bool());
}

/// What a token stands for.
fn token(ambiguous: bool, c: u8) -> Symbol {
    let b = [c];
    let s = std::str::from_utf8(&b).unwrap();
    let v = if ambiguous { ambiguous_math::tokenize(s) } else { precedenced_math::tokenize(s) };
    assert(v.len() == 1, "a character is not one token");
    v[0]
}
fn leaf(ambiguous: bool, s: Symbol) -> i32 {
    if ambiguous { ambiguous_math::Evaluator.leaf(s, any_u32()) } else { precedenced_math::Evaluator.leaf(s, any_u32()) }
}
fn act(ambiguous: bool, action: u32, args: &[i32]) -> i32 {
    if ambiguous { ambiguous_math::Evaluator.product(action, args.iter()) } else { precedenced_math::Evaluator.product(action, args.iter()) }
}
/// Each rule's action over all 32-bit operands for which it is defined.
pub fn actions(ambiguous: bool) {
    let cfg: Cfg = if ambiguous { ambiguous_math::grammar() } else { precedenced_math::grammar() };
    const CHARS: &[u8] = b"+-*/()0123456789";
    let toks: Vec<(Symbol, u8)> =
        CHARS.iter().filter(|c| !ambiguous || !matches!(c, b'(' | b')')).map(|&c| (token(ambiguous, c), c)).collect();
    let what = |s: Symbol| toks.iter().find(|t| t.0 == s).map_or(0, |t| t.1);
    for (i, t) in toks.iter().enumerate() {
        assert(toks[..i].iter().all(|u| u.0 != t.0), "two characters are one token");
        assert(!cfg.rules().any(|r| r.lhs == t.0), "a token has rules");
        if t.1.is_ascii_digit() {
            assert(leaf(ambiguous, t.0) == (t.1 - b'0') as i32, "a digit has another value");
        }
    }
    let rules: Vec<_> = cfg.rules().cloned().collect();
    let r = &rules[pick(0, rules.len() as u64 - 1)];
    let id = r.history.origin().id;
    let parts: Vec<u8> = r.rhs.iter().map(|&s| what(s)).collect();
    let (a, b) = (any_u32() as i32, any_u32() as i32);
    let (got, want) = match parts[..] {
        // A digit or an operator on its own.
        [c] if c.is_ascii_digit() => {
            let d = leaf(ambiguous, r.rhs[0]);
            (act(ambiguous, id, &[d]), (c - b'0') as i64)
        }
        // What operators mean is seen where they are used.
        [c] if c != 0 => return cover("operator"),
        [_] => (act(ambiguous, id, &[a]), a as i64),
        [0, c] if c.is_ascii_digit() => {
            let d = leaf(ambiguous, r.rhs[1]);
            // A number read so far is not negative.
            assume(a >= 0 && a < (i32::MAX - 9) / 10);
            (act(ambiguous, id, &[a, d]), (a * 10 + (c - b'0') as i32) as i64)
        }
        [b'(', 0, b')'] => {
            let (l, p) = (leaf(ambiguous, r.rhs[0]), leaf(ambiguous, r.rhs[2]));
            (act(ambiguous, id, &[l, a, p]), a as i64)
        }
        [0, c, 0] => {
            // An operator, itself or through a rule.
            let c = if c == 0 { [b'+', b'-', b'*', b'/'][pick(0, 3)] } else { c };
            let tok = toks.iter().find(|t| t.1 == c).unwrap().0;
            let code = if r.rhs[1] == tok {
                leaf(ambiguous, tok)
            } else {
                let via = rules.iter().find(|x| x.lhs == r.rhs[1] && x.rhs == [tok]);
                assert(via.is_some(), "an operator has no rule");
                act(ambiguous, via.unwrap().history.origin().id, &[leaf(ambiguous, tok)])
            };
            // Left and right operand.
            let want = match c {
                b'+' => a.checked_add(b),
                b'-' => a.checked_sub(b),
                b'*' => a.checked_mul(b),
                _ => a.checked_div(b),
            };
            let Some(want) = want else {
                assume(false);
                return;
            };
            let want = want as i64;
            cover("operation");
            (act(ambiguous, id, &[a, code, b]), want)
        }
        _ => {
            assert(false, "a rule of another form");
            return;
        }
    };
    out(got as u64);
    assert(got as i64 == want, "an action computes something else");
    cover("computed");
}
