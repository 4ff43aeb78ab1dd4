//! What the demonstrations share: grammars from one line of text, and parses shown as text.
use cfg::{Cfg, Symbol};
use gearley_default_grammar::DefaultGrammar;
use gearley_forest::{Evaluate, Forest};
use gearley_grammar::Grammar;
use gearley_recognizer::lookahead::Lookahead;
use gearley_recognizer::perf_hint::PerfHint;
use gearley_recognizer::Recognizer;

pub struct G {
    pub names: Vec<(char, Symbol)>,
    pub cfg: Cfg,
    pub gr: DefaultGrammar,
}

/// "S=aSb|ab;A=x|": rules of one-character symbols, the first one the start symbol.
pub fn grammar(text: &str) -> G {
    let mut cfg = Cfg::new();
    let mut names: Vec<(char, Symbol)> = vec![];
    for c in text.chars().filter(|c| !"=|;".contains(*c)) {
        if names.iter().all(|n| n.0 != c) {
            names.push((c, cfg.next_sym(None)));
        }
    }
    let get = |c: char| names.iter().find(|n| n.0 == c).unwrap().1;
    for part in text.split(';') {
        let (lhs, alts) = part.split_once('=').unwrap();
        for alt in alts.split('|') {
            let rhs: Vec<Symbol> = alt.chars().map(get).collect();
            cfg.rule(get(lhs.chars().next().unwrap())).rhs(rhs);
        }
    }
    cfg.set_roots([names[0].1]);
    let gr = DefaultGrammar::from_grammar(cfg.clone());
    G { names, cfg, gr }
}

impl G {
    pub fn ext(&self, c: char) -> Symbol {
        self.names.iter().find(|n| n.0 == c).unwrap().1
    }
    pub fn int(&self, c: char) -> Symbol {
        self.gr.to_internal(self.ext(c)).unwrap()
    }
    pub fn name(&self, internal: Symbol) -> char {
        let e = self.gr.to_external(internal);
        self.names.iter().find(|n| n.1 == e).map_or('?', |n| n.0)
    }
}

pub fn start<F: Forest, P: PerfHint>(rec: &mut Recognizer<&DefaultGrammar, F, P>) {
    rec.begin_earleme();
    let sof = rec.grammar().sof();
    rec.scan(sof, 0);
    assert!(rec.end_earleme());
}

/// Reads tokens; returns how many were possible.
pub fn read<F: Forest, P: PerfHint>(g: &G, rec: &mut Recognizer<&DefaultGrammar, F, P>, text: &str) -> usize {
    for (i, c) in text.chars().enumerate() {
        rec.begin_earleme();
        rec.scan(g.int(c), c as u32);
        if !rec.end_earleme() {
            return i;
        }
    }
    text.chars().count()
}

/// The same with a truthful hint at every step.
pub fn read_hinted<F: Forest, P: PerfHint>(g: &G, rec: &mut Recognizer<&DefaultGrammar, F, P>, text: &str) -> usize {
    let t: Vec<char> = text.chars().collect();
    for i in 0..t.len() {
        rec.begin_earleme();
        let h = t.get(i + 1).map_or(g.gr.eof(), |&c| g.int(c));
        rec.lookahead().set_hint(h);
        rec.scan(g.int(t[i]), t[i] as u32);
        if !rec.end_earleme() {
            return i;
        }
    }
    t.len()
}

/// How many tokens are possible, and whether they are a sentence.
pub fn recognize(g: &G, text: &str) -> (usize, bool) {
    let mut rec = Recognizer::new(&g.gr);
    start(&mut rec);
    let n = read(g, &mut rec, text);
    (n, n == text.chars().count() && rec.is_finished())
}

pub struct Show<'a>(pub &'a G);

impl Evaluate for Show<'_> {
    type Elem = String;
    fn leaf(&self, _terminal: Symbol, value: u32) -> String {
        char::from_u32(value).unwrap().to_string()
    }
    fn product<'a>(&self, action: u32, args: impl Iterator<Item = &'a String>) -> String {
        let a: Vec<&str> = args.map(|s| &s[..]).collect();
        format!("{}({})", action, a.join(" "))
    }
    fn nulling(&self, symbol: Symbol, results: &mut Vec<String>) {
        results.push(format!("~{}", self.0.name(symbol)));
    }
}

/// The derivations of a sentence: rules by number, `~A` for an A of nothing.
pub fn trees(g: &G, text: &str) -> Vec<String> {
    let mut rec = Recognizer::with_forest(&g.gr, simple_bocage::Bocage::new(&g.gr));
    start(&mut rec);
    read(g, &mut rec, text);
    let node = rec.finished_node().expect("not a sentence");
    let mut t = rec.into_forest().evaluate(Show(g), node);
    t.sort();
    t
}

pub fn trees_compact(g: &G, text: &str) -> Vec<String> {
    let mut rec = Recognizer::with_forest(&g.gr, compact_bocage::Bocage::new(&g.gr));
    start(&mut rec);
    read(g, &mut rec, text);
    let node = rec.finished_node().expect("not a sentence");
    let mut t = rec.into_forest().evaluate(Show(g), node);
    t.sort();
    t
}
