//! Stand-in for the `cfg-load` crate: a grammar with a character lexer.
pub mod advanced {
    use cfg::{Cfg, Symbol};
    use std::collections::BTreeMap;

    #[derive(Clone, Debug)]
    pub struct AdvancedGrammar {
        pub cfg: Cfg,
        pub lexer_map: LexerMap,
    }
    /// Which terminals a character may be read as.
    #[derive(Clone, Debug, Default)]
    pub struct LexerMap {
        ranges: Vec<(char, char, Symbol)>,
        computed: bool,
        table: BTreeMap<char, Vec<Symbol>>,
    }
    impl LexerMap {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn insert(&mut self, lo: char, hi: char, sym: Symbol) {
            self.ranges.push((lo, hi, sym));
        }
        pub fn compute(&mut self) {
            self.table.clear();
            for &(lo, hi, sym) in &self.ranges {
                for c in lo..=hi {
                    self.table.entry(c).or_default().push(sym);
                }
            }
            self.computed = true;
        }
        pub fn get(&self, ch: char) -> &[Symbol] {
            assert!(self.computed, "the lexer map was not computed");
            self.table.get(&ch).map_or(&[], |v| &v[..])
        }
    }
}
