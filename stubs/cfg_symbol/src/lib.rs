//! Stand-in for the `cfg-symbol` crate (not available offline): the API gearley uses.
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::fmt;
use std::num::NonZero;

pub trait SymbolPrimitive: Copy + Ord + fmt::Debug + std::hash::Hash {
    fn from_index(i: u32) -> Self;
    fn index(self) -> u32;
}
impl SymbolPrimitive for NonZero<u32> {
    #[inline]
    fn from_index(i: u32) -> Self {
        NonZero::new(i + 1).expect("symbol overflow")
    }
    #[inline]
    fn index(self) -> u32 {
        self.get() - 1
    }
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZero<u32>>(T);

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize {
        self.0.index() as usize
    }
    #[inline]
    pub fn from_raw(i: u32) -> Self {
        Symbol(T::from_index(i))
    }
    pub fn first() -> Self {
        Self::from_raw(0)
    }
}
impl<T: SymbolPrimitive> Default for Symbol<T> {
    fn default() -> Self {
        Self::from_raw(0)
    }
}
impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Symbol({})", self.usize())
    }
}
impl From<u32> for Symbol {
    fn from(i: u32) -> Self {
        Self::from_raw(i)
    }
}
impl miniserde::Serialize for Symbol {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(self.usize() as u64)
    }
}
miniserde::make_place!(Place);
impl miniserde::de::Visitor for Place<Symbol> {
    fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
        if n >= u32::MAX as u64 {
            return Err(miniserde::Error);
        }
        self.out = Some(Symbol::from_raw(n as u32));
        Ok(())
    }
}
impl miniserde::Deserialize for Symbol {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        Place::new(out)
    }
}
impl serde::Serialize for Symbol {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        (self.usize() as u32).serialize(s)
    }
}
impl<'de> serde::Deserialize<'de> for Symbol {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u32::deserialize(d).map(Symbol::from_raw)
    }
}

pub type SymbolName = Cow<'static, str>;

/// Hands out consecutive symbols.
#[derive(Clone, Debug)]
pub struct SymbolSource<T: SymbolPrimitive = NonZero<u32>> {
    next: u32,
    names: Vec<Option<SymbolName>>,
    _t: std::marker::PhantomData<T>,
}
impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn new() -> Self {
        SymbolSource { next: 0, names: Vec::new(), _t: std::marker::PhantomData }
    }
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> Symbol<T> {
        let s = Symbol::from_raw(self.next);
        self.next += 1;
        self.names.push(name);
        s
    }
    pub fn num_syms(&self) -> usize {
        self.next as usize
    }
    pub fn generate_fresh() -> impl Iterator<Item = Symbol<T>> {
        (0..).map(Symbol::from_raw)
    }
    pub fn generate(&self) -> impl Iterator<Item = Symbol<T>> {
        (0..self.next).map(Symbol::from_raw)
    }
    pub fn names(&self) -> Vec<Option<SymbolName>> {
        self.names.clone()
    }
    pub fn set_names(&mut self, names: Vec<Option<SymbolName>>) {
        self.next = names.len() as u32;
        self.names = names;
    }
    pub fn name_map(&self) -> NameMap<T> {
        NameMap(self.names.iter().enumerate().filter_map(|(i, n)| n.clone().map(|n| (n, Symbol::from_raw(i as u32)))).collect())
    }
}
impl<T: SymbolPrimitive> Default for SymbolSource<T> {
    fn default() -> Self {
        Self::new()
    }
}
#[derive(Clone, Debug)]
pub struct NameMap<T: SymbolPrimitive = NonZero<u32>>(BTreeMap<SymbolName, Symbol<T>>);
impl<T: SymbolPrimitive> NameMap<T> {
    pub fn get(&self, name: &str) -> Option<&Symbol<T>> {
        self.0.get(name)
    }
}

pub mod intern {
    use super::Symbol;
    #[derive(Clone, Debug, Default, miniserde::Serialize, miniserde::Deserialize, serde::Serialize, serde::Deserialize)]
    pub struct Mapping {
        pub to_internal: Vec<Option<Symbol>>,
        pub to_external: Vec<Symbol>,
    }
}
