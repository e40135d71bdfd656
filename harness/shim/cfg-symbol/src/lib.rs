//! Stand-in for `cfg-symbol` (not available offline).
use std::collections::BTreeMap;
use std::fmt;
use std::marker::PhantomData;
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};
use std::rc::Rc;

pub trait SymbolPrimitive: Copy + Ord + Eq + std::hash::Hash + fmt::Debug {
    fn from_index(i: usize) -> Self;
    fn index(self) -> usize;
}
macro_rules! prim {
    ($($t:ty, $p:ty);*) => { $(impl SymbolPrimitive for $t {
        fn from_index(i: usize) -> Self { <$t>::new((i + 1) as $p).unwrap() }
        fn index(self) -> usize { self.get() as usize - 1 }
    })* };
}
prim!(NonZeroU32, u32; NonZeroU16, u16; NonZeroU8, u8);

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZeroU32> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    pub fn usize(self) -> usize {
        self.n.index()
    }
    pub fn first() -> Self {
        Symbol { n: T::from_index(0) }
    }
    pub fn from_index(i: usize) -> Self {
        Symbol { n: T::from_index(i) }
    }
}
impl Symbol {
    /// Inverse of `usize()`.
    pub fn from_raw(n: u32) -> Self {
        Symbol {
            n: NonZeroU32::new(n.wrapping_add(1)).expect("symbol out of range"),
        }
    }
}
impl<T: SymbolPrimitive> Default for Symbol<T> {
    fn default() -> Self {
        Self::first()
    }
}
impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Symbol({})", self.usize())
    }
}
impl<T: SymbolPrimitive> From<Symbol<T>> for usize {
    fn from(s: Symbol<T>) -> usize {
        s.usize()
    }
}

impl serde::Serialize for Symbol {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u32(self.n.get())
    }
}
impl<'de> serde::Deserialize<'de> for Symbol {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let n = <u32 as serde::Deserialize>::deserialize(d)?;
        NonZeroU32::new(n)
            .map(|n| Symbol { n })
            .ok_or_else(|| serde::de::Error::custom("zero symbol"))
    }
}
impl miniserde::Serialize for Symbol {
    fn begin(&self) -> miniserde::ser::Fragment<'_> {
        miniserde::ser::Fragment::U64(self.n.get() as u64)
    }
}
miniserde::make_place!(Place);
impl miniserde::de::Visitor for Place<Symbol> {
    fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
        match u32::try_from(n).ok().and_then(NonZeroU32::new) {
            Some(n) => {
                self.out = Some(Symbol { n });
                Ok(())
            }
            None => Err(miniserde::Error),
        }
    }
}
impl miniserde::Deserialize for Symbol {
    fn begin(out: &mut Option<Self>) -> &mut dyn miniserde::de::Visitor {
        Place::new(out)
    }
}

pub type SymbolName = Rc<str>;

#[derive(Clone, Debug)]
pub struct SymbolSource<T: SymbolPrimitive = NonZeroU32> {
    names: Vec<Option<SymbolName>>,
    marker: PhantomData<T>,
}
impl<T: SymbolPrimitive> Default for SymbolSource<T> {
    fn default() -> Self {
        SymbolSource {
            names: vec![],
            marker: PhantomData,
        }
    }
}
impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn generate_fresh() -> Generate<T> {
        Generate {
            next: 0,
            marker: PhantomData,
        }
    }
    pub fn next_sym(&mut self, name: Option<SymbolName>) -> Symbol<T> {
        let s = Symbol::from_index(self.names.len());
        self.names.push(name);
        s
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol<T>; N] {
        std::array::from_fn(|_| self.next_sym(None))
    }
    pub fn with_names<'a, const N: usize>(
        &mut self,
        names: [Option<&'a str>; N],
    ) -> [Symbol<T>; N] {
        std::array::from_fn(|i| self.next_sym(names[i].map(|s| s.into())))
    }
    pub fn num_syms(&self) -> usize {
        self.names.len()
    }
    pub fn names(&self) -> Vec<Option<SymbolName>> {
        self.names.clone()
    }
    pub fn name_of(&self, s: Symbol<T>) -> Option<SymbolName> {
        self.names.get(s.usize()).cloned().flatten()
    }
    pub fn name_map(&self) -> BTreeMap<SymbolName, Symbol<T>> {
        self.names
            .iter()
            .enumerate()
            .filter_map(|(i, n)| n.clone().map(|n| (n, Symbol::from_index(i))))
            .collect()
    }
    pub fn set_names(&mut self, names: Vec<Option<SymbolName>>) {
        self.names = names;
    }
    pub fn generate(&self) -> impl Iterator<Item = Symbol<T>> {
        Self::generate_fresh().take(self.names.len())
    }
}
#[derive(Clone, Debug)]
pub struct Generate<T: SymbolPrimitive = NonZeroU32> {
    next: usize,
    marker: PhantomData<T>,
}
impl<T: SymbolPrimitive> Iterator for Generate<T> {
    type Item = Symbol<T>;
    fn next(&mut self) -> Option<Symbol<T>> {
        let s = Symbol::from_index(self.next);
        self.next += 1;
        Some(s)
    }
}

pub mod intern {
    use super::Symbol;
    #[derive(serde::Serialize, serde::Deserialize)]
    #[derive(miniserde::Serialize, miniserde::Deserialize)]
    #[derive(Clone, Default, Debug, PartialEq, Eq)]
    pub struct Mapping {
        pub to_internal: Vec<Option<Symbol>>,
        pub to_external: Vec<Symbol>,
    }
    impl Mapping {
        pub fn new(n: usize) -> Self {
            Mapping {
                to_internal: vec![None; n],
                to_external: vec![],
            }
        }
    }
}
