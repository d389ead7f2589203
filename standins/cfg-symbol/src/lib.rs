//! Stand-in for pczarn/cfg's `cfg-symbol` crate (not available offline): grammar symbols as dense numbers.

use std::fmt;
use std::hash::Hash;
use std::num::{NonZeroU16, NonZeroU32, NonZeroU8};

/// Integer types that can stand behind a symbol.
pub trait SymbolPrimitive: Copy + Ord + Eq + Hash + fmt::Debug + 'static {
    fn to_index(self) -> usize;
    fn from_index(index: usize) -> Self;
}

macro_rules! primitive {
    ($t:ty, $p:ty) => {
        impl SymbolPrimitive for $t {
            #[inline]
            fn to_index(self) -> usize {
                self.get() as usize - 1
            }
            #[inline]
            fn from_index(index: usize) -> Self {
                <$t>::new((index + 1) as $p).expect("symbol out of range")
            }
        }
    };
}
primitive!(NonZeroU32, u32);
primitive!(NonZeroU16, u16);
primitive!(NonZeroU8, u8);

#[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd, Hash)]
pub struct Symbol<T: SymbolPrimitive = NonZeroU32> {
    n: T,
}

impl<T: SymbolPrimitive> Symbol<T> {
    #[inline]
    pub fn usize(self) -> usize {
        self.n.to_index()
    }
    #[inline]
    pub fn from_raw(index: u32) -> Self {
        Symbol { n: T::from_index(index as usize) }
    }
    #[inline]
    pub fn first() -> Self {
        Self::from_raw(0)
    }
}

impl<T: SymbolPrimitive> Default for Symbol<T> {
    fn default() -> Self {
        Self::from_raw(0)
    }
}

impl<T: SymbolPrimitive> fmt::Debug for Symbol<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Symbol({})", self.usize())
    }
}

impl<T: SymbolPrimitive> From<Symbol<T>> for usize {
    fn from(s: Symbol<T>) -> usize {
        s.usize()
    }
}

impl<T: SymbolPrimitive> From<Symbol<T>> for u32 {
    fn from(s: Symbol<T>) -> u32 {
        s.usize() as u32
    }
}

impl<T: SymbolPrimitive> From<usize> for Symbol<T> {
    fn from(i: usize) -> Self {
        Self::from_raw(i as u32)
    }
}

impl<T: SymbolPrimitive> From<u32> for Symbol<T> {
    fn from(i: u32) -> Self {
        Self::from_raw(i)
    }
}

#[cfg(feature = "serde")]
mod with_serde {
    use super::*;
    impl<T: SymbolPrimitive> serde::Serialize for Symbol<T> {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_u32(self.usize() as u32)
        }
    }
    impl<'de, T: SymbolPrimitive> serde::Deserialize<'de> for Symbol<T> {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let raw = u32::deserialize(d)?;
            if raw == u32::MAX {
                return Err(serde::de::Error::custom("symbol out of range"));
            }
            Ok(Self::from_raw(raw))
        }
    }
}

#[cfg(feature = "miniserde")]
mod with_miniserde {
    use super::*;
    use miniserde::de::{Map, Seq, Visitor};
    use miniserde::make_place;
    make_place!(Place);
    impl<T: SymbolPrimitive> miniserde::Serialize for Symbol<T> {
        fn begin(&self) -> miniserde::ser::Fragment<'_> {
            miniserde::ser::Fragment::U64(self.usize() as u64)
        }
    }
    impl<T: SymbolPrimitive> Visitor for Place<Symbol<T>> {
        fn nonnegative(&mut self, n: u64) -> miniserde::Result<()> {
            if n >= u32::MAX as u64 {
                return Err(miniserde::Error);
            }
            self.out = Some(Symbol::from_raw(n as u32));
            Ok(())
        }
        fn seq(&mut self) -> miniserde::Result<Box<dyn Seq + '_>> {
            Err(miniserde::Error)
        }
        fn map(&mut self) -> miniserde::Result<Box<dyn Map + '_>> {
            Err(miniserde::Error)
        }
    }
    impl<T: SymbolPrimitive> miniserde::Deserialize for Symbol<T> {
        fn begin(out: &mut Option<Self>) -> &mut dyn Visitor {
            Place::new(out)
        }
    }
}

#[derive(Clone, Debug)]
pub struct SymbolName {
    pub name: std::rc::Rc<str>,
}

/// Source of fresh symbols.
#[derive(Clone, Debug, Default)]
pub struct SymbolSource<T: SymbolPrimitive = NonZeroU32> {
    next: usize,
    names: Vec<Option<SymbolName>>,
    marker: std::marker::PhantomData<T>,
}

impl<T: SymbolPrimitive> SymbolSource<T> {
    pub fn new() -> Self {
        SymbolSource { next: 0, names: vec![], marker: std::marker::PhantomData }
    }
    pub fn num_syms(&self) -> usize {
        self.next
    }
    pub fn next_sym(&mut self, name: Option<std::borrow::Cow<str>>) -> Symbol<T> {
        let s = Symbol::from_raw(self.next as u32);
        self.next += 1;
        self.names.push(name.map(|n| SymbolName { name: (&*n).into() }));
        s
    }
    pub fn sym<const N: usize>(&mut self) -> [Symbol<T>; N] {
        std::array::from_fn(|_| self.next_sym(None))
    }
    pub fn with_names<const N: usize>(&mut self, names: [Option<&str>; N]) -> [Symbol<T>; N] {
        names.map(|n| self.next_sym(n.map(|n| n.into())))
    }
    pub fn generate(&mut self) -> impl Iterator<Item = Symbol<T>> + '_ {
        std::iter::repeat_with(move || self.next_sym(None))
    }
    pub fn name_of(&self, sym: Symbol<T>) -> Option<SymbolName> {
        self.names.get(sym.usize()).cloned().flatten()
    }
    pub fn names(&self) -> Vec<Option<SymbolName>> {
        self.names.clone()
    }
    pub fn name_map(&self) -> std::collections::BTreeMap<String, Symbol<T>> {
        let mut m = std::collections::BTreeMap::new();
        for (i, n) in self.names.iter().enumerate() {
            if let Some(n) = n {
                m.insert(n.name.to_string(), Symbol::from_raw(i as u32));
            }
        }
        m
    }
    /// For the remapping of symbols: forgets all and starts over with `n` unnamed ones.
    pub fn truncate_to(&mut self, names: Vec<Option<SymbolName>>) {
        self.next = names.len();
        self.names = names;
    }
}

impl SymbolSource {
    /// All symbols in order, starting with the first.
    pub fn generate_fresh() -> impl Iterator<Item = Symbol> + Clone {
        (0u32..).map(Symbol::from_raw)
    }
}

pub mod intern {
    use super::Symbol;

    #[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
    #[cfg_attr(feature = "miniserde", derive(miniserde::Serialize, miniserde::Deserialize))]
    #[derive(Clone, Debug, Default)]
    pub struct Mapping {
        pub to_internal: Vec<Option<Symbol>>,
        pub to_external: Vec<Symbol>,
    }

    impl Mapping {
        pub fn new(num_external: usize) -> Self {
            Mapping { to_internal: vec![None; num_external], to_external: vec![] }
        }
    }
}
