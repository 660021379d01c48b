//! Stand-in for the crate `integeriser` (https://github.com/tud-fop/rust-integeriser),
//! which is a git dependency of rustomata that is not available offline.
//! It offers the part of that crate's interface which rustomata uses, with the same
//! contract: values get the numbers 0, 1, 2, … in the order of their first `integerise`.
#[macro_use]
extern crate serde_derive;
extern crate serde;

use std::collections::HashMap;
use std::hash::Hash;

pub trait Integeriser {
    type Item;

    fn new() -> Self;
    fn integerise(&mut self, value: Self::Item) -> usize;
    fn find_value(&self, key: usize) -> Option<&Self::Item>;
    fn find_key(&self, value: &Self::Item) -> Option<usize>;
    fn size(&self) -> usize;
    fn values(&self) -> &Vec<Self::Item>;
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct HashIntegeriser<A: Eq + Hash> {
    map: HashMap<A, usize>,
    rmap: Vec<A>,
}

impl<A: Eq + Hash> Default for HashIntegeriser<A> {
    fn default() -> Self {
        HashIntegeriser {
            map: HashMap::new(),
            rmap: Vec::new(),
        }
    }
}

impl<A: Clone + Eq + Hash> Integeriser for HashIntegeriser<A> {
    type Item = A;

    fn new() -> Self {
        Self::default()
    }

    fn integerise(&mut self, value: A) -> usize {
        if let Some(&key) = self.map.get(&value) {
            return key;
        }
        let key = self.rmap.len();
        self.rmap.push(value.clone());
        self.map.insert(value, key);
        key
    }

    fn find_value(&self, key: usize) -> Option<&A> {
        self.rmap.get(key)
    }

    fn find_key(&self, value: &A) -> Option<usize> {
        self.map.get(value).cloned()
    }

    fn size(&self) -> usize {
        self.rmap.len()
    }

    fn values(&self) -> &Vec<A> {
        &self.rmap
    }
}
