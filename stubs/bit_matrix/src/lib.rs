//! Stand-in for the `bit-matrix` crate (not available offline): the API gearley uses and its neighbours.
use cfg_symbol::Symbol;
use std::ops::{Index, IndexMut, Range, RangeFrom, RangeFull, RangeInclusive, RangeTo};

pub const BITS: usize = 32;
pub type Block = u32;
static TRUE: bool = true;
static FALSE: bool = false;

#[inline]
fn blocks(bits: usize) -> usize {
    (bits + BITS - 1) / BITS
}

#[derive(Clone, Debug, Default, PartialEq, Eq, miniserde::Serialize, miniserde::Deserialize, serde::Serialize, serde::Deserialize)]
pub struct BitMatrix {
    vec: Vec<Block>,
    rows: usize,
    row_bits: usize,
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix { vec: vec![0; rows * blocks(row_bits)], rows, row_bits }
    }
    #[inline]
    fn rb(&self) -> usize {
        blocks(self.row_bits)
    }
    pub fn size(&self) -> (usize, usize) {
        (self.rows, self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.rows
    }
    pub fn set(&mut self, row: usize, col: usize, on: bool) {
        assert!(col < self.row_bits && row < self.rows);
        let i = row * self.rb() + col / BITS;
        if on {
            self.vec[i] |= 1 << (col % BITS);
        } else {
            self.vec[i] &= !(1 << (col % BITS));
        }
    }
    pub fn grow(&mut self, num_rows: usize, value: bool) {
        self.rows += num_rows;
        let n = self.rows * self.rb();
        self.vec.resize(n, if value { !0 } else { 0 });
    }
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.rows {
            self.rows = num_rows;
            let n = self.rows * self.rb();
            self.vec.truncate(n);
        }
    }
    pub fn clear(&mut self) {
        self.vec.iter_mut().for_each(|b| *b = 0);
    }
    pub fn sub_matrix<R: RowRange>(&self, r: R) -> BitSubMatrix<'_> {
        let r = r.range(self.rows);
        let w = self.rb();
        BitSubMatrix { slice: &self.vec[r.start * w..r.end * w], row_bits: self.row_bits }
    }
    pub fn iter_row(&self, row: usize) -> Iter<'_> {
        self[row].iter_bits(self.row_bits)
    }
    pub fn transitive_closure(&mut self) {
        let n = self.rows.min(self.row_bits);
        let w = self.rb();
        for k in 0..n {
            for i in 0..self.rows {
                if i != k && self[(i, k)] {
                    for b in 0..w {
                        let v = self.vec[k * w + b];
                        self.vec[i * w + b] |= v;
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.rows.min(self.row_bits) {
            self.set(i, i, true);
        }
    }
}
pub trait RowRange {
    fn range(self, rows: usize) -> Range<usize>;
}
impl RowRange for Range<usize> {
    fn range(self, _: usize) -> Range<usize> {
        self
    }
}
impl RowRange for RangeFrom<usize> {
    fn range(self, rows: usize) -> Range<usize> {
        self.start..rows
    }
}
impl RowRange for RangeTo<usize> {
    fn range(self, _: usize) -> Range<usize> {
        0..self.end
    }
}
impl RowRange for RangeInclusive<usize> {
    fn range(self, _: usize) -> Range<usize> {
        *self.start()..*self.end() + 1
    }
}
impl RowRange for RangeFull {
    fn range(self, rows: usize) -> Range<usize> {
        0..rows
    }
}
impl Index<usize> for BitMatrix {
    type Output = row::BitSlice;
    #[inline]
    fn index(&self, row: usize) -> &row::BitSlice {
        let w = self.rb();
        row::BitSlice::new(&self.vec[row * w..(row + 1) * w])
    }
}
impl IndexMut<usize> for BitMatrix {
    #[inline]
    fn index_mut(&mut self, row: usize) -> &mut row::BitSlice {
        let w = self.rb();
        row::BitSlice::new_mut(&mut self.vec[row * w..(row + 1) * w])
    }
}
impl Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    fn index(&self, (r, c): (usize, usize)) -> &bool {
        assert!(c < self.row_bits);
        &self[r][c]
    }
}
impl Index<(Symbol, Symbol)> for BitMatrix {
    type Output = bool;
    fn index(&self, (r, c): (Symbol, Symbol)) -> &bool {
        &self[(r.usize(), c.usize())]
    }
}
#[derive(Clone, Debug)]
pub struct BitSubMatrix<'a> {
    slice: &'a [Block],
    row_bits: usize,
}
impl<'a> BitSubMatrix<'a> {
    pub fn iter(&self) -> impl Iterator<Item = &'a row::BitSlice> + 'a {
        self.slice.chunks(blocks(self.row_bits).max(1)).map(row::BitSlice::new)
    }
}
impl<'a> Index<usize> for BitSubMatrix<'a> {
    type Output = row::BitSlice;
    fn index(&self, row: usize) -> &row::BitSlice {
        let w = blocks(self.row_bits);
        row::BitSlice::new(&self.slice[row * w..(row + 1) * w])
    }
}
#[derive(Clone)]
pub struct Iter<'a> {
    s: &'a row::BitSlice,
    at: usize,
    end: usize,
}
impl<'a> Iterator for Iter<'a> {
    type Item = bool;
    fn next(&mut self) -> Option<bool> {
        if self.at >= self.end {
            return None;
        }
        self.at += 1;
        Some(self.s[self.at - 1])
    }
}

pub mod row {
    use super::*;
    #[derive(Debug, PartialEq, Eq)]
    #[repr(transparent)]
    pub struct BitSlice {
        slice: [Block],
    }
    impl BitSlice {
        #[inline]
        pub fn new(s: &[Block]) -> &Self {
            unsafe { &*(s as *const [Block] as *const BitSlice) }
        }
        #[inline]
        pub fn new_mut(s: &mut [Block]) -> &mut Self {
            unsafe { &mut *(s as *mut [Block] as *mut BitSlice) }
        }
        #[inline]
        pub fn get(&self, i: usize) -> bool {
            self.slice[i / BITS] >> (i % BITS) & 1 != 0
        }
        pub fn set(&mut self, i: usize, on: bool) {
            if on {
                self.slice[i / BITS] |= 1 << (i % BITS);
            } else {
                self.slice[i / BITS] &= !(1 << (i % BITS));
            }
        }
        #[inline]
        pub fn iter_blocks(&self) -> std::slice::Iter<'_, Block> {
            self.slice.iter()
        }
        #[inline]
        pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, Block> {
            self.slice.iter_mut()
        }
        pub fn iter_bits(&self, n: usize) -> Iter<'_> {
            Iter { s: self, at: 0, end: n }
        }
    }
    impl Index<usize> for BitSlice {
        type Output = bool;
        #[inline]
        fn index(&self, i: usize) -> &bool {
            if self.get(i) {
                &TRUE
            } else {
                &FALSE
            }
        }
    }
}
