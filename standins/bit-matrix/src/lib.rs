//! Stand-in for the `bit-matrix` 0.9 crate (not available offline): a growable matrix of bits with row views.

use std::fmt;
use std::ops::{Index, IndexMut, Range};

pub type Block = u32;
const BITS: usize = 32;

static TRUE: bool = true;
static FALSE: bool = false;

pub mod row {
    use super::*;

    /// A row of bits, borrowed from a matrix.
    #[repr(transparent)]
    pub struct BitSlice {
        pub(crate) slice: [Block],
    }

    impl BitSlice {
        #[inline]
        pub fn new(slice: &[Block]) -> &BitSlice {
            // SAFETY: BitSlice is repr(transparent) over [Block].
            unsafe { &*(slice as *const [Block] as *const BitSlice) }
        }
        #[inline]
        pub fn new_mut(slice: &mut [Block]) -> &mut BitSlice {
            // SAFETY: BitSlice is repr(transparent) over [Block].
            unsafe { &mut *(slice as *mut [Block] as *mut BitSlice) }
        }
        #[inline]
        pub fn get(&self, bit: usize) -> bool {
            self.slice[bit / BITS] >> (bit % BITS) & 1 != 0
        }
        #[inline]
        pub fn set(&mut self, bit: usize, value: bool) {
            let m = 1 << (bit % BITS);
            if value {
                self.slice[bit / BITS] |= m;
            } else {
                self.slice[bit / BITS] &= !m;
            }
        }
        #[inline]
        pub fn iter_blocks(&self) -> std::slice::Iter<'_, Block> {
            self.slice.iter()
        }
        #[inline]
        pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, Block> {
            self.slice.iter_mut()
        }
        pub fn iter_bits(&self, len: usize) -> impl Iterator<Item = bool> + '_ {
            (0..len).map(move |i| self.get(i))
        }
        pub fn small_slice_aligned(&self, offset: usize, len: usize) -> u32 {
            self.slice[offset] & ((1u64 << len) - 1) as u32
        }
        pub fn any(&self) -> bool {
            self.slice.iter().any(|&b| b != 0)
        }
        pub fn none(&self) -> bool {
            !self.any()
        }
    }

    impl Index<usize> for BitSlice {
        type Output = bool;
        #[inline]
        fn index(&self, bit: usize) -> &bool {
            if self.get(bit) {
                &TRUE
            } else {
                &FALSE
            }
        }
    }

    impl fmt::Debug for BitSlice {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.debug_list().entries(self.slice.iter()).finish()
        }
    }
}

use row::BitSlice;

#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))]
#[cfg_attr(feature = "miniserde", derive(miniserde::Serialize, miniserde::Deserialize))]
#[derive(Clone, Default, PartialEq, Eq)]
pub struct BitMatrix {
    rows: usize,
    row_bits: usize,
    bits: Vec<Block>,
}

pub struct BitSubMatrix<'a> {
    row_blocks: usize,
    row_bits: usize,
    bits: &'a [Block],
}

fn blocks(bits: usize) -> usize {
    (bits + BITS - 1) / BITS
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix { rows, row_bits, bits: vec![0; rows * blocks(row_bits)] }
    }
    pub fn size(&self) -> (usize, usize) {
        (self.rows, self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.rows
    }
    pub fn num_cols(&self) -> usize {
        self.row_bits
    }
    pub fn is_empty(&self) -> bool {
        self.rows == 0
    }
    fn span(&self, row: usize) -> Range<usize> {
        assert!(row < self.rows, "row {} out of {} rows", row, self.rows);
        let b = blocks(self.row_bits);
        row * b..(row + 1) * b
    }
    pub fn set(&mut self, row: usize, col: usize, value: bool) {
        assert!(col < self.row_bits);
        self[row].set(col, value);
    }
    pub fn get(&self, row: usize, col: usize) -> bool {
        self[row].get(col)
    }
    pub fn set_all(&mut self, value: bool) {
        self.truncate_then_grow(value);
    }
    fn truncate_then_grow(&mut self, value: bool) {
        let rows = self.rows;
        self.truncate(0);
        self.grow(rows, value);
    }
    pub fn grow(&mut self, num_rows: usize, value: bool) {
        self.rows += num_rows;
        let len = self.rows * blocks(self.row_bits);
        self.bits.resize(len, if value { !0 } else { 0 });
    }
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.rows {
            self.rows = num_rows;
            self.bits.truncate(num_rows * blocks(self.row_bits));
        }
    }
    pub fn clear(&mut self) {
        for b in &mut self.bits {
            *b = 0;
        }
    }
    pub fn sub_matrix(&self, range: Range<usize>) -> BitSubMatrix<'_> {
        let b = blocks(self.row_bits);
        BitSubMatrix { row_blocks: b, row_bits: self.row_bits, bits: &self.bits[range.start * b..range.end * b] }
    }
    pub fn iter_row(&self, row: usize) -> impl Iterator<Item = bool> + '_ {
        let r = &self[row];
        (0..self.row_bits).map(move |i| r.get(i))
    }
    pub fn iter_rows(&self) -> impl Iterator<Item = &BitSlice> + '_ {
        (0..self.rows).map(move |i| &self[i])
    }
    pub fn transitive_closure(&mut self) {
        assert_eq!(self.rows, self.row_bits);
        let b = blocks(self.row_bits);
        for pos in 0..self.rows {
            let source: Vec<Block> = self[pos].slice.to_vec();
            for row in 0..self.rows {
                if self[row].get(pos) {
                    for (d, s) in self.bits[row * b..(row + 1) * b].iter_mut().zip(&source) {
                        *d |= s;
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.rows.min(self.row_bits) {
            self.set(i, i, true);
        }
    }
}

impl Index<usize> for BitMatrix {
    type Output = BitSlice;
    #[inline]
    fn index(&self, row: usize) -> &BitSlice {
        let s = self.span(row);
        BitSlice::new(&self.bits[s])
    }
}

impl IndexMut<usize> for BitMatrix {
    #[inline]
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        let s = self.span(row);
        BitSlice::new_mut(&mut self.bits[s])
    }
}

impl Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    #[inline]
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        assert!(col < self.row_bits);
        if self[row].get(col) {
            &TRUE
        } else {
            &FALSE
        }
    }
}

impl fmt::Debug for BitMatrix {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.sub_matrix(0..self.rows), f)
    }
}

impl<'a> BitSubMatrix<'a> {
    pub fn iter(&self) -> impl Iterator<Item = &'a BitSlice> + use<'a> {
        let bits = self.bits;
        let n = self.row_blocks.max(1);
        bits.chunks(n).map(BitSlice::new)
    }
}

impl fmt::Debug for BitSubMatrix<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for row in self.iter() {
            for i in 0..self.row_bits {
                f.write_str(if row.get(i) { "1" } else { "0" })?;
            }
            f.write_str("\n")?;
        }
        Ok(())
    }
}
