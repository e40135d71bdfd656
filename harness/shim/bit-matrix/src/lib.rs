//! Stand-in for the `bit-matrix` crate (not available offline). Only the
//! interface that gearley uses, with the obvious semantics.
use std::fmt;
use std::ops::{Index, IndexMut, Range};

pub mod row {
    pub use crate::BitSlice;
}
pub mod block {
    pub type Block = u32;
    pub const BITS: usize = 32;
}
pub mod submatrix {
    pub use crate::BitSubMatrix;
}

const BITS: usize = 32;
static TRUE: bool = true;
static FALSE: bool = false;

fn blocks_for(bits: usize) -> usize {
    (bits + BITS - 1) / BITS
}

#[derive(serde::Serialize, serde::Deserialize, miniserde::Serialize, miniserde::Deserialize)]
#[derive(Clone, Default, PartialEq, Eq, Hash)]
pub struct BitMatrix {
    row_bits: usize,
    rows: usize,
    blocks: Vec<u32>,
}

/// A slice of bits backed by 32-bit blocks.
#[repr(transparent)]
#[derive(PartialEq, Eq)]
pub struct BitSlice {
    blocks: [u32],
}

impl BitSlice {
    fn new(b: &[u32]) -> &BitSlice {
        // SAFETY: repr(transparent) over [u32].
        unsafe { &*(b as *const [u32] as *const BitSlice) }
    }
    fn new_mut(b: &mut [u32]) -> &mut BitSlice {
        // SAFETY: repr(transparent) over [u32].
        unsafe { &mut *(b as *mut [u32] as *mut BitSlice) }
    }
    pub fn iter_blocks(&self) -> std::slice::Iter<'_, u32> {
        self.blocks.iter()
    }
    pub fn iter_blocks_mut(&mut self) -> std::slice::IterMut<'_, u32> {
        self.blocks.iter_mut()
    }
    pub fn get(&self, bit: usize) -> bool {
        assert!(bit / BITS < self.blocks.len(), "bit index out of range");
        (self.blocks[bit / BITS] >> (bit % BITS)) & 1 == 1
    }
    pub fn set(&mut self, bit: usize, enabled: bool) {
        let m = 1u32 << (bit % BITS);
        if enabled {
            self.blocks[bit / BITS] |= m;
        } else {
            self.blocks[bit / BITS] &= !m;
        }
    }
    pub fn iter_bits(&self, len: usize) -> impl Iterator<Item = bool> + '_ {
        (0..len).map(move |i| self.get(i))
    }
    pub fn small_slice_aligned(&self, offset: usize, len: u8) -> u32 {
        let mut r = 0;
        for i in 0..len as usize {
            if self.get(offset + i) {
                r |= 1 << i;
            }
        }
        r
    }
    pub fn any(&self) -> bool {
        self.blocks.iter().any(|&b| b != 0)
    }
    pub fn count_ones(&self) -> usize {
        self.blocks.iter().map(|b| b.count_ones() as usize).sum()
    }
}

impl Index<usize> for BitSlice {
    type Output = bool;
    fn index(&self, bit: usize) -> &bool {
        if self.get(bit) {
            &TRUE
        } else {
            &FALSE
        }
    }
}

impl fmt::Debug for BitSlice {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for b in &self.blocks {
            for i in 0..BITS {
                write!(f, "{}", (b >> i) & 1)?;
            }
        }
        Ok(())
    }
}

pub struct BitSubMatrix<'a> {
    row_bits: usize,
    blocks: &'a [u32],
}

impl<'a> fmt::Debug for BitSubMatrix<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let w = blocks_for(self.row_bits);
        if w == 0 {
            return Ok(());
        }
        for r in self.blocks.chunks(w) {
            for i in 0..self.row_bits {
                write!(f, "{}", (r[i / BITS] >> (i % BITS)) & 1)?;
            }
            writeln!(f)?;
        }
        Ok(())
    }
}

impl BitMatrix {
    pub fn new(rows: usize, row_bits: usize) -> Self {
        BitMatrix {
            row_bits,
            rows,
            blocks: vec![0; rows * blocks_for(row_bits)],
        }
    }
    fn w(&self) -> usize {
        blocks_for(self.row_bits)
    }
    fn range(&self, row: usize) -> Range<usize> {
        assert!(row < self.rows, "row index out of range");
        let w = self.w();
        row * w..(row + 1) * w
    }
    pub fn size(&self) -> (usize, usize) {
        (self.rows, self.row_bits)
    }
    pub fn num_rows(&self) -> usize {
        self.rows
    }
    pub fn num_cols(&self) -> usize {
        self.row_bits
    }
    pub fn is_empty(&self) -> bool {
        self.rows == 0
    }
    pub fn set(&mut self, row: usize, col: usize, enabled: bool) {
        assert!(col < self.row_bits, "column index out of range");
        self[row].set(col, enabled);
    }
    pub fn set_all(&mut self, enabled: bool) {
        let v = if enabled { !0 } else { 0 };
        for b in &mut self.blocks {
            *b = v;
        }
    }
    pub fn grow(&mut self, num_rows: usize, value: bool) {
        self.rows += num_rows;
        let v = if value { !0 } else { 0 };
        let w = self.w();
        self.blocks.resize(self.rows * w, v);
    }
    pub fn truncate(&mut self, num_rows: usize) {
        if num_rows < self.rows {
            self.rows = num_rows;
            let w = self.w();
            self.blocks.truncate(self.rows * w);
        }
    }
    pub fn clear(&mut self) {
        self.set_all(false);
    }
    pub fn sub_matrix(&self, range: Range<usize>) -> BitSubMatrix<'_> {
        let w = self.w();
        BitSubMatrix {
            row_bits: self.row_bits,
            blocks: &self.blocks[range.start * w..range.end * w],
        }
    }
    pub fn iter_row(&self, row: usize) -> impl Iterator<Item = bool> + '_ {
        let bits = self.row_bits;
        let r = &self[row];
        (0..bits).map(move |i| r.get(i))
    }
    pub fn transitive_closure(&mut self) {
        let n = self.rows.min(self.row_bits);
        let w = self.w();
        for k in 0..n {
            let src: Vec<u32> = self.blocks[k * w..(k + 1) * w].to_vec();
            for i in 0..self.rows {
                if self[i].get(k) {
                    for (d, s) in self.blocks[i * w..(i + 1) * w].iter_mut().zip(&src) {
                        *d |= *s;
                    }
                }
            }
        }
    }
    pub fn reflexive_closure(&mut self) {
        for i in 0..self.rows.min(self.row_bits) {
            self.set(i, i, true);
        }
    }
}

impl Index<usize> for BitMatrix {
    type Output = BitSlice;
    fn index(&self, row: usize) -> &BitSlice {
        BitSlice::new(&self.blocks[self.range(row)])
    }
}
impl IndexMut<usize> for BitMatrix {
    fn index_mut(&mut self, row: usize) -> &mut BitSlice {
        let r = self.range(row);
        BitSlice::new_mut(&mut self.blocks[r])
    }
}
impl Index<(usize, usize)> for BitMatrix {
    type Output = bool;
    fn index(&self, (row, col): (usize, usize)) -> &bool {
        assert!(col < self.row_bits, "column index out of range");
        &self[row][col]
    }
}
impl fmt::Debug for BitMatrix {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.sub_matrix(0..self.rows), f)
    }
}
