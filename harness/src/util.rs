//! Enumeration helpers shared by the checks.

use aws_smt_strings::character_sets::*;
use aws_smt_strings::smt_strings::SmtString;

pub const MAX: u32 = 0x2FFFF;

/// A partition of the whole alphabet [0, MAX] in consecutive cells. cell i is
/// [start[i], start[i+1]-1] (the last one ends at MAX).
#[derive(Clone, Debug)]
pub struct Layout {
    pub name: &'static str,
    pub start: Vec<u32>,
}

impl Layout {
    pub fn new(name: &'static str, start: Vec<u32>) -> Layout {
        assert!(start[0] == 0);
        for i in 1..start.len() {
            assert!(start[i - 1] < start[i] && start[i] <= MAX);
        }
        Layout { name, start }
    }
    pub fn n(&self) -> usize {
        self.start.len()
    }
    pub fn lo(&self, i: usize) -> u32 {
        self.start[i]
    }
    pub fn hi(&self, i: usize) -> u32 {
        if i + 1 < self.start.len() {
            self.start[i + 1] - 1
        } else {
            MAX
        }
    }
    /// representatives of cell i: first, last, and a middle element
    pub fn reps(&self, i: usize) -> Vec<u32> {
        let (a, b) = (self.lo(i), self.hi(i));
        let mut v = vec![a];
        if b > a + 1 {
            v.push(a + (b - a) / 2);
        }
        if b > a {
            v.push(b);
        }
        v
    }
    pub fn all_reps(&self) -> Vec<(u32, usize)> {
        let mut v = vec![];
        for i in 0..self.n() {
            for c in self.reps(i) {
                v.push((c, i));
            }
        }
        v
    }
    pub fn set(&self, i: usize, j: usize) -> CharSet {
        CharSet::range(self.lo(i), self.hi(j))
    }
    #[allow(dead_code)]
    pub fn cell_of(&self, c: u32) -> usize {
        match self.start.binary_search(&c) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
}

/// Several layouts with w cells: packed against both ends of the alphabet, around critical
/// code points, and evenly spread
pub fn layouts(w: usize) -> Vec<Layout> {
    let w32 = w as u32;
    let mut v = vec![];
    v.push(Layout::new("low", (0..w32).collect()));
    v.push(Layout::new(
        "high",
        std::iter::once(0)
            .chain((1..w32).map(|i| MAX + 1 - w32 + i))
            .collect(),
    ));
    v.push(Layout::new(
        "even",
        (0..w32).map(|i| i * ((MAX + 1) / w32)).collect(),
    ));
    let crit = [
        0x1u32, 0x20, 0x22, 0x7F, 0x80, 0x100, 0xD7FF, 0xD800, 0xE000, 0x10000, 0x20000, 0x2FFFE, 0x2FFFF,
    ];
    v.push(Layout::new(
        "critical",
        std::iter::once(0)
            .chain(crit.iter().rev().take(w - 1).rev().copied())
            .collect(),
    ));
    v.push(Layout::new(
        "mid",
        std::iter::once(0)
            .chain((1..w32).map(|i| 0x61 + (i - 1)))
            .collect(),
    ));
    v
}

/// All partitions of w cells: each is a list of disjoint intervals of cells (i, j), in order.
/// Cells in no interval form the complementary class. Adjacent intervals are possible.
pub fn cell_partitions(w: usize) -> Vec<Vec<(usize, usize)>> {
    fn go(i: usize, w: usize, cur: &mut Vec<(usize, usize)>, out: &mut Vec<Vec<(usize, usize)>>) {
        if i == w {
            out.push(cur.clone());
            return;
        }
        // cell i in the complement
        go(i + 1, w, cur, out);
        // an interval starting at i
        for j in i..w {
            cur.push((i, j));
            go(j + 1, w, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(0, w, &mut vec![], &mut out);
    out
}

pub fn partition_by_push(l: &Layout, p: &[(usize, usize)]) -> CharPartition {
    let mut r = CharPartition::new();
    for &(i, j) in p {
        r.push(l.lo(i), l.hi(j));
    }
    r
}

/// class of each cell in a cell partition (None = complement)
pub fn cell_classes(w: usize, p: &[(usize, usize)]) -> Vec<Option<usize>> {
    let mut v = vec![None; w];
    for (k, &(i, j)) in p.iter().enumerate() {
        for x in v.iter_mut().take(j + 1).skip(i) {
            *x = Some(k);
        }
    }
    v
}

/// All permutations of 0..n
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn go(n: usize, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        for i in 0..n {
            if !cur.contains(&i) {
                cur.push(i);
                go(n, cur, out);
                cur.pop();
            }
        }
    }
    let mut out = vec![];
    go(n, &mut vec![], &mut out);
    out
}

/// decode index i as a sequence over k symbols; sequences are ordered by length
pub fn seq_count(k: u64, max_len: u32) -> u64 {
    (0..=max_len).map(|l| k.pow(l)).sum()
}

pub fn seq_decode(k: u64, mut i: u64) -> Vec<usize> {
    let mut len = 0;
    let mut n = 1u64;
    while i >= n {
        i -= n;
        len += 1;
        n *= k;
    }
    let mut v = vec![0usize; len];
    for x in v.iter_mut().rev() {
        *x = (i % k) as usize;
        i /= k;
    }
    v
}

/// mixed radix decoding, first component most significant
pub fn radix(mut i: u64, sizes: &[u64]) -> Vec<usize> {
    let mut v = vec![0usize; sizes.len()];
    for (k, &s) in sizes.iter().enumerate().rev() {
        v[k] = (i % s) as usize;
        i /= s;
    }
    v
}

pub fn smt(v: &[u32]) -> SmtString {
    SmtString::from(v)
}

pub fn content(s: &SmtString) -> Vec<u32> {
    s.iter().copied().collect()
}

pub fn show(v: &[u32]) -> String {
    let mut s = String::from("<");
    for (i, &c) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        if (0x21..0x7F).contains(&c) {
            s.push(char::from_u32(c).unwrap());
        } else {
            s.push_str(&format!("0x{:X}", c));
        }
    }
    s.push('>');
    s
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err(format!($($arg)*));
        }
    };
}
