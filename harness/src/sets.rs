//! C20 (CharSet algebra), C11 (CharPartition queries), C12 (merge).

use crate::ensure;
use crate::fams::{char_sample, char_sample_text};
use crate::rt::*;
use crate::util::*;
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::*;
use std::cmp::Ordering;

// ---------------------------------------------------------------- C20

/// Points p_0 < p_1 < ... ; the elementary cells are the points and the gaps between them.
/// A set whose bounds are points is a bitset over these cells, and set algebra on bitsets
/// is the reference.
struct Cells {
    points: Vec<u32>,
    /// (first, last) of each cell
    cells: Vec<(u32, u32)>,
    /// cell index of point k
    idx: Vec<usize>,
}

type Bits = [u64; 8];

impl Cells {
    fn new(mut points: Vec<u32>) -> Cells {
        points.sort();
        points.dedup();
        let mut cells = vec![];
        let mut idx = vec![];
        let mut next = 0u32;
        for &p in &points {
            if p > next {
                cells.push((next, p - 1));
            }
            idx.push(cells.len());
            cells.push((p, p));
            next = p + 1;
        }
        if next <= MAX {
            cells.push((next, MAX));
        }
        assert!(cells.len() <= 512);
        Cells { points, cells, idx }
    }
    fn bits(&self, i: usize, j: usize) -> Bits {
        let mut b = [0u64; 8];
        for c in self.idx[i]..=self.idx[j] {
            b[c / 64] |= 1 << (c % 64);
        }
        b
    }
    fn size(&self, b: &Bits) -> u64 {
        self.cells
            .iter()
            .enumerate()
            .filter(|(i, _)| b[i / 64] >> (i % 64) & 1 == 1)
            .map(|(_, c)| (c.1 - c.0) as u64 + 1)
            .sum()
    }
    /// Some((first, last)) if the non-empty set is an interval
    fn interval(&self, b: &Bits) -> Option<(u32, u32)> {
        let mut first = None;
        let mut last = None;
        let mut n = 0;
        for i in 0..self.cells.len() {
            if b[i / 64] >> (i % 64) & 1 == 1 {
                if first.is_none() {
                    first = Some(i);
                }
                last = Some(i);
                n += 1;
            }
        }
        match (first, last) {
            (Some(f), Some(l)) if l - f + 1 == n => Some((self.cells[f].0, self.cells[l].1)),
            _ => None,
        }
    }
    fn intervals(&self) -> Vec<(usize, usize)> {
        let n = self.points.len();
        let mut v = vec![];
        for i in 0..n {
            for j in i..n {
                v.push((i, j));
            }
        }
        v
    }
    fn set(&self, iv: (usize, usize)) -> CharSet {
        CharSet::range(self.points[iv.0], self.points[iv.1])
    }
    /// does s contain exactly the cells of b?
    fn same(&self, s: &CharSet, b: &Bits) -> bool {
        self.cells.iter().enumerate().all(|(i, c)| {
            let e = b[i / 64] >> (i % 64) & 1 == 1;
            s.contains(c.0) == e && s.contains(c.1) == e && s.contains(c.0 + (c.1 - c.0) / 2) == e
        })
    }
}

fn band(a: &Bits, b: &Bits) -> Bits {
    let mut r = [0; 8];
    for i in 0..8 {
        r[i] = a[i] & b[i];
    }
    r
}
fn bor(a: &Bits, b: &Bits) -> Bits {
    let mut r = [0; 8];
    for i in 0..8 {
        r[i] = a[i] | b[i];
    }
    r
}

fn critical() -> Vec<u32> {
    vec![
        0x20, 0x7E, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD,
        0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000,
    ]
}

fn points(low: u32, high: u32, crit: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..low).collect();
    v.extend((0..high).map(|i| MAX - i));
    if crit {
        v.extend(critical());
    }
    v
}

pub fn c20(ctx: &Ctx) {
    let t = ctx.tier;
    // singletons / one set at a time: all characters of the alphabet against every set
    let cells = Cells::new(points(4, 4, true));
    let ivs = cells.intervals();
    let nsets = ivs.len() as u64;
    ctx.indexed(
        "unary-sweep",
        "every interval over 26 critical points; contains/is_before/is_after for all 196608 characters (thorough) or all characters within 2 of a critical point and 1/64 of the others (quick)",
        nsets,
        4,
        |w, i| {
            let iv = ivs[i as usize];
            let (a, b) = (cells.points[iv.0], cells.points[iv.1]);
            w.case(
                i,
                || format!("CharSet [{:#x},{:#x}] single-set queries", a, b),
                |st| {
                    let s = CharSet::range(a, b);
                    st.states += 1;
                    let mut count = 0u64;
                    let mut visit = |c: u32| -> Result<(), String> {
                        st.transitions += 1;
                        let inside = c >= a && c <= b;
                        ensure!(s.contains(c) == inside, "contains({:#x}) = {}", c, !inside);
                        ensure!(s.is_before(c) == (b < c), "is_before({:#x}) wrong", c);
                        ensure!(s.is_after(c) == (a > c), "is_after({:#x}) wrong", c);
                        if inside {
                            count += 1;
                        }
                        Ok(())
                    };
                    if t.thorough() {
                        for c in 0..=MAX {
                            visit(c)?;
                        }
                        ensure!(count == s.size() as u64, "size() = {}, members {}", s.size(), count);
                    } else {
                        for c in (0..=MAX).step_by(61) {
                            visit(c)?;
                        }
                        for &p in &cells.points {
                            for d in -2i64..=2 {
                                let c = p as i64 + d;
                                if c >= 0 && c <= MAX as i64 {
                                    visit(c as u32)?;
                                }
                            }
                        }
                    }
                    let bits = cells.bits(iv.0, iv.1);
                    ensure!(s.size() as u64 == cells.size(&bits), "size() = {}", s.size());
                    ensure!(s.is_singleton() == (a == b), "is_singleton() wrong");
                    ensure!(s.is_alphabet() == (a == 0 && b == MAX), "is_alphabet() wrong");
                    let p = s.pick();
                    ensure!(p >= a && p <= b, "pick() = {:#x} is not a member", p);
                    ensure!(CharSet::inter_list(&[s]) == Some(s), "inter_list of one set");
                    if a == b {
                        ensure!(CharSet::singleton(a) == s, "singleton");
                    }
                    Ok(())
                },
            );
        },
    );
    ctx.indexed("constants", "alphabet, empty inter_list, every singleton", 1, 1, |w, i| {
        w.case(i, || "constants".into(), |st| {
            let all = CharSet::all_chars();
            ensure!(all == CharSet::range(0, MAX), "all_chars is not [0, MAX]");
            ensure!(all.is_alphabet() && all.size() == MAX + 1, "all_chars");
            ensure!(CharSet::inter_list(&[]) == Some(all), "inter_list([]) is not the alphabet");
            for c in 0..=MAX {
                st.transitions += 1;
                let s = CharSet::singleton(c);
                ensure!(
                    s.is_singleton() && s.size() == 1 && s.pick() == c && s.contains(c)
                        && !s.is_alphabet() && all.covers(&s) && !s.covers(&all)
                        && s.inter(&all) == Some(s) && s.union(&all) == Some(all)
                        && !s.is_before(c) && !s.is_after(c)
                        && (c == 0 || (s.is_after(c - 1) && !s.contains(c - 1)))
                        && (c == MAX || (s.is_before(c + 1) && !s.contains(c + 1))),
                    "singleton {:#x}", c
                );
                if c > 0 {
                    let p = CharSet::singleton(c - 1);
                    ensure!(s.union(&p) == Some(CharSet::range(c - 1, c)), "union of {:#x} and its predecessor", c);
                    ensure!(p.union(&s) == Some(CharSet::range(c - 1, c)), "union of {:#x} and its predecessor", c);
                    ensure!(p.inter(&s).is_none(), "inter");
                }
                if c > 1 {
                    let p = CharSet::singleton(c - 2);
                    ensure!(s.union(&p).is_none() && p.union(&s).is_none(), "union with a gap at {:#x}", c);
                }
            }
            Ok(())
        });
    });

    // all pairs
    let cells = Cells::new(points(t.pick(36, 60), t.pick(36, 60), true));
    let ivs = cells.intervals();
    let n = ivs.len() as u64;
    let bits: Vec<Bits> = ivs.iter().map(|&(i, j)| cells.bits(i, j)).collect();
    let pairs_bound = format!(
        "all ordered pairs of the {} intervals with bounds in {} points (dense at 0 and MAX, critical code points)",
        n, cells.points.len()
    );
    ctx.indexed("pairs", &pairs_bound, n, 4, |w, i| {
        let (ia, ba) = (ivs[i as usize], &bits[i as usize]);
        for (j, &ib) in ivs.iter().enumerate() {
            if w.stopping() {
                return;
            }
            let bb = &bits[j];
            w.case(
                j as u64,
                || format!("CharSet pair {:x?} {:x?}", cells.set(ia), cells.set(ib)),
                |st| {
                    let (a, b) = (cells.set(ia), cells.set(ib));
                    st.states += 1;
                    st.transitions += 6;
                    let x = band(ba, bb);
                    let empty = x.iter().all(|&z| z == 0);
                    // intersection
                    match a.inter(&b) {
                        None => ensure!(empty, "inter = None"),
                        Some(s) => {
                            ensure!(!empty, "inter = {:x?}", s);
                            let (f, l) = cells.interval(&x).unwrap();
                            ensure!(s == CharSet::range(f, l), "inter = {:x?}", s);
                            if (i + j as u64) % 7 == 0 {
                                ensure!(cells.same(&s, &x), "inter = {:x?}", s);
                            }
                        }
                    }
                    ensure!(CharSet::inter_list(&[a, b]) == a.inter(&b), "inter_list");
                    // union
                    let u = bor(ba, bb);
                    let iu = cells.interval(&u);
                    match (a.union(&b), iu) {
                        (None, None) => (),
                        (Some(s), Some((f, l))) => {
                            ensure!(s == CharSet::range(f, l), "union = {:x?}", s);
                            if (i + j as u64) % 7 == 0 {
                                ensure!(cells.same(&s, &u), "union = {:x?}", s);
                            }
                        }
                        (r, e) => return Err(format!("union = {:x?}, expected {:x?}", r, e)),
                    }
                    // covers
                    ensure!(a.covers(&b) == (x == *bb), "covers = {}", a.covers(&b));
                    // order
                    let (alo, ahi) = (cells.points[ia.0], cells.points[ia.1]);
                    let (blo, bhi) = (cells.points[ib.0], cells.points[ib.1]);
                    let exp = if ba == bb {
                        Some(Ordering::Equal)
                    } else if !empty {
                        None
                    } else if ahi < blo {
                        Some(Ordering::Less)
                    } else {
                        assert!(bhi < alo);
                        Some(Ordering::Greater)
                    };
                    ensure!(a.partial_cmp(&b) == exp, "partial_cmp = {:?}", a.partial_cmp(&b));
                    ensure!((a < b) == (exp == Some(Ordering::Less)), "<");
                    ensure!((a > b) == (exp == Some(Ordering::Greater)), ">");
                    ensure!((a == b) == (ba == bb), "==");
                    ensure!((a <= b) == matches!(exp, Some(Ordering::Less | Ordering::Equal)), "<=");
                    ensure!((a >= b) == matches!(exp, Some(Ordering::Greater | Ordering::Equal)), ">=");
                    Ok(())
                },
            );
        }
    });

    // all triples and 4-tuples for inter_list
    let mut pts = vec![0, 1, 2, MAX, MAX - 1, 0x80, 0xD800, 0x10000];
    pts.extend([3, MAX - 2]);
    if t.thorough() {
        pts.extend([4, MAX - 3, 0xE000, 0xFFFF]);
    }
    let cells = Cells::new(pts);
    let ivs = cells.intervals();
    let n = ivs.len() as u64;
    let bits: Vec<Bits> = ivs.iter().map(|&(i, j)| cells.bits(i, j)).collect();
    ctx.indexed(
        "inter-list",
        &format!("inter_list of every sequence of 3 and 4 of {} intervals", n),
        n * n,
        16,
        |w, ij| {
            let (i, j) = ((ij / n) as usize, (ij % n) as usize);
            for k in 0..n as usize {
                if w.stopping() {
                    return;
                }
                let list = [cells.set(ivs[i]), cells.set(ivs[j]), cells.set(ivs[k])];
                w.case(
                    k as u64,
                    || format!("inter_list {:x?} (and all extensions by one set)", list),
                    |st| {
                        st.states += 1;
                        let b3 = band(&band(&bits[i], &bits[j]), &bits[k]);
                        let exp = cells.interval(&b3).map(|(f, l)| CharSet::range(f, l));
                        ensure!(CharSet::inter_list(&list) == exp, "got {:x?}", CharSet::inter_list(&list));
                        for l in 0..n as usize {
                            st.transitions += 1;
                            let b4 = band(&b3, &bits[l]);
                            let exp = cells.interval(&b4).map(|(f, l)| CharSet::range(f, l));
                            let s4 = cells.set(ivs[l]);
                            let got = CharSet::inter_list(&[list[0], list[1], list[2], s4]);
                            ensure!(got == exp, "with {:x?}: got {:x?}", s4, got);
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    long_inter_lists(ctx);
    // pairs of sets around every character
    let sample = char_sample(Tier::Thorough);
    ctx.indexed(
        "every-character",
        &format!("all ordered pairs of 13 intervals with bounds in 0, c-1, c, c+1, c+2, MAX for c = {}", char_sample_text(Tier::Thorough)),
        sample.len() as u64,
        128,
        |w, i| {
            let c = sample[i as usize];
            let mut iv = vec![(0, MAX), (0, c), (0, c + 1), (c - 1, c - 1), (c - 1, c), (c - 1, c + 1), (c, c), (c, c + 1), (c, c + 2), (c + 1, c + 1), (c + 1, c + 2), (c, MAX), (c + 1, MAX)];
            iv.dedup();
            w.case(i, || format!("pairs of intervals around {:#x}", c), |st| {
                for &(a, b) in &iv {
                    let x = CharSet::range(a, b);
                    st.states += 1;
                    ensure!(x.size() == b - a + 1 && x.is_singleton() == (a == b) && x.is_alphabet() == (a == 0 && b == MAX), "[{:#x}, {:#x}]: size, is_singleton, is_alphabet", a, b);
                    let p = x.pick();
                    ensure!(a <= p && p <= b, "[{:#x}, {:#x}]: pick = {:#x}", a, b, p);
                    for d in [0, c - 1, c, c + 1, c + 2, MAX] {
                        ensure!(x.contains(d) == (a <= d && d <= b) && x.is_before(d) == (b < d) && x.is_after(d) == (d < a), "[{:#x}, {:#x}]: contains, is_before, is_after of {:#x}", a, b, d);
                    }
                    for &(e, f) in &iv {
                        st.transitions += 4;
                        let y = CharSet::range(e, f);
                        let (lo, hi) = (a.max(e), b.min(f));
                        let inter = if lo <= hi { Some(CharSet::range(lo, hi)) } else { None };
                        ensure!(x.inter(&y) == inter && CharSet::inter_list(&[x, y]) == inter, "{:x?} inter {:x?} = {:x?}", x, y, x.inter(&y));
                        let union = if a.max(e) <= b.min(f) + 1 { Some(CharSet::range(a.min(e), b.max(f))) } else { None };
                        ensure!(x.union(&y) == union, "{:x?} union {:x?} = {:x?}", x, y, x.union(&y));
                        ensure!(x.covers(&y) == (a <= e && f <= b), "{:x?} covers {:x?}", x, y);
                        let ord = if (a, b) == (e, f) {
                            Some(Ordering::Equal)
                        } else if b < e {
                            Some(Ordering::Less)
                        } else if f < a {
                            Some(Ordering::Greater)
                        } else {
                            None
                        };
                        ensure!(x.partial_cmp(&y) == ord && (x == y) == ((a, b) == (e, f)), "{:x?} against {:x?}: {:?}", x, y, x.partial_cmp(&y));
                    }
                }
                Ok(())
            });
        },
    );
}

// ---------------------------------------------------------------- C11

fn ids_of(p: &CharPartition) -> Vec<ClassId> {
    p.class_ids().collect()
}

/// Check every query of partition p, whose intervals must be `iv` (sorted), on all characters
/// of `chars` and all sets with bounds in `bounds`.
pub fn check_partition(
    st: &mut Stats,
    p: &CharPartition,
    iv: &[(u32, u32)],
    chars: &[u32],
    bounds: &[u32],
) -> Result<(), String> {
    use ClassId::*;
    let n = iv.len();
    st.states += 1;
    ensure!(p.len() == n, "len() = {}, expected {}", p.len(), n);
    ensure!(p.is_empty() == (n == 0), "is_empty()");
    for (i, &(a, b)) in iv.iter().enumerate() {
        ensure!(p.get(i) == (a, b), "get({}) = {:x?}", i, p.get(i));
        ensure!(p.start(i) == a && p.end(i) == b, "start/end({})", i);
        ensure!(p.interval(i) == CharSet::range(a, b), "interval({})", i);
        ensure!(a <= p.pick(i) && p.pick(i) <= b, "pick({}) = {:#x}", i, p.pick(i));
    }
    let r: Vec<CharSet> = p.ranges().copied().collect();
    ensure!(
        r.len() == n && r.iter().zip(iv).all(|(s, &(a, b))| *s == CharSet::range(a, b)),
        "ranges()"
    );
    let covered: u64 = iv.iter().map(|&(a, b)| (b - a) as u64 + 1).sum();
    let full = covered == MAX as u64 + 1;
    ensure!(p.empty_complement() == full, "empty_complement() = {}", !full);
    if !full {
        let wit = p.pick_complement();
        ensure!(
            wit <= MAX && !iv.iter().any(|&(a, b)| a <= wit && wit <= b),
            "pick_complement() = {:#x} is not in the complementary class", wit
        );
        let wit = p.pick_in_class(Complement);
        ensure!(
            wit <= MAX && !iv.iter().any(|&(a, b)| a <= wit && wit <= b),
            "pick_in_class(Complement) = {:#x}", wit
        );
    }
    let ncl = n + if full { 0 } else { 1 };
    ensure!(p.num_classes() == ncl, "num_classes() = {}", p.num_classes());
    for i in [0, 1, n.wrapping_sub(1), n, n + 1, n + 2, 1 << 20, usize::MAX] {
        ensure!(p.valid_class_id(Interval(i)) == (i < n), "valid_class_id(Interval({}))", i);
    }
    for i in 0..n {
        ensure!(p.valid_class_id(Interval(i)), "valid_class_id(Interval({}))", i);
        let c = p.pick_in_class(Interval(i));
        ensure!(iv[i].0 <= c && c <= iv[i].1, "pick_in_class(Interval({})) = {:#x}", i, c);
    }
    ensure!(p.valid_class_id(Complement) != full, "valid_class_id(Complement)");
    let ids = ids_of(p);
    ensure!(ids.len() == ncl, "class_ids() yields {:?}", ids);
    let mut seen = vec![false; n + 1];
    for id in &ids {
        let k = match id {
            Interval(i) => *i,
            Complement => n,
        };
        ensure!(k <= n && !seen[k] && (k < n || !full), "class_ids() yields {:?}", ids);
        seen[k] = true;
    }
    let class = |c: u32| -> ClassId {
        match iv.iter().position(|&(a, b)| a <= c && c <= b) {
            Some(i) => Interval(i),
            None => Complement,
        }
    };
    let picks: Vec<u32> = p.picks().collect();
    ensure!(picks.len() == ncl, "picks() yields {:x?}", picks);
    let mut seen = vec![false; n + 1];
    for &c in &picks {
        ensure!(c <= MAX, "picks() yields {:x?}", picks);
        let k = match class(c) {
            Interval(i) => i,
            Complement => n,
        };
        ensure!(!seen[k], "picks() yields {:x?}: two in the same class", picks);
        seen[k] = true;
    }
    for &c in chars {
        st.transitions += 1;
        let got = p.class_of_char(c);
        ensure!(got == class(c), "class_of_char({:#x}) = {:?}, expected {:?}", c, got, class(c));
    }
    for (k, &x) in bounds.iter().enumerate() {
        for &y in &bounds[k..] {
            st.transitions += 1;
            // definition: covered by i / meets none / anything else
            let exp = if let Some(i) = iv.iter().position(|&(a, b)| a <= x && y <= b) {
                CoverResult::CoveredBy(i)
            } else if iv.iter().all(|&(a, b)| y < a || b < x) {
                CoverResult::DisjointFromAll
            } else {
                CoverResult::Overlaps
            };
            let s = CharSet::range(x, y);
            let got = p.interval_cover(&s);
            ensure!(got == exp, "interval_cover([{:#x},{:#x}]) = {:?}, expected {:?}", x, y, got, exp);
            let cls = p.class_of_set(&s);
            let expc = match exp {
                CoverResult::CoveredBy(i) => Ok(Interval(i)),
                CoverResult::DisjointFromAll => Ok(Complement),
                CoverResult::Overlaps => Err(Error::AmbiguousCharSet),
            };
            ensure!(cls == expc, "class_of_set([{:#x},{:#x}]) = {:?}, expected {:?}", x, y, cls, expc);
            ensure!(
                p.good_char_set(&s) == (exp != CoverResult::Overlaps),
                "good_char_set([{:#x},{:#x}]) = {}", x, y, p.good_char_set(&s)
            );
        }
    }
    Ok(())
}

/// State 0 goes to state i + 1 on the i-th set and to n + 1 on the others. char_set_next must give
/// the common successor for a set inside one label (or outside all) of the automaton's own labels,
/// and an error for any other set.
fn check_labels_automaton(st: &mut Stats, labels: &[CharSet], reps: &[u32]) -> Result<(), String> {
    let n = labels.len();
    let covered: u64 = labels.iter().map(|r| r.size() as u64).sum();
    let mut b = AutomatonBuilder::new(&0usize);
    for (i, r) in labels.iter().enumerate() {
        b.add_transition(&0, r, &(i + 1));
        b.set_default_successor(&(i + 1), &(i + 1));
    }
    if covered <= MAX as u64 {
        b.set_default_successor(&0, &(n + 1));
        b.set_default_successor(&(n + 1), &0);
    }
    let a = b.build().map_err(|e| format!("build fails: {}", e))?;
    let s = a.initial_state();
    let own: Vec<CharSet> = s.char_ranges().copied().collect();
    let label = |c: u32| own.iter().position(|r| r.contains(c));
    for (k, &x) in reps.iter().enumerate() {
        for &y in &reps[k..] {
            st.transitions += 1;
            let set = CharSet::range(x, y);
            // cells are the unit of the labels: the representatives between x and y decide
            let uniform = reps.iter().filter(|&&c| x <= c && c <= y).all(|&c| label(c) == label(x));
            match a.char_set_next(s, &set) {
                Ok(d) => {
                    ensure!(uniform, "char_set_next([{:#x},{:#x}]) is a state although the set meets several labels", x, y);
                    ensure!(d.id() == a.next(s, x).id() && d.id() == a.next(s, y).id(), "char_set_next([{:#x},{:#x}]) is not the successor of its characters", x, y);
                }
                Err(e) => {
                    ensure!(!uniform, "char_set_next([{:#x},{:#x}]) fails ({}) although the set lies in one class", x, y, e);
                    ensure!(e == Error::AmbiguousCharSet, "char_set_next([{:#x},{:#x}]): error {:?}", x, y, e);
                }
            }
        }
    }
    Ok(())
}

/// union of label_i . word_i with pairwise different words
fn check_labels_regex(st: &mut Stats, labels: &[CharSet], reps: &[u32]) -> Result<(), String> {
    let mut m = ReManager::new();
    let mut l = vec![];
    for (i, r) in labels.iter().enumerate() {
        let x = m.char_set(*r);
        let y = m.str(&smt(&vec![0x61; i + 1]));
        l.push(m.concat(x, y));
    }
    let e = m.union_list(l);
    let own: Vec<CharSet> = e.char_ranges().copied().collect();
    let label = |c: u32| own.iter().position(|r| r.contains(c));
    for (k, &x) in reps.iter().enumerate() {
        for &y in &reps[k..] {
            st.transitions += 1;
            let set = CharSet::range(x, y);
            let uniform = reps.iter().filter(|&&c| x <= c && c <= y).all(|&c| label(c) == label(x));
            match m.set_derivative(e, &set) {
                Ok(d) => {
                    ensure!(uniform, "set_derivative([{:#x},{:#x}]) is a term although the set meets several derivative classes", x, y);
                    for c in [x, y] {
                        let p = m.char_derivative(e, c);
                        if d != p {
                            // another term: the same words?
                            for i in 0..=labels.len() + 1 {
                                let s = smt(&vec![0x61; i]);
                                ensure!(m.str_in_re(&s, d) == m.str_in_re(&s, p), "set_derivative([{:#x},{:#x}]) = {}, the derivative of {:#x} is {}", x, y, d, c, p);
                            }
                        }
                    }
                }
                Err(r) => {
                    ensure!(!uniform, "set_derivative([{:#x},{:#x}]) fails ({}) although the set lies in one class", x, y, r);
                }
            }
        }
    }
    Ok(())
}

fn interval_list(l: &Layout, p: &[(usize, usize)]) -> Vec<(u32, u32)> {
    p.iter().map(|&(i, j)| (l.lo(i), l.hi(j))).collect()
}

pub fn c11(ctx: &Ctx) {
    let t = ctx.tier;
    let w_max = t.pick(9, 11);
    for wd in [2, 5, w_max] {
        let parts = cell_partitions(wd);
        let lays = layouts(wd);
        let n = (parts.len() * lays.len()) as u64;
        ctx.indexed(
            &format!("windows-{}", wd),
            &format!("every partition of {} cells x {} layouts; all query sets between cell representatives; push, from_set, try_from_iter and try_from_list in every input order (up to 5 intervals, else 12 orders)", wd, lays.len()),
            n,
            8,
            |w, i| {
                let l = &lays[i as usize % lays.len()];
                let p = &parts[i as usize / lays.len()];
                let iv = interval_list(l, p);
                let reps: Vec<u32> = l.all_reps().iter().map(|x| x.0).collect();
                w.case(i, || format!("partition {:x?} (layout {})", iv, l.name), |st| {
                    // built by push
                    let q = partition_by_push(l, p);
                    check_partition(st, &q, &iv, &reps, &reps).map_err(|e| format!("push: {}", e))?;
                    if iv.len() == 1 {
                        let q = CharPartition::from_set(&CharSet::range(iv[0].0, iv[0].1));
                        check_partition(st, &q, &iv, &reps, &reps).map_err(|e| format!("from_set: {}", e))?;
                    }
                    // every input order
                    let m = iv.len();
                    let orders = if m <= 5 {
                        permutations(m)
                    } else {
                        let mut o = vec![];
                        for r in 0..m {
                            o.push((0..m).map(|x| (x + r) % m).collect::<Vec<_>>());
                        }
                        for r in 0..(12 - m.min(11)) {
                            o.push((0..m).rev().map(|x| (x + r) % m).collect());
                        }
                        o
                    };
                    for (k, o) in orders.iter().enumerate() {
                        let list: Vec<CharSet> = o.iter().map(|&x| CharSet::range(iv[x].0, iv[x].1)).collect();
                        st.transitions += 2;
                        let r1 = CharPartition::try_from_iter(list.iter().copied());
                        let r2 = CharPartition::try_from_list(&list);
                        let (r1, r2) = match (r1, r2) {
                            (Ok(a), Ok(b)) => (a, b),
                            (a, b) => return Err(format!("disjoint input {:x?} rejected: {:?} {:?}", list, a, b)),
                        };
                        // full queries for a few orders, structural queries for all
                        let full = k == 0 || k + 1 == orders.len();
                        let few = [0, MAX];
                        let (c, b): (&[u32], &[u32]) = if full { (&reps, &reps) } else { (&reps, &few) };
                        check_partition(st, &r1, &iv, c, b).map_err(|e| format!("try_from_iter({:x?}): {}", list, e))?;
                        check_partition(st, &r2, &iv, c, &few).map_err(|e| format!("try_from_list({:x?}): {}", list, e))?;
                    }
                    Ok(())
                });
            },
        );
    }
    // arbitrary lists, disjoint or not
    let wd = t.pick(5, 6);
    let maxlen = t.pick(5, 5);
    let mut ivs = vec![];
    for i in 0..wd {
        for j in i..wd {
            ivs.push((i, j));
        }
    }
    let lays = layouts(wd);
    let k = ivs.len() as u64;
    let n = seq_count(k, maxlen) * lays.len() as u64;
    ctx.indexed(
        "any-lists",
        &format!("every list of at most {} intervals over {} cells (overlapping ones too) x {} layouts", maxlen, wd, lays.len()),
        n,
        256,
        |w, i| {
            let l = &lays[i as usize % lays.len()];
            let seq = seq_decode(k, i / lays.len() as u64);
            let list: Vec<CharSet> = seq.iter().map(|&x| l.set(ivs[x].0, ivs[x].1)).collect();
            w.case(i, || format!("try_from_iter({:x?})", list), |st| {
                let mut ok = true;
                for a in 0..seq.len() {
                    for b in 0..a {
                        let (x, y) = (ivs[seq[a]], ivs[seq[b]]);
                        if x.0 <= y.1 && y.0 <= x.1 {
                            ok = false;
                        }
                    }
                }
                st.transitions += 2;
                let r1 = CharPartition::try_from_iter(list.iter().copied());
                let r2 = CharPartition::try_from_list(&list);
                ensure!(r1.is_ok() == ok, "try_from_iter gives {:x?}", r1);
                ensure!(r2.is_ok() == ok, "try_from_list gives {:x?}", r2);
                if ok {
                    let mut sorted: Vec<(u32, u32)> =
                        seq.iter().map(|&x| (l.lo(ivs[x].0), l.hi(ivs[x].1))).collect();
                    sorted.sort();
                    check_partition(st, &r1.unwrap(), &sorted, &[0, MAX], &[0, MAX])?;
                    check_partition(st, &r2.unwrap(), &sorted, &[0, MAX], &[0, MAX])?;
                }
                Ok(())
            });
        },
    );
    // many intervals: binary searches of every length
    let nmax = t.pick(140u64, 600);
    ctx.indexed(
        "many-intervals",
        &format!("partitions of 0..{} regularly spaced intervals, 6 spacings, all bounds near the intervals", nmax - 1),
        nmax * 6,
        4,
        |w, i| {
            let n = (i / 6) as u32;
            let (off, step, width) = [(0, 2, 1), (1, 3, 2), (0, 4, 4), (5, 7, 3), (0, 0x1F0, 0x100), (MAX + 1 - 3 * nmax as u32, 3, 2)][i as usize % 6];
            let iv: Vec<(u32, u32)> = (0..n)
                .map(|k| (off + k * step, off + k * step + width - 1))
                .take_while(|x| x.1 <= MAX)
                .collect();
            w.case(i, || format!("{} intervals from {:#x} step {} width {}", n, off, step, width), |st| {
                let mut p = CharPartition::new();
                for &(a, b) in &iv {
                    p.push(a, b);
                }
                let mut pts: Vec<u32> = vec![0, 1, MAX - 1, MAX];
                for &(a, b) in &iv {
                    pts.extend([a.saturating_sub(1), a, b, (b + 1).min(MAX)]);
                }
                pts.sort();
                pts.dedup();
                // sets: all pairs of bounds when small, else bounds at distance <= 12
                check_partition(st, &p, &iv, &pts, &[])?;
                if pts.len() <= 120 {
                    check_partition(st, &p, &iv, &[], &pts)?;
                } else {
                    for win in pts.windows(12) {
                        check_partition(st, &p, &iv, &[], &[win[0], win[1], win[2], win[5], win[11]])?;
                    }
                }
                let q = CharPartition::try_from_iter(iv.iter().rev().map(|&(a, b)| CharSet::range(a, b)))
                    .map_err(|e| format!("rejected: {}", e))?;
                check_partition(st, &q, &iv, &pts, &[0, MAX])?;
                Ok(())
            });
        },
    );
    // the same queries through the two clients of class_of_set: an automaton state whose labels are
    // the intervals, and an expression whose derivative classes are the intervals
    let wd = t.pick(6, 8);
    let parts = cell_partitions(wd);
    let lays = layouts(wd);
    let n = (parts.len() * lays.len()) as u64;
    ctx.indexed(
        "labels",
        &format!("every partition of {} cells x {} layouts as the labels of an automaton state (Automaton::char_set_next) and as the derivative classes of an expression (ReManager::set_derivative), every set between cell representatives", wd, lays.len()),
        n,
        8,
        |w, i| {
            let l = &lays[i as usize % lays.len()];
            let p = &parts[i as usize / lays.len()];
            let iv = interval_list(l, p);
            let reps: Vec<u32> = l.all_reps().iter().map(|x| x.0).collect();
            w.case(i, || format!("labels {:x?} (layout {})", iv, l.name), |st| {
                let labels: Vec<CharSet> = iv.iter().map(|&(a, b)| CharSet::range(a, b)).collect();
                check_labels_automaton(st, &labels, &reps)?;
                check_labels_regex(st, &labels, &reps)
            });
        },
    );
    // complete sweeps of the alphabet
    let wd = 5;
    let parts = cell_partitions(wd);
    let lays = layouts(wd);
    let n = (parts.len() * lays.len()) as u64;
    ctx.indexed(
        "sweep",
        "class_of_char and singleton interval_cover for all 196608 characters, partitions of 5 cells",
        n,
        1,
        |w, i| {
            let l = &lays[(i as usize / parts.len() + 3) % lays.len()];
            let p = &parts[i as usize % parts.len()];
            w.case(i, || format!("sweep of {:x?}", interval_list(l, p)), |st| {
                let q = partition_by_push(l, p);
                let cls = cell_classes(wd, p);
                for cell in 0..wd {
                    let (e, e2) = match cls[cell] {
                        Some(k) => (ClassId::Interval(k), CoverResult::CoveredBy(k)),
                        None => (ClassId::Complement, CoverResult::DisjointFromAll),
                    };
                    for c in l.lo(cell)..=l.hi(cell) {
                        st.transitions += 1;
                        ensure!(q.class_of_char(c) == e, "class_of_char({:#x})", c);
                        ensure!(q.interval_cover(&CharSet::singleton(c)) == e2, "interval_cover({:#x})", c);
                    }
                }
                Ok(())
            });
        },
    );
    // cells around every character
    let parts = cell_partitions(5);
    let sample = char_sample(Tier::Thorough);
    ctx.indexed(
        "every-character",
        &format!("5 (in rotation) of the {} partitions of the cells {{<c}},{{c}},{{c+1}},{{c+2}},{{>c+2}}, by push and try_from_iter, for c = {}", parts.len(), char_sample_text(Tier::Thorough)),
        sample.len() as u64,
        64,
        |w, i| {
            let c = sample[i as usize];
            let l = Layout::new("chars", vec![0, c, c + 1, c + 2, c + 3]);
            for k in 0..5 {
                let p = &parts[(i as usize * 5 + k) % parts.len()];
                let iv = interval_list(&l, p);
                w.case(i * 5 + k as u64, || format!("partition {:x?}", iv), |st| {
                    let pts = [0, c - 1, c, c + 1, c + 2, c + 3, MAX];
                    check_partition(st, &partition_by_push(&l, p), &iv, &pts, &pts)?;
                    let r = CharPartition::try_from_iter(iv.iter().rev().map(|x| CharSet::range(x.0, x.1)));
                    match r {
                        Err(e) => Err(format!("try_from_iter: {}", e)),
                        Ok(r) => check_partition(st, &r, &iv, &pts, &[0, MAX]).map_err(|e| format!("try_from_iter: {}", e)),
                    }
                });
            }
        },
    );
    crate::huge::partitions(ctx);
}

// ---------------------------------------------------------------- C12

/// Reference merge at the level of cells: the intervals of the result are the maximal runs of
/// cells having the same tuple of classes, not all Complement.
fn ref_merge(l: &Layout, parts: &[&Vec<(usize, usize)>]) -> Vec<(u32, u32)> {
    let w = l.n();
    let cls: Vec<Vec<Option<usize>>> = parts.iter().map(|p| cell_classes(w, p)).collect();
    let key = |c: usize| -> Vec<Option<usize>> { cls.iter().map(|x| x[c]).collect() };
    let mut out: Vec<(u32, u32)> = vec![];
    let mut prev: Option<Vec<Option<usize>>> = None;
    for c in 0..w {
        let k = key(c);
        if k.iter().any(|x| x.is_some()) {
            if prev.as_ref() == Some(&k) {
                out.last_mut().unwrap().1 = l.hi(c);
            } else {
                out.push((l.lo(c), l.hi(c)));
            }
            prev = Some(k);
        } else {
            prev = None;
        }
    }
    out
}

fn check_merge(
    st: &mut Stats,
    l: &Layout,
    r: &CharPartition,
    exp: &[(u32, u32)],
) -> Result<(), String> {
    st.states += 1;
    ensure!(r.len() == exp.len(), "result {}: expected intervals {:x?}", r, exp);
    for (i, e) in exp.iter().enumerate() {
        ensure!(r.get(i) == *e, "result {}: expected intervals {:x?}", r, exp);
    }
    let covered: u64 = exp.iter().map(|&(a, b)| (b - a) as u64 + 1).sum();
    let full = covered == MAX as u64 + 1;
    ensure!(r.empty_complement() == full, "result {}: empty_complement() = {}", r, !full);
    if !full {
        let c = r.pick_complement();
        ensure!(
            c <= MAX && !exp.iter().any(|&(a, b)| a <= c && c <= b),
            "result {}: pick_complement() = {:#x}", r, c
        );
    }
    for cell in 0..l.n() {
        for c in l.reps(cell) {
            st.transitions += 1;
            let e = match exp.iter().position(|&(a, b)| a <= c && c <= b) {
                Some(i) => ClassId::Interval(i),
                None => ClassId::Complement,
            };
            ensure!(r.class_of_char(c) == e, "result {}: class_of_char({:#x})", r, c);
        }
    }
    Ok(())
}

/// lengths of long lists
fn list_lengths() -> Vec<usize> {
    (5..=40).chain(62..=67).chain(126..=131).chain(254..=259).collect()
}

/// places in a list of n
fn places(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = if n <= 40 { (0..n).collect() } else { vec![0, 1, 2, 15, 16, 31, 32, n / 2, 63.min(n - 1), n - 3, n - 2, n - 1] };
    v.sort();
    v.dedup();
    v
}

/// the i-th of n in 4 orders
fn order(n: usize, i: usize, how: usize) -> u32 {
    (match how {
        0 => i,
        1 => n - 1 - i,
        2 => (i + n / 2) % n,
        // from both ends
        _ => {
            if i % 2 == 0 {
                i / 2
            } else {
                n - 1 - i / 2
            }
        }
    }) as u32
}

fn long_merge_lists(ctx: &Ctx) {
    let ns = list_lengths();
    ctx.indexed("long-lists", "merge_partition_list of n partitions for n = 5..40 and around 64, 128, 256: all different single characters, nested intervals, or two intervals each, in 4 orders; the empty partition, the alphabet or another character at a place of the list", ns.len() as u64 * 12, 1, |w, c| {
        let n = ns[c as usize / 12];
        let (kind, how) = (c as usize % 3, c as usize / 3 % 4);
        let span = 2000u32;
        let base: Vec<Vec<(u32, u32)>> = (0..n)
            .map(|i| {
                let j = order(n, i, how);
                match kind {
                    0 => vec![(100 + 3 * j, 100 + 3 * j)],
                    1 => vec![(100 + j, 1900 - 2 * j)],
                    _ => vec![(2 * j, 2 * j + 1), (700 + 2 * j, 1500 + j)],
                }
            })
            .collect();
        let mut sub = 0;
        for p in places(n) {
            for special in 0..4 {
                if special == 3 && p > 0 {
                    continue;
                }
                sub += 1;
                let mut l = base.clone();
                match special {
                    0 => l[p] = vec![],
                    1 => l[p] = vec![(0, MAX)],
                    2 => l[p] = vec![(1950, 1950)],
                    _ => (),
                }
                w.case(sub, || format!("{} partitions of kind {} in order {}, change {} at place {}", n, kind, how, special, p), |st| {
                    let parts: Vec<CharPartition> = l
                        .iter()
                        .map(|v| {
                            let mut q = CharPartition::new();
                            for x in v {
                                q.push(x.0, x.1);
                            }
                            q
                        })
                        .collect();
                    // a new interval of the result starts where one starts, and after one ends
                    let mut cut = vec![false; span as usize + 2];
                    let mut covered = vec![0i32; span as usize + 2];
                    cut[0] = true;
                    for &(a, b) in l.iter().flatten() {
                        let b = b.min(span);
                        cut[a as usize] = true;
                        cut[b as usize + 1] = true;
                        covered[a as usize] += 1;
                        covered[b as usize + 1] -= 1;
                    }
                    let whole = l.iter().flatten().any(|x| x.1 == MAX);
                    let mut exp: Vec<(u32, u32)> = vec![];
                    let mut depth = 0;
                    for x in 0..=span {
                        depth += covered[x as usize];
                        if depth > 0 {
                            if cut[x as usize] {
                                exp.push((x, x));
                            } else {
                                exp.last_mut().unwrap().1 = x;
                            }
                        }
                    }
                    if whole {
                        exp.last_mut().unwrap().1 = MAX;
                    }
                    let r = merge_partition_list(parts.iter());
                    st.states += 1;
                    ensure!(r.len() == exp.len(), "{} intervals, expected {}", r.len(), exp.len());
                    for (i, e) in exp.iter().enumerate() {
                        ensure!(r.get(i) == *e, "interval {} is {:x?}, expected {:x?}", i, r.get(i), e);
                    }
                    ensure!(r.empty_complement() == whole, "empty_complement() = {}", !whole);
                    for &(a, b) in &exp {
                        for x in [a.saturating_sub(1), a, b, (b + 1).min(MAX)] {
                            st.transitions += 1;
                            let e = match exp.iter().position(|&(a, b)| a <= x && x <= b) {
                                Some(i) => ClassId::Interval(i),
                                None => ClassId::Complement,
                            };
                            ensure!(r.class_of_char(x) == e, "class_of_char({:#x}) = {}, expected {}", x, r.class_of_char(x), e);
                        }
                    }
                    if !whole {
                        let x = r.pick_complement();
                        ensure!(!exp.iter().any(|&(a, b)| a <= x && x <= b), "pick_complement() = {:#x}", x);
                    }
                    Ok(())
                });
            }
        }
    });
}

fn long_inter_lists(ctx: &Ctx) {
    let ns = list_lengths();
    ctx.indexed("long-lists", "inter_list of n nested or shifted intervals for n = 5..40 and around 64, 128, 256, in 4 orders; a disjoint interval, a single character, an unbounded or a full one at each place of the list", ns.len() as u64, 1, |w, c| {
        let n = ns[c as usize];
        let mut sub = 0;
        for kind in 0..3 {
            for how in 0..4 {
                for p in places(n) {
                    for special in [None, Some((0, 50)), Some((1000, 1000)), Some((1100, MAX)), Some((0, MAX)), Some((0, 1000)), Some((5000, MAX))] {
                        sub += 1;
                        let mut l: Vec<(u32, u32)> = (0..n)
                            .map(|i| {
                                let j = order(n, i, how);
                                match kind {
                                    0 => (100 + j, 2000 - j),
                                    1 => (500 + j, 1000 + j),
                                    _ => (0, MAX - j),
                                }
                            })
                            .collect();
                        if let Some(x) = special {
                            l[p] = x;
                        }
                        w.case(sub, || format!("inter_list of {} intervals of kind {} in order {}, {:x?} at place {}", n, kind, how, special, p), |st| {
                            st.states += 1;
                            let v: Vec<CharSet> = l.iter().map(|x| CharSet::range(x.0, x.1)).collect();
                            let a = l.iter().map(|x| x.0).max().unwrap();
                            let b = l.iter().map(|x| x.1).min().unwrap();
                            let exp = if a <= b { Some(CharSet::range(a, b)) } else { None };
                            let got = CharSet::inter_list(&v);
                            ensure!(got == exp, "got {:x?}, expected {:x?}", got, exp);
                            Ok(())
                        });
                    }
                }
            }
        }
    });
}

pub fn c12(ctx: &Ctx) {
    let t = ctx.tier;
    // pairs
    let wd = t.pick(8, 9);
    let parts = cell_partitions(wd);
    let lays = layouts(wd);
    let n = parts.len();
    ctx.indexed(
        "pairs",
        &format!("all ordered pairs of the {} partitions of {} cells, x {} layouts", n, wd, lays.len()),
        (n * lays.len()) as u64,
        4,
        |w, i| {
            let l = &lays[i as usize % lays.len()];
            let p1 = &parts[i as usize / lays.len()];
            let q1 = partition_by_push(l, p1);
            for (j, p2) in parts.iter().enumerate() {
                if w.stopping() {
                    return;
                }
                w.case(
                    j as u64,
                    || format!("merge of {:x?} and {:x?}", interval_list(l, p1), interval_list(l, p2)),
                    |st| {
                        let q2 = partition_by_push(l, p2);
                        let exp = ref_merge(l, &[p1, p2]);
                        let r = merge_partitions(&q1, &q2);
                        check_merge(st, l, &r, &exp)
                    },
                );
            }
        },
    );
    // lists of three, in every order; neutral element; empty list
    let wd = t.pick(5, 6);
    let parts = cell_partitions(wd);
    let lays = layouts(wd);
    let n = parts.len();
    ctx.indexed(
        "lists-3",
        &format!("merge_partition_list of all triples of the {} partitions of {} cells, x {} layouts; empty partition inserted at every place", n, wd, lays.len()),
        (n * n * lays.len()) as u64,
        32,
        |w, i| {
            let l = &lays[i as usize % lays.len()];
            let (a, b) = ((i as usize / lays.len()) / n, (i as usize / lays.len()) % n);
            let (qa, qb) = (partition_by_push(l, &parts[a]), partition_by_push(l, &parts[b]));
            let e = CharPartition::new();
            for c in 0..n {
                if w.stopping() {
                    return;
                }
                w.case(
                    c as u64,
                    || format!(
                        "merge list {:x?} {:x?} {:x?}",
                        interval_list(l, &parts[a]), interval_list(l, &parts[b]), interval_list(l, &parts[c])
                    ),
                    |st| {
                        let qc = partition_by_push(l, &parts[c]);
                        let exp = ref_merge(l, &[&parts[a], &parts[b], &parts[c]]);
                        let r = merge_partition_list([&qa, &qb, &qc].into_iter());
                        check_merge(st, l, &r, &exp)?;
                        if c % 5 == 0 {
                            for v in [[&e, &qa, &qb, &qc], [&qa, &e, &qb, &qc], [&qc, &qb, &e, &qa], [&qb, &qc, &qa, &e]] {
                                check_merge(st, l, &merge_partition_list(v.into_iter()), &exp)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    ctx.indexed(
        "lists-short",
        "lists of length 0, 1, 2 and 4..6 of partitions of 3 cells; empty partition on either side",
        5,
        1,
        |w, li| {
            let l = &layouts(3)[li as usize];
            let parts = cell_partitions(3);
            let n = parts.len();
            let e = CharPartition::new();
            w.case(0, || "empty list".into(), |st| {
                check_merge(st, l, &merge_partition_list([].into_iter()), &[])?;
                check_merge(st, l, &merge_partitions(&e, &e), &[])
            });
            for a in 0..n {
                let qa = partition_by_push(l, &parts[a]);
                w.case(1 + a as u64, || format!("neutral element and {:x?}", interval_list(l, &parts[a])), |st| {
                    let exp = interval_list(l, &parts[a]);
                    check_merge(st, l, &merge_partition_list([&qa].into_iter()), &exp)?;
                    check_merge(st, l, &merge_partitions(&qa, &e), &exp)?;
                    check_merge(st, l, &merge_partitions(&e, &qa), &exp)?;
                    check_merge(st, l, &merge_partitions(&qa, &qa), &exp)
                });
                for b in 0..n {
                    let qb = partition_by_push(l, &parts[b]);
                    for c in 0..n {
                        let qc = partition_by_push(l, &parts[c]);
                        for d in 0..n {
                            if w.stopping() {
                                return;
                            }
                            w.case(
                                (((a * n + b) * n + c) * n + d) as u64 + 100,
                                || format!("merge list over 3 cells {:?}", [a, b, c, d].map(|x| interval_list(l, &parts[x]))),
                                |st| {
                                    let qd = partition_by_push(l, &parts[d]);
                                    let exp = ref_merge(l, &[&parts[a], &parts[b], &parts[c], &parts[d]]);
                                    check_merge(st, l, &merge_partition_list([&qa, &qb, &qc, &qd].into_iter()), &exp)?;
                                    check_merge(st, l, &merge_partition_list([&qd, &qb, &qa, &qc, &qb, &qd].into_iter()), &exp)
                                },
                            );
                        }
                    }
                }
            }
        },
    );
    long_merge_lists(ctx);
    // large partitions: regular families merged with each other
    let nmax = t.pick(40u64, 130);
    ctx.indexed(
        "large",
        &format!("pairs of regular partitions with up to {} intervals and different spacings, merged character by character", nmax),
        nmax * nmax,
        16,
        |w, i| {
            let (n1, n2) = ((i / nmax) as u32, (i % nmax) as u32);
            for (k, &(o1, s1, w1, o2, s2, w2)) in
                [(0, 3, 2, 1, 2, 1), (0, 5, 5, 2, 7, 4), (1, 4, 2, 0, 6, 6), (0, 2, 1, 1, 2, 1)].iter().enumerate()
            {
                w.case(
                    k as u64,
                    || format!("{} intervals ({},{},{}) merged with {} intervals ({},{},{})", n1, o1, s1, w1, n2, o2, s2, w2),
                    |st| {
                        let span = 8 * nmax as u32 + 10;
                        // the whole structure shifted to both ends of the alphabet
                        for base in [0, MAX + 1 - span] {
                            let mk = |n: u32, o: u32, s: u32, wd: u32| -> Vec<(u32, u32)> {
                                (0..n).map(|k| (base + o + k * s, base + o + k * s + wd - 1)).collect()
                            };
                            let (l1, l2) = (mk(n1, o1, s1, w1), mk(n2, o2, s2, w2));
                            let mut p1 = CharPartition::new();
                            for x in &l1 {
                                p1.push(x.0, x.1);
                            }
                            let mut p2 = CharPartition::new();
                            for x in &l2 {
                                p2.push(x.0, x.1);
                            }
                            // character by character
                            let cls = |l: &[(u32, u32)]| -> Vec<u32> {
                                let mut v = vec![u32::MAX; span as usize];
                                for (k, &(a, b)) in l.iter().enumerate() {
                                    for c in a..=b {
                                        v[(c - base) as usize] = k as u32;
                                    }
                                }
                                v
                            };
                            let (c1, c2) = (cls(&l1), cls(&l2));
                            let mut exp: Vec<(u32, u32)> = vec![];
                            let none = (u32::MAX, u32::MAX);
                            let mut prev = none;
                            for c in 0..span {
                                let k = (c1[c as usize], c2[c as usize]);
                                if k != none {
                                    if k == prev {
                                        exp.last_mut().unwrap().1 = base + c;
                                    } else {
                                        exp.push((base + c, base + c));
                                    }
                                }
                                prev = k;
                            }
                            let l = Layout::new("small", vec![0, 1]);
                            for r in [merge_partitions(&p1, &p2), merge_partitions(&p2, &p1)] {
                                check_merge(st, &l, &r, &exp)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
    // cells around every character
    let parts = cell_partitions(5);
    let sample = char_sample(Tier::Thorough);
    ctx.indexed(
        "every-character",
        &format!("12 (in rotation) of the pairs of partitions of the cells {{<c}},{{c}},{{c+1}},{{c+2}},{{>c+2}} for c = {}", char_sample_text(Tier::Thorough)),
        sample.len() as u64,
        64,
        |w, i| {
            let c = sample[i as usize];
            let l = Layout::new("chars", vec![0, c, c + 1, c + 2, c + 3]);
            let n = parts.len();
            for k in 0..12 {
                // 5 does not divide n*n, so all pairs take their turn
                let q = (i as usize * 12 + k) * 5 % (n * n);
                let (p1, p2) = (&parts[q / n], &parts[q % n]);
                w.case(i * 12 + k as u64, || format!("merge of {:x?} and {:x?}", interval_list(&l, p1), interval_list(&l, p2)), |st| {
                    let exp = ref_merge(&l, &[p1, p2]);
                    let r = merge_partitions(&partition_by_push(&l, p1), &partition_by_push(&l, p2));
                    check_merge(st, &l, &r, &exp)
                });
            }
        },
    );
    crate::huge::merges(ctx);
}
