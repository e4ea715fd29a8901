//! C15: LoopRange arithmetic against explicit sets of naturals.

use crate::ensure;
use crate::world::Check;
use crate::rt::*;
use aws_smt_strings::loop_ranges::LoopRange;

/// (start, end), None = infinity
type R = (u64, Option<u64>);

fn mk(r: R) -> LoopRange {
    match r.1 {
        Some(j) => LoopRange::finite(r.0 as u32, j as u32),
        None => LoopRange::infinite(r.0 as u32),
    }
}

#[derive(Clone, PartialEq, Eq)]
struct Set(Vec<u64>); // subset of [0, t]

struct Dom {
    t: usize,
    words: usize,
}

impl Dom {
    fn new(t: usize) -> Dom {
        Dom { t, words: t / 64 + 1 }
    }
    fn empty(&self) -> Set {
        Set(vec![0; self.words])
    }
    fn range(&self, r: R) -> Set {
        let mut s = self.empty();
        let hi = r.1.unwrap_or(self.t as u64).min(self.t as u64);
        let mut x = r.0;
        while x <= hi {
            s.0[x as usize / 64] |= 1 << (x % 64);
            x += 1;
        }
        s
    }
    fn has(&self, s: &Set, x: usize) -> bool {
        s.0[x / 64] >> (x % 64) & 1 == 1
    }
    /// dst |= src << k, truncated
    fn or_shift(&self, dst: &mut Set, src: &Set, k: usize) {
        let (wd, b) = (k / 64, k % 64);
        for i in (wd..self.words).rev() {
            let mut v = src.0[i - wd] << b;
            if b > 0 && i > wd {
                v |= src.0[i - wd - 1] >> (64 - b);
            }
            dst.0[i] |= v;
        }
        self.trunc(dst);
    }
    fn trunc(&self, s: &mut Set) {
        let extra = self.words * 64 - (self.t + 1);
        if extra > 0 {
            s.0[self.words - 1] &= u64::MAX >> extra;
        }
    }
    /// Minkowski sum
    fn sum(&self, a: &Set, b: &Set) -> Set {
        let mut d = self.empty();
        for x in 0..=self.t {
            if self.has(b, x) {
                self.or_shift(&mut d, a, x);
            }
        }
        d
    }
    /// the set of a LoopRange through its public interface
    fn of(&self, r: &LoopRange) -> Set {
        let mut s = self.empty();
        for x in 0..=self.t {
            if r.contains(x as u32) {
                s.0[x / 64] |= 1 << (x % 64);
            }
        }
        s
    }
}

fn ranges(n: u64) -> Vec<R> {
    let mut v = vec![];
    for i in 0..=n {
        for j in i..=n {
            v.push((i, Some(j)));
        }
        v.push((i, None));
    }
    v
}

fn show(r: R) -> String {
    match r.1 {
        Some(j) => format!("[{},{}]", r.0, j),
        None => format!("[{},inf]", r.0),
    }
}

/// Analytic forms used for the large bounds; validated against the sets on the small domain.
mod analytic {
    use super::R;
    pub fn add(a: R, b: R) -> (u128, Option<u128>) {
        (
            a.0 as u128 + b.0 as u128,
            match (a.1, b.1) {
                (Some(x), Some(y)) => Some(x as u128 + y as u128),
                _ => None,
            },
        )
    }
    pub fn scale(a: R, k: u64) -> (u128, Option<u128>) {
        if k == 0 {
            return (0, Some(0));
        }
        (a.0 as u128 * k as u128, a.1.map(|x| x as u128 * k as u128))
    }
    /// smallest interval containing all products
    pub fn mul(a: R, b: R) -> (u128, Option<u128>) {
        let zero = (0, Some(0));
        if a == zero || b == zero {
            return (0, Some(0));
        }
        (
            a.0 as u128 * b.0 as u128,
            match (a.1, b.1) {
                (Some(x), Some(y)) => Some(x as u128 * y as u128),
                _ => None,
            },
        )
    }
    /// is the union of the y-fold sums of r, y in s, an interval?
    pub fn exact(r: R, s: R) -> bool {
        if s.1 == Some(s.0) {
            return true; // a single sum
        }
        // consecutive sums y.r and (y+1).r must overlap or touch; gaps shrink as y grows,
        // so y = s.0 decides
        let y = s.0 as u128;
        match r.1 {
            None if y > 0 => true,
            None => r.0 <= 1, // {0} then [a, inf)
            Some(b) => y * b as u128 + 1 >= (y + 1) * r.0 as u128,
        }
    }
}

fn fits(r: (u128, Option<u128>)) -> Option<LoopRange> {
    let m = u32::MAX as u128;
    if r.0 > m || r.1.is_some_and(|x| x > m) {
        None
    } else {
        Some(mk((r.0 as u64, r.1.map(|x| x as u64))))
    }
}

/// closed-form comparison of all binary operations (the closed forms are validated against the
/// explicit sets by the family `pairs`)
fn pair_by_formula(r: R, s: R, st: &mut Stats) -> Check {
    let lr = mk(r);
    st.transitions += 4;
    let ls = mk(s);
    match fits(analytic::add(r, s)) {
        Some(e) => ensure!(lr.add(&ls) == e, "r.add(s) = {}", lr.add(&ls)),
        None => ensure!(panics(|| { lr.add(&ls); }), "r.add(s) returns a range although the result does not fit"),
    }
    let inc = r.0 <= s.0 && (r.1.is_none() || s.1.is_some() && s.1 <= r.1);
    ensure!(lr.includes(&ls) == inc, "r.includes(s) = {}", !inc);
    match fits(analytic::mul(r, s)) {
        Some(e) => {
            // the smallest interval that contains every product; the set for which
            // exactness is defined
            let m = lr.mul(&ls);
            let lo = analytic::mul(r, s).0 as u32;
            ensure!(m.contains(lo), "r.mul(s) = {} does not contain {}", m, lo);
            if let Some(hi) = analytic::mul(r, s).1 {
                ensure!(m.contains(hi as u32), "r.mul(s) = {} does not contain {}", m, hi);
            } else {
                ensure!(m.contains(u32::MAX), "r.mul(s) = {} is bounded", m);
            }
            let ex = m == e && analytic::exact(r, s);
            ensure!(
                lr.right_mul_is_exact(&ls) == ex,
                "r.right_mul_is_exact(s) = {}, r.mul(s) = {}", !ex, m
            );
        }
        None => ensure!(panics(|| { lr.mul(&ls); }), "r.mul(s) returns a range although the product does not fit"),
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    let n = ctx.tier.pick(32u64, 44);
    let rs = ranges(n);
    let dom = Dom::new(((n + 2) * (n + 1)) as usize);
    let m = rs.len() as u64;
    ctx.indexed(
        "one-range",
        &format!("all {} ranges with bounds <= {} or infinite: contains, shift, scale, predicates against sets in [0,{}]", m, n, dom.t),
        m,
        4,
        |w, i| {
            let r = rs[i as usize];
            w.case(i, || format!("range {}", show(r)), |st| {
                st.states += 1;
                let l = mk(r);
                let s = dom.range(r);
                let card = s.0.iter().map(|x| x.count_ones()).sum::<u32>();
                ensure!(dom.of(&l) == s, "contains()");
                ensure!(l.contains(u32::MAX) == r.1.is_none(), "contains(u32::MAX)");
                ensure!(l.is_finite() == r.1.is_some(), "is_finite");
                ensure!(l.is_infinite() == r.1.is_none(), "is_infinite");
                ensure!(l.is_point() == (r.1.is_some() && card == 1), "is_point");
                ensure!(l.is_zero() == (r == (0, Some(0))), "is_zero");
                ensure!(l.is_one() == (r == (1, Some(1))), "is_one");
                ensure!(l.is_all() == (r == (0, None)), "is_all");
                ensure!(l.start() as u64 == r.0, "start");
                // shift: predecessors, 0 stays 0
                let mut p = dom.empty();
                for x in 0..=dom.t {
                    if dom.has(&s, x) {
                        let y = x.saturating_sub(1);
                        p.0[y / 64] |= 1 << (y % 64);
                    }
                }
                if r.1.is_none() {
                    // the predecessor of t+1
                    p.0[dom.t / 64] |= 1 << (dom.t % 64);
                }
                let sh = l.shift();
                ensure!(dom.of(&sh) == p, "shift() = {}", sh);
                ensure!(sh.contains(u32::MAX - 1) == r.1.is_none(), "shift() = {}", sh);
                // k-fold sums
                let mut sum = dom.range((0, Some(0)));
                for k in 0..=n {
                    st.transitions += 1;
                    let sc = l.scale(k as u32);
                    ensure!(dom.of(&sc) == sum, "scale({}) = {}", k, sc);
                    ensure!(sc.contains(u32::MAX) == (r.1.is_none() && k > 0), "scale({}) = {}", k, sc);
                    ensure!(fits(analytic::scale(r, k)) == Some(sc), "scale({}) = {}", k, sc);
                    sum = dom.sum(&sum, &s);
                }
                for (name, x, e) in [
                    ("opt", LoopRange::opt(), (0, Some(1))),
                    ("star", LoopRange::star(), (0, None)),
                    ("plus", LoopRange::plus(), (1, None)),
                    ("point", LoopRange::point(r.0 as u32), (r.0, Some(r.0))),
                ] {
                    ensure!(x == mk(e), "{}", name);
                }
                Ok(())
            });
        },
    );
    ctx.indexed(
        "pairs",
        &format!("all {} ordered pairs of ranges with bounds <= {} or infinite: add, includes, mul, right_mul_is_exact against explicit (iterated) Minkowski sums", m * m, n),
        m,
        1,
        |w, i| {
            let r = rs[i as usize];
            let lr = mk(r);
            let sr = dom.range(r);
            // folds[y] = y-fold sum of r
            let mut folds = vec![dom.range((0, Some(0)))];
            while folds.len() <= n as usize + 1 {
                folds.push(dom.sum(folds.last().unwrap(), &sr));
            }
            // union of the y-fold sums for y >= c, for every c <= n (sums beyond t are empty
            // in the domain, or equal to {0} when r = {0}, or infinite)
            let mut tail = dom.empty();
            {
                let mut f = folds[n as usize + 1].clone();
                for _ in 0..=dom.t {
                    let before = tail.clone();
                    dom.or_shift(&mut tail, &f, 0);
                    let g = dom.sum(&f, &sr);
                    if g == f && tail == before {
                        break;
                    }
                    if g.0.iter().all(|&x| x == 0) {
                        break;
                    }
                    f = g;
                }
            }
            let mut suffix = vec![dom.empty(); n as usize + 2];
            suffix[n as usize + 1] = tail;
            for c in (0..=n as usize).rev() {
                let mut s = suffix[c + 1].clone();
                dom.or_shift(&mut s, &folds[c], 0);
                suffix[c] = s;
            }
            for (j, &s) in rs.iter().enumerate() {
                if w.stopping() {
                    return;
                }
                w.case(j as u64, || format!("ranges r = {}, s = {}", show(r), show(s)), |st| {
                    st.states += 1;
                    st.transitions += 4;
                    let ls = mk(s);
                    let ss = dom.range(s);
                    let sum = lr.add(&ls);
                    let exp = {
                        let (a, b) = (sr.clone(), ss.clone());
                        // s has few elements in the small domain unless infinite
                        dom.sum(&a, &b)
                    };
                    ensure!(dom.of(&sum) == exp, "r.add(s) = {}", sum);
                    ensure!(sum.contains(u32::MAX) == (r.1.is_none() || s.1.is_none()), "r.add(s) = {}", sum);
                    ensure!(fits(analytic::add(r, s)) == Some(sum), "r.add(s) = {}", sum);
                    if s.1 == Some(s.0) {
                        ensure!(lr.add_point(s.0 as u32) == sum, "add_point");
                    }
                    let inc = ss.0.iter().zip(&sr.0).all(|(x, y)| x & !y == 0)
                        && (s.1.is_some() || r.1.is_none());
                    ensure!(lr.includes(&ls) == inc, "r.includes(s) = {}", !inc);
                    // products
                    let m = lr.mul(&ls);
                    let small = |x: R| (x.0..=x.1.unwrap_or(x.0 + 3)).collect::<Vec<u64>>();
                    for &x in &small(r) {
                        for &y in &small(s) {
                            ensure!(m.contains((x * y) as u32), "r.mul(s) = {} does not contain {}*{}", m, x, y);
                        }
                    }
                    if (r.1.is_none() && s != (0, Some(0))) || (s.1.is_none() && r != (0, Some(0))) {
                        for z in [u32::MAX, 1 << 31, 1_000_000_007] {
                            // z (or a multiple close to it) is a product; an interval containing
                            // arbitrarily large products is infinite
                            ensure!(m.contains(z), "r.mul(s) = {} is bounded", m);
                        }
                    }
                    // union of the y-fold sums
                    let k = match s.1 {
                        None => suffix[s.0 as usize].clone(),
                        Some(d) => {
                            let mut u = dom.empty();
                            for y in s.0..=d {
                                dom.or_shift(&mut u, &folds[y as usize], 0);
                            }
                            u
                        }
                    };
                    let bounded = (r.1.is_some() || s == (0, Some(0))) && (s.1.is_some() || r == (0, Some(0)));
                    let same = dom.of(&m) == k && m.contains(u32::MAX) != bounded;
                    ensure!(
                        lr.right_mul_is_exact(&ls) == same,
                        "r.right_mul_is_exact(s) = {}, r.mul(s) = {}", !same, m
                    );
                    // the analytic forms used for large bounds agree with the sets
                    assert!(analytic::exact(r, s) == same, "oracle: analytic form of exactness");
                    Ok(())
                });
            }
        },
    );
    // bounds near the limits of u32
    let mut vals: Vec<u64> = vec![0, 1, 2, 3, 7];
    for p in [1u64 << 15, 1 << 16, 1 << 31, 1 << 32, 0x5555_5555, 46341, 92682] {
        for d in -2i64..=2 {
            let x = p as i64 + d;
            if x <= u32::MAX as i64 {
                vals.push(x as u64);
            }
        }
    }
    vals.sort();
    vals.dedup();
    if ctx.tier.thorough() {
        for k in 2..32 {
            for d in [-1i64, 0, 1] {
                vals.push(((1i64 << k) + d) as u64);
            }
        }
        vals.sort();
        vals.dedup();
    }
    let mut big: Vec<R> = vec![];
    for (k, &i) in vals.iter().enumerate() {
        for &j in &vals[k..] {
            big.push((i, Some(j)));
        }
        big.push((i, None));
    }
    let nb = big.len() as u64;
    ctx.indexed(
        "large-bounds",
        &format!("all ordered pairs of {} ranges with bounds in {} critical values up to u32::MAX: exact result when representable, panic (never a wrong range) when not", nb, vals.len()),
        nb,
        1,
        |w, i| {
            let r = big[i as usize];
            let lr = mk(r);
            w.case(i, || format!("range {}", show(r)), |st| {
                st.states += 1;
                for &k in &vals {
                    st.transitions += 1;
                    let inside = r.0 <= k && r.1.is_none_or(|b| k <= b);
                    ensure!(lr.contains(k as u32) == inside, "contains({})", k);
                    match fits(analytic::scale(r, k)) {
                        Some(e) => ensure!(lr.scale(k as u32) == e, "scale({}) = {}", k, lr.scale(k as u32)),
                        None => ensure!(panics(|| { lr.scale(k as u32); }), "scale({}) returns a range although the result does not fit", k),
                    }
                }
                let sh = (r.0.saturating_sub(1), r.1.map(|x| x.saturating_sub(1)));
                ensure!(lr.shift() == mk(sh), "shift() = {}", lr.shift());
                Ok(())
            });
            for (j, &s) in big.iter().enumerate() {
                if w.stopping() {
                    return;
                }
                w.case(j as u64, || format!("ranges r = {}, s = {}", show(r), show(s)), |st| {
                    pair_by_formula(r, s, st)
                });
            }
        },
    );
    // every pair of ranges with larger bounds, by the closed forms
    let nm = ctx.tier.pick(160u64, 300);
    let rs = ranges(nm);
    let m = rs.len() as u64;
    ctx.indexed(
        "pairs-by-formula",
        &format!("all {} ordered pairs of ranges with bounds <= {} or infinite: add, includes, mul, right_mul_is_exact against the closed forms", m * m, nm),
        m,
        4,
        |w, i| {
            let r = rs[i as usize];
            for (j, &s) in rs.iter().enumerate() {
                if j % 1024 == 0 && w.stopping() {
                    return;
                }
                w.case(j as u64, || format!("ranges r = {}, s = {}", show(r), show(s)), |st| pair_by_formula(r, s, st));
            }
        },
    );
    // where a product becomes exact: y-fold and (y+1)-fold sums of [a, a+d] touch from y = (a-1)/d on
    let na = ctx.tier.pick(5000u64, 40000);
    ctx.indexed(
        "exactness-threshold",
        &format!("r = [a,a+d] for a <= {} and around powers of two, d <= 40 and around powers of two, s = [c,c], [c,c+1], [c,c+9], [c,inf) for c within 2 of the smallest exact one", na),
        na + 96,
        16,
        |w, i| {
            let a = if i < na { i } else { (1u64 << ((i - na) / 3)) + (i - na) % 3 - 1 };
            for d in (0..=40u64).chain((6..32).flat_map(|k| [(1u64 << k) - 1, 1 << k, (1 << k) + 1])) {
                if a + d > u32::MAX as u64 {
                    continue;
                }
                let thr = if d == 0 { 1 } else { (a.saturating_sub(1)).div_ceil(d) };
                for c in thr.saturating_sub(2)..=thr + 2 {
                    for e in [Some(c), Some(c + 1), Some(c + 9), None] {
                        if e.unwrap_or(c) > u32::MAX as u64 {
                            continue;
                        }
                        let (r, s) = ((a, Some(a + d)), (c, e));
                        w.case(d << 32 | c, || format!("ranges r = {}, s = {}", show(r), show(s)), |st| {
                            // the result must be representable, or the call panics
                            pair_by_formula(r, s, st)
                        });
                    }
                }
            }
        },
    );
}
