//! Sizes beyond 2^16 (and bounds up to 2^32), where the expected answer has a closed form: counters,
//! identifiers and positions stored in too few bits show up here.

use crate::ensure;
use crate::rt::*;
use crate::strs::{ref_find, V};
use crate::world::Check;
use crate::util::*;
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as re;
use aws_smt_strings::smt_strings::*;

// ------------------------------------------------------------------------------------------------
// expressions: X^[lo, hi] where X is a range or a word of ranges, and long words

/// Strings of letters taken from the sets `body`, repeated: position i must be in body[i % len].
/// Accepted lengths: lo*len, (lo+1)*len, ..., hi*len (no upper limit if hi is None).
#[derive(Clone, Debug)]
struct Rep {
    body: Vec<(u32, u32)>,
    lo: u64,
    hi: Option<u64>,
}

impl Rep {
    fn len(&self) -> u64 {
        self.body.len() as u64
    }
    /// number of different positions; without upper limit, the last period is a cycle
    fn positions(&self) -> u64 {
        match self.hi {
            Some(h) => h * self.len() + 1,
            None => self.lo.max(1) * self.len(),
        }
    }
    fn fin(&self, i: u64) -> bool {
        i % self.len() == 0 && i / self.len() >= self.lo && self.hi.map_or(true, |h| i / self.len() <= h)
    }
    /// the set of characters that lead from i to i+1
    fn set(&self, i: u64) -> Option<(u32, u32)> {
        if self.hi.map_or(false, |h| i >= h * self.len()) {
            None
        } else {
            Some(self.body[(i % self.len()) as usize])
        }
    }
    fn accepts(&self, s: &[u32]) -> bool {
        s.iter().enumerate().all(|(i, c)| self.set(i as u64).map_or(false, |(x, y)| x <= *c && *c <= y)) && self.fin(s.len() as u64)
    }
    fn text(&self, n: u64) -> V {
        (0..n).map(|i| { let (x, y) = self.body[(i % self.len()) as usize]; if i % 3 == 0 { y } else { x } }).collect()
    }
    fn outside(&self, i: u64) -> Vec<u32> {
        match self.set(i) {
            None => vec![0, 0x61, MAX],
            Some((x, y)) => [x.wrapping_sub(1), y + 1, 0, MAX].into_iter().filter(|&c| c <= MAX && !(x <= c && c <= y)).collect(),
        }
    }
    fn inside(&self, i: u64) -> Vec<u32> {
        self.set(i).map_or(vec![], |(x, y)| if x == y { vec![x] } else { vec![x, y, x + (y - x) / 2] })
    }
    fn build(&self, m: &mut ReManager) -> RegLan {
        let l: Vec<RegLan> = self.body.iter().map(|&(x, y)| m.range(x, y)).collect();
        if self.lo == 1 && self.hi == Some(1) {
            if self.body.iter().all(|b| b.0 == b.1) {
                return m.str(&smt(&self.text(self.len())));
            }
            return m.concat_list(l);
        }
        let x = m.concat_list(l);
        match self.hi {
            Some(h) if h == self.lo => m.exp(x, h as u32),
            Some(h) => m.smt_loop(x, self.lo as u32, h as u32),
            None => m.mk_loop(x, LoopRange::infinite(self.lo as u32)),
        }
    }
    fn build_wrap(&self) -> RegLan {
        let l: Vec<RegLan> = self.body.iter().map(|&(x, y)| re::re_range(&smt(&[x]), &smt(&[y]))).collect();
        if self.lo == 1 && self.hi == Some(1) {
            if self.body.iter().all(|b| b.0 == b.1) {
                return re::str_to_re(&smt(&self.text(self.len())));
            }
            return re::re_concat_list(l);
        }
        let x = re::re_concat_list(l);
        match self.hi {
            Some(h) if h == self.lo => re::re_power(x, h as u32),
            Some(h) => re::re_loop(x, self.lo as u32, h as u32),
            None => {
                let p = re::re_power(x, self.lo as u32);
                re::re_concat(p, re::re_star(x))
            }
        }
    }
    fn show(&self) -> String {
        let b: Vec<String> = self.body.iter().take(4).map(|(x, y)| format!("[{:x}-{:x}]", x, y)).collect();
        format!("({}{})^[{}, {}]", b.join(" "), if self.body.len() > 4 { format!(" ... {} sets", self.body.len()) } else { String::new() }, self.lo, self.hi.map_or("inf".into(), |h| h.to_string()))
    }
}

fn interesting(i: u64, n: u64) -> bool {
    let near = |x: u64| i + 2 >= x && i <= x + 2;
    i <= 3 || near(n) || [1u64 << 8, 1 << 12, 1 << 15, 1 << 16, 1 << 17].iter().any(|&x| near(x)) || near(n - (1 << 16).min(n))
}

fn reps(tier: Tier) -> Vec<Rep> {
    let a = vec![(0x61, 0x61)];
    let r = vec![(0x61, 0x7FFF)];
    let top = vec![(0x10000, MAX)];
    let all = vec![(0, MAX)];
    let ab = vec![(0x61, 0x61), (0x62, 0x62)];
    let mut v = vec![
        Rep { body: a.clone(), lo: 65537, hi: Some(65537) },
        Rep { body: r.clone(), lo: 65535, hi: Some(65536) },
        Rep { body: all.clone(), lo: 65534, hi: Some(65538) },
        Rep { body: top.clone(), lo: 65536, hi: None },
        Rep { body: all.clone(), lo: 65537, hi: None },
        Rep { body: a.clone(), lo: 0, hi: Some(66000) },
        Rep { body: ab.clone(), lo: 32768, hi: Some(32769) },
        Rep { body: ab.clone(), lo: 32769, hi: None },
    ];
    let word = |n: u32| (0..n).map(|i| { let c = 0x61 + (i.wrapping_mul(i) / 5 + i / 7) % 3 + if i > 65530 { 0x20000 } else { 0 }; (c, c) }).collect::<Vec<_>>();
    v.push(Rep { body: word(65536), lo: 1, hi: Some(1) });
    v.push(Rep { body: word(65540), lo: 1, hi: Some(1) });
    if tier.thorough() {
        v.push(Rep { body: a.clone(), lo: 131072, hi: Some(131073) });
        v.push(Rep { body: r.clone(), lo: 200000, hi: None });
        v.push(Rep { body: word(131073), lo: 1, hi: Some(1) });
        v.push(Rep { body: vec![(0, 5), (3, 9), (0, MAX)], lo: 21846, hi: Some(43691) });
        for n in [65533u64, 65534, 65535, 65536, 65538] {
            v.push(Rep { body: a.clone(), lo: n, hi: Some(n) });
            v.push(Rep { body: r.clone(), lo: n / 2, hi: Some(n) });
        }
    }
    v
}

/// no string is accepted from t on: all derivatives by a set of characters that meets every class used here
fn rejects(m: &mut ReManager, t: RegLan) -> bool {
    let mut seen: Vec<RegLan> = vec![t];
    let mut i = 0;
    while i < seen.len() {
        let t = seen[i];
        if t.nullable {
            return false;
        }
        for c in [0, 4, 7, 0x20, 0x60, 0x61, 0x62, 0x63, 0x64, 0x7FFF, 0x8000, 0x10000, 0x20061, 0x20062, 0x20063, MAX] {
            let d = m.char_derivative(t, c);
            if !seen.iter().any(|x| std::ptr::eq(*x, d)) {
                seen.push(d);
            }
        }
        i += 1;
    }
    true
}

/// the terms after each prefix, by char_derivative
fn walk(m: &mut ReManager, e: RegLan, r: &Rep, n: u64, st: &mut Stats, f: &mut dyn FnMut(&mut ReManager, RegLan, u64, &mut Stats) -> Check) -> Check {
    let mut t = e;
    for i in 0..n {
        st.states += 1;
        f(m, t, i, st).map_err(|e| format!("after {} characters: {}", i, e))?;
        if let Some((x, y)) = r.set(i) {
            st.transitions += 1;
            t = m.char_derivative(t, if i % 2 == 0 { x } else { y });
        }
    }
    Ok(())
}

fn nullable_at(m: &mut ReManager, t: RegLan, r: &Rep, i: u64, st: &mut Stats) -> Check {
    ensure!(t.nullable == r.fin(i), "nullable = {}", t.nullable);
    st.transitions += 4;
    for c in r.outside(i) {
        let d = m.char_derivative(t, c);
        ensure!(rejects(m, d), "the derivative by {:#x} is not empty", c);
    }
    Ok(())
}

/// words that tell the accepted lengths apart
fn probes(r: &Rep) -> Vec<V> {
    let mut lens = vec![];
    for k in [Some(r.lo), r.hi, r.hi.map(|h| (h + r.lo) / 2), Some(r.lo + 65536), Some(r.lo.saturating_sub(65536)), Some(1), Some(0)].into_iter().flatten() {
        for x in [(k * r.len()).saturating_sub(1), k * r.len(), k * r.len() + 1] {
            if x <= 300_000 {
                lens.push(x);
            }
        }
    }
    lens.sort_unstable();
    lens.dedup();
    let mut v: Vec<V> = vec![];
    for &l in &lens {
        let w = r.text(l);
        v.push(w);
    }
    if r.lo * r.len() > 0 && r.lo * r.len() < 300_000 {
        let w = r.text(r.lo * r.len());
        for p in [0, w.len() / 2, w.len() - 1] {
            if let Some(&c) = r.outside(p as u64).first() {
                let mut x = w.clone();
                x[p] = c;
                v.push(x);
            }
        }
    }
    v
}

pub fn expressions(ctx: &Ctx) {
    let l = reps(ctx.tier);
    let prop = ctx.prop.clone();
    ctx.indexed("beyond-16-bits", &format!("{} expressions with more than 2^16 derivatives: X^[lo, hi] for ranges and words X, lo and hi around 2^16, and words of 2^16 letters; against the closed form", l.len()), l.len() as u64, 1, |w, i| {
        let r = &l[i as usize];
        w.case(i, || r.show(), |st| one_expression(&prop, r, st));
    });
}

fn one_expression(prop: &str, r: &Rep, st: &mut Stats) -> Check {
    let mut mgr = ReManager::new();
    let m = &mut mgr;
    let e = r.build(m);
    let n = r.positions();
    match prop {
        "C01" => {
            walk(m, e, r, n, st, &mut |m, t, i, st| {
                nullable_at(m, t, r, i, st)
            })?;
            let x = r.build_wrap();
            for s in probes(r) {
                st.traces += 2;
                let b = r.accepts(&s);
                ensure!(m.str_in_re(&smt(&s), e) == b, "str_in_re of a string of length {} is {}", s.len(), !b);
                ensure!(re::str_in_re(&smt(&s), x) == b, "str_in_re (wrappers) of a string of length {} is {}", s.len(), !b);
            }
        }
        "C02" => {
            let a = m.compile(e);
            let mut s = a.initial_state();
            let mut dead: Vec<bool> = vec![false; a.num_states()];
            for i in 0..n {
                st.states += 1;
                ensure!(s.is_final() == r.fin(i), "after {} characters, is_final = {}", i, s.is_final());
                for c in r.outside(i) {
                    st.transitions += 1;
                    // everything reached from here rejects
                    let mut q = vec![a.next(s, c)];
                    while let Some(d) = q.pop() {
                        if !dead[d.id()] {
                            dead[d.id()] = true;
                            ensure!(!d.is_final(), "after {} characters and {:#x}, a continuation is accepted", i, c);
                            for c in [0, 0x60, 0x61, 0x62, 0x63, 0x7FFF, 0x8000, 0x10000, MAX] {
                                q.push(a.next(d, c));
                            }
                        }
                    }
                }
                if let Some(&c) = r.inside(i).first() {
                    let d = a.next(s, c);
                    for c in r.inside(i) {
                        st.transitions += 1;
                        ensure!(a.next(s, c).id() == d.id(), "after {} characters, two characters of the same set lead to different states", i);
                    }
                    ensure!(!dead[d.id()], "after {} characters, a member is rejected", i + 1);
                    s = d;
                }
            }
            for s in probes(r) {
                st.traces += 1;
                let b = r.accepts(&s);
                ensure!(a.accepts(&smt(&s)) == b, "accepts of a string of length {} is {}", s.len(), !b);
            }
        }
        "C03" => {
            walk(m, e, r, n, st, &mut |m, t, i, st| {
                let ins = r.inside(i);
                for cid in t.class_ids().collect::<Vec<_>>() {
                    st.transitions += 1;
                    let d = m.class_derivative(t, cid).map_err(|e| format!("class_derivative({}): {}", cid, e))?;
                    let ranges: Vec<CharSet> = t.char_ranges().copied().collect();
                    // a character of the class
                    let c = match cid {
                        ClassId::Interval(k) => ranges[k].pick(),
                        ClassId::Complement => match [0u32, 0x60, 0x61, 0x62, 0x7FFF, 0x8000, MAX].into_iter().find(|&c| ranges.iter().all(|x| !x.contains(c))) {
                            Some(c) => c,
                            None => continue,
                        },
                    };
                    let f = m.char_derivative(t, c);
                    ensure!(same(m, d, f, r, i, c), "class_derivative({}) is not char_derivative({:#x})", cid, c);
                    if let ClassId::Interval(k) = cid {
                        let d = m.set_derivative(t, &ranges[k]).map_err(|e| format!("set_derivative of a class: {}", e))?;
                        ensure!(same(m, d, f, r, i, c), "set_derivative is not char_derivative({:#x})", c);
                    }
                }
                ensure!(m.class_derivative(t, ClassId::Interval(t.num_deriv_classes())).is_err(), "class_derivative accepts an invalid class");
                let mut first = None;
                for &c in &ins {
                    let d = m.char_derivative(t, c);
                    ensure!(d.nullable == r.fin(i + 1), "nullable of the derivative by {:#x} = {}", c, d.nullable);
                    let f = *first.get_or_insert(d);
                    ensure!(same(m, d, f, r, i, c), "derivatives by two characters of the same set differ");
                }
                for c in r.outside(i) {
                    st.transitions += 1;
                    let d = m.char_derivative(t, c);
                    ensure!(rejects(m, d), "the derivative by {:#x} is not empty", c);
                }
                Ok(())
            })?;
            for k in [0, 1, 255, 256, 65535, 65536, 65537] {
                if k < n {
                    let d = m.str_derivative(e, &smt(&r.text(k)));
                    ensure!(d.nullable == r.fin(k), "str_derivative along {} characters: nullable = {}", k, d.nullable);
                    let d = m.str_derivative(d, &smt(&r.text(r.positions())[k as usize..]));
                    let l = r.positions();
                    ensure!(d.nullable == r.fin(l), "str_derivative along {} + {} characters: nullable = {}", k, l - k, d.nullable);
                }
            }
        }
        "C05" => {
            walk(m, e, r, n, st, &mut |m, t, i, st| {
                if !interesting(i, n) {
                    return Ok(());
                }
                st.transitions += 2;
                ensure!(!m.is_empty_re(t), "is_empty_re = true");
                let s = m.get_string(t).ok_or("get_string = None")?;
                ensure!(s.is_good(), "get_string is not well formed");
                let mut w = r.text(i);
                w.extend(content(&s));
                ensure!(r.accepts(&w), "get_string gives a string of length {}, not a member", s.len());
                ensure!(m.str_in_re(&s, t), "str_in_re rejects the string of length {} given by get_string", s.len());
                for c in r.outside(i) {
                    let d = m.char_derivative(t, c);
                    ensure!(m.is_empty_re(d) && m.get_string(d).is_none(), "the derivative by {:#x} is not empty", c);
                }
                Ok(())
            })?;
            let a = m.compile(e);
            let s = m.get_string(e).unwrap();
            ensure!(a.accepts(&s), "the compiled automaton rejects the string of length {} given by get_string", s.len());
        }
        "C18" => {
            walk(m, e, r, n, st, &mut |m, t, i, st| {
                // one call can take time proportional to n
                if !interesting(i, n) {
                    return Ok(());
                }
                for c in r.inside(i) {
                    st.transitions += 1;
                    ensure!(m.start_char(t, c), "start_char({:#x}) = false", c);
                }
                for c in r.outside(i) {
                    st.transitions += 1;
                    ensure!(!m.start_char(t, c), "start_char({:#x}) = true", c);
                }
                for cid in t.class_ids().collect::<Vec<_>>() {
                    if let ClassId::Interval(k) = cid {
                        let c = t.char_ranges().nth(k).unwrap().pick();
                        let b = r.set(i).map_or(false, |(x, y)| x <= c && c <= y);
                        ensure!(m.start_class(t, cid) == Ok(b), "start_class({}) = {:?}", cid, m.start_class(t, cid));
                    }
                }
                ensure!(m.start_class(t, ClassId::Interval(t.num_deriv_classes())).is_err(), "start_class accepts an invalid class");
                Ok(())
            })?;
        }
        "C19" => {
            let l: Vec<*const RE> = m.iter_derivatives(e).map(|d| d as *const RE).collect();
            ensure!(l[0] == e as *const RE, "the first derivative is not the expression");
            let mut set: std::collections::HashSet<*const RE> = Default::default();
            for t in &l {
                ensure!(set.insert(*t), "a derivative is listed twice");
            }
            let mut q = vec![e];
            let mut own: std::collections::HashSet<*const RE> = Default::default();
            own.insert(e as *const RE);
            while let Some(t) = q.pop() {
                st.states += 1;
                ensure!(set.contains(&(t as *const RE)), "a derivative is not listed");
                for c in [0, 2, 3, 5, 6, 9, 10, 0x60, 0x61, 0x62, 0x63, 0x7FFF, 0x8000, 0x10000, 0x20061, 0x20062, 0x20063, MAX] {
                    st.transitions += 1;
                    let d = m.char_derivative(t, c);
                    if own.insert(d as *const RE) {
                        q.push(d);
                    }
                }
            }
            ensure!(own.len() == l.len(), "{} derivatives are listed, there are {}", l.len(), own.len());
            let k = l.len();
            for b in [0, 1, k & 0xFFFF, 65535, 65536, k - 1] {
                if b < k {
                    ensure!(m.try_compile(e, b).is_none(), "try_compile with bound {} succeeds: there are {} derivatives", b, k);
                }
            }
            for b in [k, k + 1, 65536 * 2 + 1, usize::MAX] {
                if b >= k {
                    let a = m.try_compile(e, b).ok_or(format!("try_compile with bound {} fails: there are {} derivatives", b, k))?;
                    ensure!(a.num_states() == k, "try_compile gives {} states: there are {} derivatives", a.num_states(), k);
                }
            }
            let a = m.compile(e);
            ensure!(a.num_states() == k && a.states().count() == k, "compile gives {} states: there are {} derivatives", a.num_states(), k);
        }
        _ => unreachable!(),
    }
    Ok(())
}

/// Terms for the strings that complete a member after i characters and c: normally the same object
fn same(m: &mut ReManager, d: RegLan, f: RegLan, r: &Rep, i: u64, c: u32) -> bool {
    if std::ptr::eq(d, f) {
        return true;
    }
    // compare on the completions of a member
    let inside = r.set(i).map_or(false, |(x, y)| x <= c && c <= y);
    let w = r.text(r.positions() + r.len());
    let w = smt(&w[(i as usize + 1).min(w.len())..]);
    let (mut x, mut y) = (d, f);
    for (k, &c) in w.iter().enumerate() {
        let b = inside && r.fin(i + 1 + k as u64);
        if x.nullable != b || y.nullable != b {
            return false;
        }
        x = m.char_derivative(x, c);
        y = m.char_derivative(y, c);
    }
    true
}

// ------------------------------------------------------------------------------------------------
// loops with bounds up to 2^32 - 1 (C01, C10 not): counts up to a few hundred

pub fn loop_bounds(ctx: &Ctx) {
    const B: [u32; 22] = [0, 1, 2, 3, 4, 5, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX - 1, u32::MAX];
    let mut ranges: Vec<(u64, Option<u64>)> = vec![];
    for (i, &x) in B.iter().enumerate() {
        for &y in &B[i..] {
            ranges.push((x as u64, Some(y as u64)));
        }
        ranges.push((x as u64, None));
    }
    let fits = |x: u64| x <= u32::MAX as u64;
    let n = ranges.len() as u64;
    ctx.indexed("loop-bounds", &format!("(X^r)^s, X^r X^s, (X^r)? X and comp(X^r) for X = [a-c], allchar and all {} ranges r, s with bounds in {:?} or infinite (as far as the bounds of the result fit in 32 bits), on all counts to 12 and around 127..300; through the manager and the wrappers", n, B), n, 8, |w, i| {
        let mut m = ReManager::new();
        let r = ranges[i as usize];
        for (body, lo, hi) in [(0, 0x61u32, 0x63u32), (1, 0, MAX)] {
            for (j, s) in ranges.iter().enumerate() {
                if w.stopping() {
                    return;
                }
                w.case((j * 2 + body) as u64, || format!("loops of [{:x}-{:x}] with bounds {:?} and {:?}", lo, hi, r, s), |st| {
                    let x = m.range(lo, hi);
                    let xw = re::re_range(&smt(&[lo]), &smt(&[hi]));
                    let lp = |m: &mut ReManager, x: RegLan, r: (u64, Option<u64>)| match r.1 {
                        Some(h) => m.smt_loop(x, r.0 as u32, h as u32),
                        None => m.mk_loop(x, LoopRange::infinite(r.0 as u32)),
                    };
                    let lw = |x: RegLan, r: (u64, Option<u64>)| match r.1 {
                        Some(h) => re::re_loop(x, r.0 as u32, h as u32),
                        None => re::re_concat(re::re_power(x, r.0 as u32), re::re_star(x)),
                    };
                    let t = lp(&mut m, x, r);
                    let tw = lw(xw, r);
                    let in_r = |k: u64, r: (u64, Option<u64>)| r.0 <= k && r.1.map_or(true, |h| k <= h);
                    // is k a sum of y counts in r, for some y in s?
                    let nested = |k: u64| {
                        let (a, b) = r;
                        // y*a <= k <= y*b
                        let top = if a == 0 { s.1.unwrap_or(k.max(s.0)).min(k.max(s.0)) } else { s.1.unwrap_or(u64::MAX).min(k / a) };
                        let low = s.0;
                        if top < low {
                            return false;
                        }
                        // the largest number of copies allowed by the lower bound
                        match b {
                            None => low == 0 && k == 0 || top >= low.max(1) && (a * low.max(1) <= k) || k == 0 && a == 0,
                            Some(b) => (low..=top.min(low + 400)).chain(std::iter::once(top)).any(|y| y as u128 * a as u128 <= k as u128 && k as u128 <= y as u128 * b as u128),
                        }
                    };
                    let counts: Vec<u64> = (0..=12).collect();
                    let more: Vec<u64> = [126, 127, 128, 129, 254, 255, 256, 257, 258, 300].to_vec();
                    let text = |k: u64| -> SmtString { smt(&(0..k).map(|i| if i % 2 == 0 { lo } else { hi }).collect::<V>()) };
                    // a single loop
                    if j == 0 {
                        let c = m.complement(t);
                        for &k in counts.iter().chain(&more) {
                            st.traces += 3;
                            let b = in_r(k, r);
                            ensure!(m.str_in_re(&text(k), t) == b, "X^r: {} copies: {}", k, !b);
                            ensure!(m.str_in_re(&text(k), c) != b, "comp X^r: {} copies: {}", k, b);
                            ensure!(re::str_in_re(&text(k), tw) == b, "X^r (wrappers): {} copies: {}", k, !b);
                        }
                        ensure!(t.nullable == in_r(0, r), "X^r: nullable");
                    }
                    // two in a row
                    let sum_fits = fits(r.0 + s.0) && match (r.1, s.1) { (Some(a), Some(b)) => fits(a + b), _ => true };
                    if sum_fits {
                        let u = lp(&mut m, x, *s);
                        let p = m.concat(t, u);
                        let q = (r.0 + s.0, match (r.1, s.1) { (Some(a), Some(b)) => Some(a + b), _ => None });
                        for &k in counts.iter().chain(&more[4..8]) {
                            st.traces += 1;
                            let b = in_r(k, q);
                            ensure!(m.str_in_re(&text(k), p) == b, "X^r X^s: {} copies: {}", k, !b);
                        }
                        ensure!(p.nullable == in_r(0, q), "X^r X^s: nullable");
                    }
                    // nested
                    let zero = |r: (u64, Option<u64>)| r == (0, Some(0));
                    let prod_fits = zero(r) || zero(*s) || fits(r.0 * s.0) && match (r.1, s.1) { (Some(a), Some(b)) => a.checked_mul(b).map_or(false, fits), _ => true };
                    if prod_fits {
                        let p = lp(&mut m, t, *s);
                        let small = r.0 <= 5 && r.1.map_or(true, |h| h > 5);
                        ensure!(p.nullable == nested(0), "(X^r)^s: nullable = {}", p.nullable);
                        for &k in counts.iter().take(if small { 13 } else { 9 }) {
                            st.traces += 1;
                            let b = nested(k);
                            ensure!(m.str_in_re(&text(k), p) == b, "(X^r)^s: {} copies: {}", k, !b);
                        }
                        // without upper limit, the wrappers build the power by the lower limit first
                        if s.1.is_some() || r.1.map_or(true, |b| fits(b * s.0)) {
                            let pw = lw(tw, *s);
                            for &k in &counts[..5] {
                                st.traces += 1;
                                let b = nested(k);
                                ensure!(re::str_in_re(&text(k), pw) == b, "(X^r)^s (wrappers): {} copies: {}", k, !b);
                            }
                        }
                    }
                    st.states += 1;
                    Ok(())
                });
            }
        }
    });
}

// ------------------------------------------------------------------------------------------------
// strings longer than 2^16

fn long_text(n: usize, v: u64) -> V {
    (0..n)
        .map(|i| match v {
            0 => 0x61,
            1 => 0x61 + (i % 2) as u32,
            2 => 0x61 + (i % 65536 % 7 % 3) as u32,
            _ => (i as u32 * 7) % (MAX + 1),
        })
        .collect()
}

const LENS: [usize; 7] = [65534, 65535, 65536, 65537, 65538, 70000, 131073];

fn find_all(s: &[u32], p: &[u32]) -> Vec<usize> {
    let mut v = vec![];
    let mut i = 0;
    while i + p.len() <= s.len() {
        if s[i..i + p.len()] == *p {
            v.push(i);
            i += p.len();
        } else {
            i += 1;
        }
    }
    v
}

fn replaced(s: &[u32], at: &[usize], n: usize, r: &[u32]) -> V {
    let mut v = vec![];
    let mut i = 0;
    for &j in at {
        v.extend_from_slice(&s[i..j]);
        v.extend_from_slice(r);
        i = j + n;
    }
    v.extend_from_slice(&s[i..]);
    v
}

/// (text, where a mark was put)
fn texts(i: u64) -> (V, usize) {
    let n = LENS[i as usize % LENS.len()];
    let v = i / LENS.len() as u64 % 4;
    let mut s = long_text(n, v);
    // a mark at one position
    let at = [n - 1, n - 2, 65535, 65536, 65537, 32768, 0][(i / LENS.len() as u64 / 4) as usize].min(n - 1);
    s[at] = 0x5A5A;
    (s, at)
}
const TEXTS: u64 = 7 * 4 * 7;

pub fn strings(ctx: &Ctx) {
    let prop = ctx.prop.clone();
    let bound = "texts of length n for n in [65534..65538, 70000, 131073], 4 kinds of content, a mark at one of 7 positions";
    ctx.indexed("beyond-16-bits", bound, TEXTS, 4, |w, i| {
        let (s, at) = texts(i);
        w.case(i, || format!("text of length {}, content {}, mark at {}", s.len(), i / 7 % 4, at), |st| {
            st.states += 1;
            match prop.as_str() {
                "C06" => long_c06(&s, at, st),
                "C08" => long_c08(&s, st),
                "C09" => long_c09(&s, at, st),
                "C10" => long_c10(&s, at, st),
                _ => long_c17(&s, st),
            }
        });
    });
}

fn long_c06(s: &V, at: usize, st: &mut Stats) -> Check {
    let n = s.len();
    let x = smt(s);
    ensure!(str_len(&x) as usize == n && x.len() == n, "str_len = {}", str_len(&x));
    let mut pos: Vec<i64> = vec![-1, 0, 1, 255, 256, 65535, 65536, 65537, at as i64 - 1, at as i64, at as i64 + 1, n as i64 - 1, n as i64, n as i64 + 1];
    pos.sort_unstable();
    pos.dedup();
    for &i in &pos {
        st.transitions += 1;
        let e = if i >= 0 && (i as usize) < n { vec![s[i as usize]] } else { vec![] };
        ensure!(content(&str_at(&x, i as i32)) == e, "str_at({})", i);
        for &k in &pos {
            st.transitions += 1;
            let e = if i < 0 || i >= n as i64 || k <= 0 { vec![] } else { s[i as usize..((i + k) as usize).min(n)].to_vec() };
            ensure!(content(&str_substr(&x, i as i32, k as i32)) == e, "str_substr({}, {})", i, k);
        }
    }
    let mut pats: Vec<V> = vec![vec![], vec![0x5A5A], vec![0x61], vec![0x59], s[at.saturating_sub(2)..(at + 3).min(n)].to_vec(), s[n - 3..].to_vec(), s[..3].to_vec(), s.clone(), s[1..].to_vec(), s[..n - 1].to_vec()];
    let mut longer = s.clone();
    longer.push(0x61);
    pats.push(longer);
    for p in &pats {
        let y = smt(p);
        st.transitions += 6;
        ensure!(str_prefixof(&y, &x) == s.starts_with(p), "str_prefixof(p of length {})", p.len());
        ensure!(str_suffixof(&y, &x) == s.ends_with(p), "str_suffixof(p of length {})", p.len());
        let f = ref_find(s, p, 0);
        ensure!(str_contains(&x, &y) == f.is_some(), "str_contains(p of length {})", p.len());
        for &i in &pos {
            let e = if i < 0 || i > n as i64 { -1 } else { ref_find(s, p, i as usize).map_or(-1, |k| k as i64) };
            let r = str_indexof(&x, &y, i as i32);
            ensure!(r as i64 == e, "str_indexof(p of length {}, {}) = {}, expected {}", p.len(), i, r, e);
        }
        for r in [vec![], vec![0x62, 0x63]] {
            let z = smt(&r);
            let e = f.map_or(s.clone(), |k| replaced(s, &[k], p.len(), &r));
            ensure!(content(&str_replace(&x, &y, &z)) == e, "str_replace(p of length {}, r of length {})", p.len(), r.len());
            let e = if p.is_empty() { s.clone() } else { replaced(s, &find_all(s, p), p.len(), &r) };
            ensure!(content(&str_replace_all(&x, &y, &z)) == e, "str_replace_all(p of length {}, r of length {})", p.len(), r.len());
        }
        ensure!(content(&str_concat(&x, &y)) == [&s[..], &p[..]].concat(), "str_concat");
    }
    let first = s.iter().position(|&c| c == 0x5A5A).unwrap();
    let e = replaced(s, &[first], 1, s);
    ensure!(content(&str_replace(&x, &smt(&[0x5A5A]), &x)) == e, "str_replace of the mark by the text");
    Ok(())
}

fn long_c08(s: &V, st: &mut Stats) -> Check {
    // print, read back
    let d = smt(s).to_string();
    st.transitions += 2;
    ensure!(d.chars().all(|c| (' '..='~').contains(&c)), "not printable ASCII");
    ensure!(d.len() >= 2 && d.starts_with('"') && d.ends_with('"'), "not a literal");
    let body = d[1..d.len() - 1].replace("\"\"", "\u{1}");
    ensure!(!body.contains('"'), "a quote is not doubled");
    let back = parse_smt_literal(&body.replace('\u{1}', "\""));
    ensure!(content(&back) == *s, "reads back as another string, of length {}", back.len());
    // escapes late in a long text
    let t: String = s.iter().map(|&c| char::from_u32(c).filter(|&c| c != '\\').unwrap_or('x')).collect();
    let p: V = t.chars().map(|c| c as u32).collect();
    for (lit, e) in [("\\u0041", vec![0x41]), ("\\u{2ffff}", vec![MAX]), ("\\u{30000}", "\\u{30000}".chars().map(|c| c as u32).collect()), ("\\u00", "\\u00".chars().map(|c| c as u32).collect())] {
        st.transitions += 1;
        let r = parse_smt_literal(&format!("{}{}{}", t, lit, t));
        // what follows could complete an escape sequence only if it starts with a hexadecimal digit
        let e = [&p[..], &e[..], &p[..]].concat();
        if lit == "\\u00" {
            let e2 = crate::strs::ref_parse(&format!("{}{}", lit, t).chars().collect::<Vec<_>>());
            ensure!(content(&r) == [&p[..], &e2[..]].concat(), "a text of length {} with an escape in the middle", 2 * t.len());
        } else {
            ensure!(content(&r) == e, "a text of length {} with {} in the middle", 2 * t.len(), lit);
        }
    }
    Ok(())
}

fn long_c09(s: &V, at: usize, st: &mut Stats) -> Check {
    let mut v: Vec<V> = vec![s.clone(), s[..s.len() - 1].to_vec(), s[..at].to_vec(), s[..65536.min(s.len())].to_vec()];
    for c in [0, 0x5A59, 0x5A5B, MAX] {
        let mut x = s.clone();
        x[at] = c;
        v.push(x.clone());
        x.push(0);
        v.push(x);
    }
    for a in &v {
        for b in &v {
            st.transitions += 2;
            let (x, y) = (smt(a), smt(b));
            ensure!(str_lt(&x, &y) == (a < b), "str_lt of strings of length {} and {} is {}", a.len(), b.len(), str_lt(&x, &y));
            ensure!(str_le(&x, &y) == (a <= b), "str_le of strings of length {} and {} is {}", a.len(), b.len(), str_le(&x, &y));
            ensure!((x == y) == (a == b), "==");
        }
    }
    // many leading zeros; late non-digits
    let mut z = vec![0x30u32; s.len()];
    for (k, e) in [(0x37, 7), (0x61, -1), (0x2F, -1), (0x3A, -1)] {
        *z.last_mut().unwrap() = k;
        st.transitions += 1;
        ensure!(str_to_int(&smt(&z)) == e, "str_to_int of {} zeros and {:#x} is {}", z.len() - 1, k, str_to_int(&smt(&z)));
    }
    *z.last_mut().unwrap() = 0x30;
    ensure!(str_to_int(&smt(&z)) == 0, "str_to_int of {} zeros", z.len());
    z[at] = 0x61;
    ensure!(str_to_int(&smt(&z)) == -1, "str_to_int of zeros with a letter at {}", at);
    z[at] = 0x31;
    let digits = z.len() - at;
    if digits > 10 {
        ensure!(panics(|| { str_to_int(&smt(&z)); }), "str_to_int of 10^{} does not panic", digits - 1);
    } else if digits < 10 {
        ensure!(str_to_int(&smt(&z)) as i64 == 10i64.pow(digits as u32 - 1), "str_to_int of 10^{}", digits - 1);
    }
    ensure!(!str_is_digit(&smt(&z)) && str_to_code(&smt(&z)) == -1, "is_digit, to_code of a long string");
    Ok(())
}

fn long_c10(s: &V, at: usize, st: &mut Stats) -> Check {
    let x = smt(s);
    let n = s.len();
    let late = s[at.saturating_sub(1)..(at + 2).min(n)].to_vec();
    for p in [vec![0x5A5A], late, s[n - 2..].to_vec(), vec![0x59]] {
        let r = re::str_to_re(&smt(&p));
        for t in [vec![], vec![0x5A5A, 0x61, 0x62]] {
            st.transitions += 2;
            let z = smt(&t);
            let e = ref_find(s, &p, 0).map_or(s.clone(), |k| replaced(s, &[k], p.len(), &t));
            ensure!(content(&re::str_replace_re(&x, r, &z)) == e, "str_replace_re of a word of length {}", p.len());
            let e = replaced(s, &find_all(s, &p), p.len(), &t);
            ensure!(content(&re::str_replace_re_all(&x, r, &z)) == e, "str_replace_re_all of a word of length {}", p.len());
        }
    }
    // every character, and everything up to the mark
    st.transitions += 4;
    let any = re::re_allchar();
    let z = smt(&[0x31, 0x32]);
    let e: V = s.iter().flat_map(|_| [0x31, 0x32]).collect();
    ensure!(content(&re::str_replace_re_all(&x, any, &z)) == e, "str_replace_re_all of every character");
    let upto = re::re_concat(re::re_star(any), re::str_to_re(&smt(&[0x5A5A])));
    let e = [&[0x31, 0x32], &s[s.iter().position(|&c| c == 0x5A5A).unwrap() + 1..]].concat();
    ensure!(content(&re::str_replace_re(&x, upto, &z)) == e, "str_replace_re of everything up to the mark");
    let whole = re::re_concat(re::re_power(any, n as u32 - 3), re::re_star(any));
    let e = [&[0x31, 0x32], &s[n - 3..]].concat();
    ensure!(content(&re::str_replace_re(&x, whole, &z)) == e, "str_replace_re of all but three characters");
    ensure!(content(&re::str_replace_re_all(&x, whole, &z)) == e, "str_replace_re_all of all but three characters");
    ensure!(content(&re::str_replace_re(&x, re::re_star(any), &z)) == [&[0x31, 0x32], &s[..]].concat(), "str_replace_re of the empty match");
    Ok(())
}

fn long_c17(s: &V, st: &mut Stats) -> Check {
    let n = s.len();
    for pos in [0, 65535, 65536, n - 1] {
        let mut v = s.clone();
        let pos = pos.min(n - 1);
        v[pos] = MAX + 1;
        let mut e = s.clone();
        e[pos] = 0xFFFD;
        st.transitions += 2;
        for x in [SmtString::from(v.clone()), SmtString::from(&v[..])] {
            ensure!(x.is_good() && content(&x) == e, "a bad integer at position {} of {} is not replaced", pos, n);
        }
        let x = SmtString::from(s.clone());
        ensure!(x.is_good() && content(&x) == *s, "good integers are changed");
        let mut t: String = s.iter().map(|&c| char::from_u32(c).filter(|&c| c != '\\').unwrap_or('x')).take(pos).collect();
        t.push('\u{10FFFF}');
        t.push_str("tail");
        for x in [SmtString::from(t.as_str()), SmtString::from(t.clone()), parse_smt_literal(&t)] {
            ensure!(x.is_good() && x.len() == pos + 5 && x.char(pos) == 0xFFFD, "a character above the limit at position {}", pos);
        }
        let g = SmtString::from(s.clone());
        for x in [str_concat(&g, &g), str_substr(&g, pos as i32, n as i32), str_replace(&g, &SmtString::from(0x5A5A), &g), str_replace_all(&g, &SmtString::from(0x61), &SmtString::from(MAX)), str_at(&g, pos as i32)] {
            ensure!(x.is_good() && x.iter().all(|&c| c <= MAX), "a result is not well formed");
        }
        ensure!(g.to_unicode_string().chars().count() == n, "to_unicode_string");
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// partitions with more than 2^16 intervals

/// every `step`-th group of `width` characters starting at `first`, n of them at most
fn comb(first: u32, width: u32, step: u32, n: usize) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut a = first;
    while v.len() < n && a + width - 1 <= MAX {
        v.push((a, a + width - 1));
        a += step;
    }
    v
}

fn combs() -> Vec<Vec<(u32, u32)>> {
    vec![
        comb(0, 1, 2, 98304),
        comb(1, 1, 2, 98304),
        comb(0, 1, 2, 65536),
        comb(0, 1, 2, 65537),
        comb(3, 1, 2, 65535),
        comb(0, 1, 1, 196608),
        comb(0, 1, 1, 196607),
        comb(1, 1, 1, 196607),
        comb(0, 2, 3, 65536),
        comb(0, 1, 1, 65537),
        comb(0, 3, 3, 65536),
        comb(100, 4, 7, 1000),
        vec![],
        vec![(0, MAX)],
    ]
}

fn to_partition(v: &[(u32, u32)], how: u64) -> Result<CharPartition, String> {
    match how {
        0 => {
            let mut p = CharPartition::new();
            for &(a, b) in v {
                p.push(a, b);
            }
            Ok(p)
        }
        1 => CharPartition::try_from_iter(v.iter().rev().map(|&(a, b)| CharSet::range(a, b))).map_err(|e| format!("try_from_iter: {}", e)),
        _ => {
            // in an order without pattern
            let n = v.len();
            let l: Vec<CharSet> = (0..n).map(|i| v[(i * 40009 + 7) % n]).map(|(a, b)| CharSet::range(a, b)).collect();
            if (0..n).map(|i| (i * 40009 + 7) % n).collect::<std::collections::HashSet<_>>().len() == n {
                CharPartition::try_from_list(&l).map_err(|e| format!("try_from_list: {}", e))
            } else {
                to_partition(v, 1)
            }
        }
    }
}

/// class of every character: index of the interval, or the number of intervals
fn class_map(v: &[(u32, u32)]) -> Vec<usize> {
    let mut m = vec![v.len(); MAX as usize + 1];
    for (i, &(a, b)) in v.iter().enumerate() {
        for c in a..=b {
            m[c as usize] = i;
        }
    }
    m
}

fn check_classes(p: &CharPartition, v: &[(u32, u32)], st: &mut Stats) -> Check {
    let n = v.len();
    let map = class_map(v);
    ensure!(p.len() == n, "len = {}, expected {}", p.len(), n);
    for c in 0..=MAX {
        st.transitions += 1;
        let e = if map[c as usize] == n { ClassId::Complement } else { ClassId::Interval(map[c as usize]) };
        let r = p.class_of_char(c);
        ensure!(r == e, "class_of_char({:#x}) = {}, expected {}", c, r, e);
        if c < MAX {
            let (x, y) = (map[c as usize], map[c as usize + 1]);
            let r = p.class_of_set(&CharSet::range(c, c + 1));
            if x == y {
                ensure!(r == Ok(e), "class_of_set([{:#x}, {:#x}]) = {:?}", c, c + 1, r);
            } else {
                ensure!(r.is_err(), "class_of_set([{:#x}, {:#x}]) = {:?}", c, c + 1, r);
            }
        }
    }
    for (i, &(a, b)) in v.iter().enumerate() {
        ensure!(p.get(i) == (a, b) && p.pick(i) >= a && p.pick(i) <= b, "interval {} is {:?}", i, p.get(i));
        ensure!(p.valid_class_id(ClassId::Interval(i)), "valid_class_id(Interval({}))", i);
    }
    ensure!(!p.valid_class_id(ClassId::Interval(n)), "valid_class_id(Interval({}))", n);
    let comp = map.iter().any(|&x| x == n);
    ensure!(p.empty_complement() != comp, "empty_complement = {}", p.empty_complement());
    ensure!(p.num_classes() == n + comp as usize, "num_classes = {}", p.num_classes());
    ensure!(p.class_ids().count() == n + comp as usize, "class_ids: {}", p.class_ids().count());
    let picks: Vec<u32> = p.picks().collect();
    ensure!(picks.len() == n + comp as usize, "picks: {}", picks.len());
    for (i, (&c, cid)) in picks.iter().zip(p.class_ids()).enumerate() {
        ensure!(c <= MAX && map[c as usize] == i, "pick {} is {:#x}, not in its class", i, c);
        ensure!(cid == if i == n { ClassId::Complement } else { ClassId::Interval(i) }, "class id {} is {}", i, cid);
    }
    if comp {
        let c = p.pick_complement();
        ensure!(c <= MAX && map[c as usize] == n, "pick_complement = {:#x}", c);
    }
    Ok(())
}

pub fn partitions(ctx: &Ctx) {
    let l = combs();
    let n = l.len() as u64;
    ctx.indexed("beyond-16-bits", &format!("{} partitions with up to 196608 intervals (alternating characters, all single characters, pairs, ...), built in 3 ways: the class of every character, every pair of neighbours, all class ids and picks", n), n * 3, 1, |w, i| {
        let v = &l[i as usize / 3];
        w.case(i, || format!("partition with {} intervals from {:?}, way {}", v.len(), &v[..v.len().min(2)], i % 3), |st| {
            st.states += 1;
            let p = to_partition(v, i % 3)?;
            check_classes(&p, v, st)
        });
    });
}

pub fn merges(ctx: &Ctx) {
    let l = combs();
    let n = l.len() as u64;
    ctx.indexed("beyond-16-bits", &format!("all pairs of {} partitions with up to 196608 intervals", n), n * n, 4, |w, i| {
        let (x, y) = (&l[(i / n) as usize], &l[(i % n) as usize]);
        w.case(i, || format!("merge of partitions with {} and {} intervals from {:?} and {:?}", x.len(), y.len(), x.first(), y.first()), |st| {
            st.states += 1;
            let (p, q) = (to_partition(x, 0)?, to_partition(y, i % 2)?);
            let m = if i % 3 == 0 { merge_partition_list([&p, &CharPartition::new(), &q].into_iter()) } else { merge_partitions(&p, &q) };
            // the classes of the refinement: maximal runs with the same pair of classes
            let (cx, cy) = (class_map(x), class_map(y));
            let mut e: Vec<(u32, u32)> = vec![];
            let mut last = None;
            for c in 0..=MAX as usize {
                let k = (cx[c], cy[c]);
                if k == (x.len(), y.len()) {
                    last = None;
                } else if last == Some(k) {
                    e.last_mut().unwrap().1 = c as u32;
                } else {
                    e.push((c as u32, c as u32));
                    last = Some(k);
                }
            }
            st.transitions += e.len() as u64;
            let got: Vec<(u32, u32)> = (0..m.len()).map(|i| m.get(i)).collect();
            if got != e {
                let k = got.iter().zip(&e).position(|(a, b)| a != b).unwrap_or(got.len().min(e.len()));
                return Err(format!("{} intervals, expected {}; interval {} is {:x?}, expected {:x?}", got.len(), e.len(), k, got.get(k), e.get(k)));
            }
            let comp = (0..=MAX).find(|&c| cx[c as usize] == x.len() && cy[c as usize] == y.len());
            ensure!(m.empty_complement() == comp.is_none(), "empty_complement = {}", m.empty_complement());
            if comp.is_some() {
                let c = m.pick_complement();
                ensure!(c <= MAX && cx[c as usize] == x.len() && cy[c as usize] == y.len(), "the witness of the complement is {:#x}", c);
            }
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------------------
// automata with more than 2^16 letters

/// six states (5 is out of reach); all characters from `l` on go to state 3
struct Wide {
    l: u32,
    shape: usize,
}

const WIDE: u32 = 6;

impl Wide {
    fn next(&self, s: u32, c: u32) -> u32 {
        if c >= self.l {
            return if s == 5 { 0 } else { 3 };
        }
        match (s, self.shape) {
            (0, 0) => 1 + c % 2,
            (0, 1) => [1, 2, 4][(c % 3) as usize],
            (0, _) => if c % 7 == 0 { 1 } else { 2 + 2 * (c % 2) },
            (1, _) => if c % 5 == 0 { 2 } else { 3 },
            // 2 and 4 differ on one character, the last one below l, in the second shape only
            (2, _) => (c / 3) % 2 * 3,
            (4, 1) if c + 1 == self.l => if self.next(2, c) == 3 { 0 } else { 3 },
            (4, _) => (c / 3) % 2 * 3,
            (5, _) => c % 4,
            _ => 3,
        }
    }
    fn fin(&self, s: u32) -> bool {
        s == 2 || s == 4
    }
    /// the labels of a state: single characters, maximal runs, or runs cut in two
    fn labels(&self, s: u32, mode: usize) -> Vec<(u32, u32, u32)> {
        let mut v: Vec<(u32, u32, u32)> = vec![];
        for c in 0..self.l {
            let d = self.next(s, c);
            match v.last_mut() {
                Some(x) if mode == 1 && x.2 == d => x.1 = c,
                Some(x) if mode == 2 && x.2 == d && x.0 + 1 == c => x.1 = c,
                _ => v.push((c, c, d)),
            }
        }
        v
    }
    fn build(&self, mode: usize, default: bool) -> AutomatonBuilder<u32> {
        let mut b = AutomatonBuilder::new(&0);
        for s in 0..WIDE {
            let mut v = self.labels(s, mode);
            if mode == 2 {
                v.reverse();
            }
            for (x, y, d) in v {
                b.add_transition(&s, &CharSet::range(x, y), &d);
            }
            if default && self.l <= MAX {
                b.set_default_successor(&s, &self.next(s, MAX));
            } else if self.l <= MAX {
                b.add_transition(&s, &CharSet::range(self.l, MAX), &self.next(s, MAX));
            }
            if self.fin(s) {
                b.mark_final(&s);
            }
        }
        b
    }
    /// the state of `a` for each state of the model, None where it is out of reach
    fn simulate(&self, a: &Automaton, st: &mut Stats) -> Result<Vec<Option<usize>>, String> {
        let mut map = vec![None; WIDE as usize];
        map[0] = Some(a.initial_state().id());
        let mut q = vec![0u32];
        while let Some(s) = q.pop() {
            let x = a.state(map[s as usize].unwrap());
            ensure!(x.is_final() == self.fin(s), "state {} is final: {}", s, x.is_final());
            st.states += 1;
            for c in 0..=MAX {
                let d = self.next(s, c);
                let y = a.next(x, c).id();
                match map[d as usize] {
                    None => {
                        map[d as usize] = Some(y);
                        q.push(d);
                    }
                    Some(e) => ensure!(e == y, "the successor of state {} for {:#x} is {}, expected {}", s, c, y, e),
                }
            }
            st.transitions += MAX as u64 + 1;
        }
        Ok(map)
    }
}

/// combined partition, alphabet, successor table, edges against `next`
fn wide_views(a: &Automaton, st: &mut Stats) -> Check {
    let p = a.combined_char_partition();
    let alpha = a.pick_alphabet();
    let classes = p.len() + !p.empty_complement() as usize;
    ensure!(alpha.len() == classes, "pick_alphabet has {} characters for {} classes", alpha.len(), classes);
    let index = |c: ClassId| match c {
        ClassId::Interval(i) => i,
        ClassId::Complement => p.len(),
    };
    let mut rep = vec![None; p.len() + 1];
    for (i, &c) in alpha.iter().enumerate() {
        ensure!(c <= MAX, "pick_alphabet: {:#x}", c);
        let k = index(p.class_of_char(c));
        ensure!(rep[k].is_none(), "pick_alphabet has two characters of the class of {:#x}", c);
        rep[k] = Some(i);
    }
    let tab = a.compile_successors();
    ensure!(tab.num_states() == a.num_states() && tab.alphabet_size() == alpha.len(), "compiled table: {} states, {} letters", tab.num_states(), tab.alphabet_size());
    for s in a.states() {
        for c in 0..=MAX {
            let d = a.next(s, c).id();
            let i = match rep[index(p.class_of_char(c))] {
                Some(i) => i,
                None => return Err(format!("pick_alphabet has no character of the class of {:#x}", c)),
            };
            ensure!(a.next(s, alpha[i]).id() == d, "combined_char_partition puts {:#x} and {:#x} in one class, but state {} separates them", c, alpha[i], s.id());
            let e = tab.eval(s.id() as u32, i as u32) as usize;
            ensure!(e == d, "compiled table at ({}, {}) is {}, next({}, {:#x}) is {}", s.id(), i, e, s.id(), c, d);
        }
        st.transitions += MAX as u64 + 1;
        // the edges, in the order of the ranges of the state
        let mut n = 0;
        for (cid, d) in a.edges(s) {
            n += 1;
            ensure!(s.valid_class_id(cid), "edges of state {}: class {}", s.id(), cid);
            ensure!(a.class_next(s, cid).id() == d.id(), "edges of state {}: class {}", s.id(), cid);
        }
        let m = s.char_classes().count();
        ensure!(n == m, "state {} has {} edges and {} classes", s.id(), n, m);
        for (k, r) in s.char_ranges().enumerate() {
            for c in [r.pick(), r.pick() + r.size() - 1] {
                ensure!(r.contains(c), "range {} of state {}", r, s.id());
                ensure!(s.class_of_char(c) == ClassId::Interval(k), "class of {:#x} in state {}", c, s.id());
                ensure!(a.class_next(s, ClassId::Interval(k)).id() == a.next(s, c).id(), "state {}: successor for {:#x}", s.id(), c);
            }
        }
    }
    Ok(())
}

pub fn wide_automata(ctx: &Ctx, prop: &str) {
    let ls: Vec<u32> = ctx.tier.pick(vec![65537, 70001], vec![65535, 65536, 65537, 65538, 70001, 131071, 131072, 131073, MAX, MAX + 1]);
    let n = ls.len() as u64 * 3 * 3;
    ctx.indexed("wide-labels", &format!("automata of 6 states whose first {:?} characters are single labels (or short runs), 3 tables, 3 presentations: every state with every character", ls), n, 1, |w, i| {
        let wd = Wide { l: ls[i as usize / 9], shape: i as usize / 3 % 3 };
        let mode = i as usize % 3;
        let default = i % 2 == 0;
        w.case(i, || format!("{} single characters, table {}, presentation {}", wd.l, wd.shape, mode), |st| {
            let mut b = wd.build(mode, default);
            let mut a = b.build().map_err(|e| format!("build fails: {}", e))?;
            ensure!(a.num_states() == WIDE as usize, "{} states", a.num_states());
            let map = wd.simulate(&a, st)?;
            let reach = map.iter().flatten().count();
            match prop {
                "C13" => {
                    // a second successor for one character, a missing character
                    for (c, d) in [(wd.l - 1, 5), (65535.min(wd.l - 1), 5), (0, 5)] {
                        let mut b = wd.build(mode, default);
                        b.add_transition(&1, &CharSet::singleton(c), &d);
                        ensure!(b.build().is_err(), "build accepts two successors of state 1 for {:#x}", c);
                        b.build().map(|_| ()).unwrap_err();
                        // the same successor again is no conflict
                        let mut b = wd.build(mode, default);
                        b.add_transition(&1, &CharSet::singleton(c), &wd.next(1, c));
                        let a = b.build().map_err(|e| format!("build rejects a repeated transition of state 1 for {:#x}: {}", c, e))?;
                        wd.simulate(&a, st)?;
                    }
                    let mut b = AutomatonBuilder::new(&0u32);
                    for c in 0..wd.l - 1 {
                        b.add_transition(&0, &CharSet::singleton(c), &(c % 2));
                    }
                    if wd.l <= MAX {
                        b.add_transition(&0, &CharSet::range(wd.l, MAX), &1);
                    }
                    b.set_default_successor(&1, &1);
                    ensure!(b.build().is_err(), "build accepts a state without successor for {:#x}", wd.l - 1);
                    b.add_transition(&0, &CharSet::singleton(wd.l - 1), &1);
                    let a = b.build().map_err(|e| format!("build rejects a complete state: {}", e))?;
                    ensure!(a.next(a.initial_state(), wd.l - 1).id() != a.initial_state().id(), "the successor for {:#x}", wd.l - 1);
                    Ok(())
                }
                "C14" => {
                    wide_views(&a, st)?;
                    a.remove_unreachable_states();
                    ensure!(a.num_states() == reach, "remove_unreachable_states leaves {} states of {}", a.num_states(), reach);
                    wd.simulate(&a, st)?;
                    wide_views(&a, st).map_err(|e| format!("after remove_unreachable_states: {}", e))
                }
                _ => {
                    a.minimize();
                    let m = wd.simulate(&a, st)?;
                    // residual languages of the model, by splitting on every character
                    let mut cls: Vec<u32> = (0..WIDE).map(|s| wd.fin(s) as u32).collect();
                    loop {
                        let same = |s: u32, t: u32| cls[s as usize] == cls[t as usize] && (0..=wd.l.min(MAX)).all(|c| cls[wd.next(s, c) as usize] == cls[wd.next(t, c) as usize]);
                        let nc: Vec<u32> = (0..WIDE).map(|s| (0..=s).find(|&t| same(s, t)).unwrap()).collect();
                        if nc == cls {
                            break;
                        }
                        cls = nc;
                    }
                    for s in 0..WIDE as usize {
                        for t in 0..s {
                            if let (Some(x), Some(y)) = (m[s], m[t]) {
                                ensure!((x == y) == (cls[s] == cls[t]), "after minimize, states {} and {} of the original are {} state", s, t, if x == y { "one" } else { "not one" });
                            }
                        }
                    }
                    let mut all: Vec<u32> = cls.clone();
                    all.sort();
                    all.dedup();
                    ensure!(a.num_states() <= all.len(), "minimize leaves {} states, there are {} residual languages", a.num_states(), all.len());
                    Ok(())
                }
            }
        });
    });
}
