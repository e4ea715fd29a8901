//! C04, C13, C14: automata built by AutomatonBuilder or compiled from expressions.

use crate::dfa::*;
use crate::ensure;
use crate::fams;
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use aws_smt_strings::automata::*;
use aws_smt_strings::character_sets::*;
use std::hash::{Hash, Hasher};

/// Explicit transition table read off an automaton, for a list of characters
#[derive(Clone, Debug, PartialEq)]
pub struct Table {
    pub n: usize,
    pub k: usize,
    pub init: usize,
    pub t: Vec<usize>,
    pub fin: Vec<bool>,
}

impl Table {
    pub fn next(&self, s: usize, a: usize) -> usize {
        self.t[s * self.k + a]
    }

    /// read from the implementation; checks ids, counts, and that next stays inside
    pub fn read(a: &Automaton, chars: &[u32], st: &mut Stats) -> Result<Table, String> {
        let n = a.num_states();
        let k = chars.len();
        ensure!(a.states().count() == n, "num_states = {}, states() yields {}", n, a.states().count());
        let init = a.initial_state().id();
        ensure!(init < n, "initial state {} of {}", init, n);
        let mut t = Vec::with_capacity(n * k);
        let mut fin = Vec::with_capacity(n);
        for (i, s) in a.states().enumerate() {
            ensure!(s.id() == i && a.state(i).id() == i, "state number {} has id {}", i, s.id());
            fin.push(s.is_final());
            for &c in chars {
                let d = a.next(s, c).id();
                ensure!(d < n, "next({}, {:#x}) = {} with {} states", i, c, d, n);
                t.push(d);
            }
        }
        st.states += n as u64;
        st.transitions += (n * k) as u64;
        let f = fin.iter().filter(|&&x| x).count();
        ensure!(a.num_final_states() == f, "num_final_states = {}, but {} states are final", a.num_final_states(), f);
        Ok(Table { n, k, init, t, fin })
    }

    pub fn reachable(&self) -> Vec<bool> {
        let mut r = vec![false; self.n];
        r[self.init] = true;
        let mut q = vec![self.init];
        while let Some(s) = q.pop() {
            for a in 0..self.k {
                let d = self.next(s, a);
                if !r[d] {
                    r[d] = true;
                    q.push(d);
                }
            }
        }
        r
    }

    /// Moore's algorithm on all states (reachable or not): class of each state, number of classes
    pub fn moore(&self) -> (Vec<usize>, usize) {
        let mut cls: Vec<usize> = self.fin.iter().map(|&f| f as usize).collect();
        let mut n = 0;
        loop {
            let mut sigs: Vec<Vec<usize>> = vec![];
            let mut nc = vec![0; self.n];
            let mut map: FxMap<Vec<usize>, usize> = Default::default();
            for s in 0..self.n {
                let mut sig = Vec::with_capacity(self.k + 1);
                sig.push(cls[s]);
                for a in 0..self.k {
                    sig.push(cls[self.next(s, a)]);
                }
                if self.n <= 8 {
                    nc[s] = match sigs.iter().position(|x| *x == sig) {
                        Some(i) => i,
                        None => {
                            sigs.push(sig);
                            sigs.len() - 1
                        }
                    };
                } else {
                    let l = map.len();
                    nc[s] = *map.entry(sig).or_insert(l);
                }
            }
            let c = nc.iter().max().unwrap() + 1;
            cls = nc;
            if c == n {
                return (cls, n);
            }
            n = c;
        }
    }

    /// a string (letters) accepted by exactly one of the two
    pub fn differ(&self, o: &Table) -> Option<Vec<usize>> {
        let mut seen: FxSet<(usize, usize)> = Default::default();
        let mut q = vec![(self.init, o.init, usize::MAX, 0usize)];
        seen.insert((self.init, o.init));
        let mut h = 0;
        while h < q.len() {
            let (p, r, _, _) = q[h];
            if self.fin[p] != o.fin[r] {
                let mut w = vec![];
                let mut i = h;
                while q[i].2 != usize::MAX {
                    w.push(q[i].3);
                    i = q[i].2;
                }
                w.reverse();
                return Some(w);
            }
            for a in 0..self.k {
                let x = (self.next(p, a), o.next(r, a));
                if seen.insert(x) {
                    q.push((x.0, x.1, h, a));
                }
            }
            h += 1;
        }
        None
    }
}

// ---------------------------------------------------------------------------------------------
// automata given by tables

/// A complete DFA to be assembled with the builder. Letters are the cells of a layout.
pub struct Dfa<'a> {
    pub lay: &'a Layout,
    pub n: usize,
    pub t: &'a [usize],
    pub fin: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// every transition explicit
    Explicit,
    /// the last cell is covered by the default successor
    DefaultLast,
    /// explicit, last state first, then build_unchecked
    ReverseUnchecked,
    /// adjacent cells with the same successor merged in one range, first cell is the default
    Merged,
}

impl<'a> Dfa<'a> {
    pub fn assemble(&self, mode: Mode) -> Result<Automaton, String> {
        let k = self.lay.n();
        let mut b = AutomatonBuilder::new(&0usize);
        let mut order: Vec<usize> = (0..self.n).collect();
        if mode == Mode::ReverseUnchecked {
            order.reverse();
        }
        for s in order {
            let row = &self.t[s * k..(s + 1) * k];
            match mode {
                Mode::Explicit | Mode::ReverseUnchecked => {
                    for (a, d) in row.iter().enumerate() {
                        b.add_transition(&s, &self.lay.set(a, a), d);
                    }
                }
                Mode::DefaultLast => {
                    for (a, d) in row[..k - 1].iter().enumerate() {
                        b.add_transition(&s, &self.lay.set(a, a), d);
                    }
                    b.set_default_successor(&s, &row[k - 1]);
                }
                Mode::Merged => {
                    b.set_default_successor(&s, &row[0]);
                    let mut i = 1;
                    while i < k {
                        let mut j = i;
                        while j + 1 < k && row[j + 1] == row[i] {
                            j += 1;
                        }
                        b.add_transition(&s, &self.lay.set(i, j), &row[i]);
                        i = j + 1;
                    }
                }
            }
            if self.fin >> s & 1 == 1 {
                b.mark_final(&s);
            }
        }
        if mode == Mode::ReverseUnchecked {
            Ok(b.build_unchecked())
        } else {
            b.build().map_err(|e| format!("build fails: {}", e))
        }
    }

    pub fn show(&self) -> String {
        let k = self.lay.n();
        let rows: Vec<String> = (0..self.n)
            .map(|s| {
                format!(
                    "{}{}:{:?}",
                    s,
                    if self.fin >> s & 1 == 1 { "*" } else { "" },
                    &self.t[s * k..(s + 1) * k]
                )
            })
            .collect();
        format!("DFA over cells {:x?}, initial 0, {}", self.lay.start, rows.join(" "))
    }
}

type AutMonitor<'a> = &'a (dyn Fn(&dyn Fn() -> Result<Automaton, String>, &[u32], &mut Stats) -> Check + Sync);

/// All complete DFAs with n states over k letters
fn all_dfas(ctx: &Ctx, n: usize, k: usize, modes: &[Mode], mon: AutMonitor) {
    let lay = &layouts(k.max(2))[(n + k) % 5];
    let lay = if k == 1 { Layout::new("one", vec![0]) } else { lay.clone() };
    let nt = (n as u64).pow((n * k) as u32);
    let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
    ctx.indexed(
        &format!("all-n{}-k{}", n, k),
        &format!("all complete DFAs with {} states (reachable or not), {} letters, all sets of final states, {} presentations", n, k, modes.len()),
        nt,
        (4096 >> n).max(16),
        |w, i| {
            let t = radix(i, &vec![n as u64; n * k]);
            for fin in 0..1u64 << n {
                let d = Dfa { lay: &lay, n, t: &t, fin };
                for &m in modes {
                    w.case(i, || format!("{} [{:?}]", d.show(), m), |st| mon(&|| d.assemble(m), &chars, st));
                }
            }
        },
    );
}

/// All initially connected DFAs with states numbered in breadth-first order. Chunked by prefix.
fn icdfas(ctx: &Ctx, n: usize, k: usize, modes: &[Mode], one_final: bool, mon: AutMonitor) {
    // enumerate tables t such that states appear in BFS order
    fn go(n: usize, k: usize, t: &mut Vec<usize>, seen: usize, f: &mut dyn FnMut(&[usize]) -> bool, depth: usize) -> bool {
        if t.len() == depth {
            return f(t);
        }
        let pos = t.len();
        // the source state of this entry must have been discovered
        if pos % k == 0 && pos / k > seen {
            return true;
        }
        // enough entries left to discover all states
        for d in 0..=(seen + 1).min(n - 1) {
            t.push(d);
            let s2 = seen.max(d);
            let ok = go(n, k, t, s2, f, depth);
            t.pop();
            if !ok {
                return false;
            }
        }
        true
    }
    let plen = (n * k).min(5);
    let mut prefixes: Vec<Vec<usize>> = vec![];
    go(n, k, &mut vec![], 0, &mut |t| {
        prefixes.push(t.to_vec());
        true
    }, plen);
    let lay = layouts(k)[(n + k + 1) % 5].clone();
    let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
    ctx.family(
        &format!("connected-n{}-k{}{}", n, k, if one_final { "-1f" } else { "" }),
        &format!("all initially connected DFAs with {} states numbered breadth-first, {} letters, {}, {} presentations", n, k, if one_final { "one final state" } else { "all sets of final states" }, modes.len()),
        prefixes.len() as u64,
        || (),
        |w, _, c| {
            let p = &prefixes[c as usize];
            let seen = *p.iter().max().unwrap();
            let mut sub = 0;
            go(n, k, &mut p.clone(), seen, &mut |t| {
                if t.iter().max() != Some(&(n - 1)) && n > 1 {
                    return true;
                }
                sub += 1;
                let finals: Vec<u64> = if one_final { (0..n).map(|i| 1 << i).collect() } else { (0..1u64 << n).collect() };
                for fin in finals {
                    let d = Dfa { lay: &lay, n, t, fin };
                    for &m in modes {
                        w.case(sub, || format!("{} [{:?}]", d.show(), m), |st| mon(&|| d.assemble(m), &chars, st));
                    }
                }
                !w.stopping()
            }, n * k);
        },
    );
}

/// structured automata with many states
fn structured(ctx: &Ctx, t: Tier, mon: AutMonitor) {
    // one letter: a tail of length x and a cycle of length y, every set of final states
    let total = t.pick(10, 13);
    let lay1 = Layout::new("one", vec![0]);
    let shapes: Vec<(usize, usize)> = (1..=total).flat_map(|n| (0..n).map(move |x| (x, n - x))).collect();
    ctx.family("unary", &format!("one letter: every tail and cycle with at most {} states together, every set of final states", total), shapes.len() as u64, || (), |w, _, c| {
        let (x, y) = shapes[c as usize];
        let n = x + y;
        let tt: Vec<usize> = (0..n).map(|s| if s + 1 < n { s + 1 } else { x }).collect();
        for fin in 0..1u64 << n {
            let d = Dfa { lay: &lay1, n, t: &tt, fin };
            w.case(fin, || d.show(), |st| mon(&|| d.assemble(Mode::DefaultLast), &[0, 0x61, MAX], st));
            if w.stopping() {
                return;
            }
        }
    });
    // shift registers: the state is the last m letters, every set of final states
    let lay2 = layouts(2)[2].clone();
    let chars: Vec<u32> = lay2.all_reps().iter().map(|x| x.0).collect();
    for m in [2u32, 3, 4] {
        let n = 1usize << m;
        let tt: Vec<usize> = (0..n).flat_map(|s| (0..2).map(move |a| (2 * s + a) % n)).collect();
        let chunks = if m == 4 { 64 } else { 1 };
        let nf = 1u64 << n;
        ctx.family(&format!("register-{}", m), &format!("shift register of {} bits, every set of final states", m), chunks, || (), |w, _, c| {
            for fin in (0..nf).filter(|f| f % chunks == c) {
                let d = Dfa { lay: &lay2, n, t: &tt, fin };
                w.case(fin, || d.show(), |st| mon(&|| d.assemble(if fin % 2 == 0 { Mode::Explicit } else { Mode::Merged }), &chars, st));
                if w.stopping() {
                    return;
                }
            }
        });
    }
    // two permutations of n states, every set of final states (n = 4), one final state (n = 5)
    for n in [4usize, 5] {
        let ps = permutations(n);
        let np = ps.len() as u64;
        ctx.indexed(&format!("permutations-{}", n), &format!("two letters acting as every pair of permutations of {} states, {}", n, if n == 4 { "every set of final states" } else { "final sets of size 1 and 2" }), np * np, 64, |w, i| {
            let (p, q) = (&ps[(i / np) as usize], &ps[(i % np) as usize]);
            let tt: Vec<usize> = (0..n).flat_map(|s| [p[s], q[s]]).collect();
            for fin in 0..1u64 << n {
                if n == 5 && (fin.count_ones() == 0 || fin.count_ones() > 2) {
                    continue;
                }
                let d = Dfa { lay: &lay2, n, t: &tt, fin };
                w.case(i, || d.show(), |st| mon(&|| d.assemble(Mode::DefaultLast), &chars, st));
            }
        });
    }
    // counters modulo n over several letters with different steps: many blocks, several splitters
    let maxn = t.pick(24, 48);
    ctx.indexed("counters", &format!("counters modulo n <= {}, three letters adding 1, x and multiplying by y, every x and y, finals: multiples of every divisor or one state", maxn), maxn * 64, 1, |w, i| {
        let n = (i / 64 + 1) as usize;
        let (x, y) = ((i % 8) as usize, (i / 8 % 8) as usize);
        let lay = layouts(3)[4].clone();
        let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
        let tt: Vec<usize> = (0..n).flat_map(|s| [(s + 1) % n, (s + x) % n, (s * y) % n]).collect();
        for dv in 1..=n {
            if n % dv != 0 && dv != n / 2 + 1 {
                continue;
            }
            let fin = (0..n).filter(|s| s % dv == 0).fold(0u64, |f, s| f | 1 << s);
            let d = Dfa { lay: &lay, n, t: &tt, fin };
            w.case(dv as u64, || d.show(), |st| mon(&|| d.assemble(Mode::Merged), &chars, st));
        }
    });
    // tries and combs: chains with exits, all lengths
    let maxn = t.pick(40, 60) as u64;
    ctx.indexed("chains", &format!("chains of n <= {} states, exits to a sink on one of the letters at every second or third state, every final state", maxn), maxn * 6, 1, |w, i| {
        let n = (i / 6 + 2) as usize;
        let v = (i % 6) as usize;
        let lay = layouts(3)[v % 5].clone();
        let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
        let tt: Vec<usize> = (0..n)
            .flat_map(|s| {
                let nx = (s + 1).min(n - 1);
                match v {
                    0 => [nx, n - 1, n - 1],
                    1 => [nx, nx, 0],
                    2 => [nx, if s % 2 == 0 { n - 1 } else { 0 }, nx],
                    3 => [nx, s, s / 2],
                    4 => [nx, if s % 3 == 0 { 0 } else { nx }, s / 2],
                    _ => [s / 2, nx, (s * 2 + 1) % n],
                }
            })
            .collect();
        for f in 0..n {
            let d = Dfa { lay: &lay, n, t: &tt, fin: 1 << f };
            w.case(f as u64, || d.show(), |st| mon(&|| d.assemble(Mode::DefaultLast), &chars, st));
        }
    });
}

/// Transition function of a large automaton with n states over k letters, by shape
fn big_table(shape: usize, n: usize, k: usize) -> Vec<usize> {
    let mut t = Vec::with_capacity(n * k);
    for s in 0..n {
        for a in 0..k {
            t.push(match (shape, a) {
                // chain with an end
                (0, 0) => (s + 1).min(n - 1),
                (0, _) => n - 1,
                // cycle with a return to the start
                (1, 0) => (s + 1) % n,
                (1, _) => 0,
                // register: the state is the last letters
                (2, a) => (2 * s + a % 2) % n,
                // tree
                (3, a) => {
                    let d = 2 * s + 1 + a % 2;
                    if d < n {
                        d
                    } else {
                        0
                    }
                }
                // affine maps
                (4, 0) => (s + 1) % n,
                (4, 1) => (3 * s + 5) % n,
                (4, a) => (s * s + a) % n,
                // forward by one, back by half
                (5, 0) => (s + 1).min(n - 1),
                (5, _) => s / 2,
                // state 0 goes to another state for every letter, the others return
                (6, a) => {
                    if s == 0 {
                        (a + 1) % n
                    } else {
                        (s + 1) % n
                    }
                }
                // a chain, with states that differ from it at both ends only
                (8, 0) if s < 40 || s + 160 >= n => (7 * s + 3) % n,
                (8, _) => (s + 1) % n,
                // two halves that behave alike
                (_, 0) => {
                    if s == 0 {
                        1 % n
                    } else {
                        (s + 2) % n
                    }
                }
                (_, _) => {
                    if s == 0 {
                        2 % n
                    } else {
                        s
                    }
                }
            });
        }
    }
    t
}

/// Sizes around the powers of two, where index types, bit sets and growing tables change
fn big_family(ctx: &Ctx, name: &str, sizes: &[usize], letters: usize, shapes: &[usize], run: &(dyn Fn(&dyn Fn() -> Result<Automaton, String>, &[usize], &[bool], &[u32], &mut Stats) -> Check + Sync)) {
    let per = shapes.len() * 4;
    ctx.indexed(name, &format!("automata with n states for n in {:?}, {} letters: {} shapes, 4 sets of final states (last, multiples of 3, upper half, squares modulo 7)", sizes, letters, shapes.len()), (sizes.len() * per) as u64, 1, |w, i| {
        // the largest first
        let n = sizes[sizes.len() - 1 - i as usize / per];
        let shape = shapes[i as usize % per / 4];
        let f = i as usize % 4;
        let lay = if letters > 14 { layouts(letters)[(i % 3) as usize].clone() } else { layouts(letters)[(n + shape) % 5].clone() };
        let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
        let t = big_table(shape, n, letters);
        let fin: Vec<bool> = (0..n)
            .map(|s| match f {
                0 => s + 1 == n,
                1 => s % 3 == 0,
                2 => s >= n / 2,
                _ => [0, 1, 2, 4].contains(&(s % 7)),
            })
            .collect();
        let make = || {
            let mut b = AutomatonBuilder::new(&0usize);
            for s in 0..n {
                if f % 2 == 0 {
                    for a in 0..letters - 1 {
                        b.add_transition(&s, &lay.set(a, a), &t[s * letters + a]);
                    }
                    b.set_default_successor(&s, &t[s * letters + letters - 1]);
                } else {
                    for a in 0..letters {
                        b.add_transition(&s, &lay.set(a, a), &t[s * letters + a]);
                    }
                }
                if fin[s] {
                    b.mark_final(&s);
                }
            }
            b.build().map_err(|e| format!("build fails: {}", e))
        };
        w.case(i, || format!("{} states, {} letters, shape {}, final states {}", n, letters, shape, f), |st| run(&make, &t, &fin, &chars, st));
    });
}

/// For the representatives of the k cells of a layout, in order: the cell of each. A cell has one,
/// two or three representatives; the builders of layouts put them in increasing order.
fn letters_of(chars: &[u32], k: usize) -> Vec<usize> {
    // recover the layout: all layouts with k cells, the one with these representatives
    for l in layouts(k) {
        let r = l.all_reps();
        if r.len() == chars.len() && r.iter().zip(chars).all(|(x, c)| x.0 == *c) {
            return r.iter().map(|x| x.1).collect();
        }
    }
    panic!("harness: no layout has these representatives");
}

/// number of states reached from state 0
fn reached(t: &[usize], n: usize, k: usize) -> usize {
    let mut seen = vec![false; n];
    seen[0] = true;
    let mut q = vec![0];
    let mut c = 1;
    while let Some(s) = q.pop() {
        for a in 0..k {
            let d = t[s * k + a];
            if !seen[d] {
                seen[d] = true;
                c += 1;
                q.push(d);
            }
        }
    }
    c
}

const BIG: [usize; 16] = [63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513];

fn bigs(ctx: &Ctx, t: Tier, mon: AutMonitor) {
    let run = |make: &dyn Fn() -> Result<Automaton, String>, _: &[usize], _: &[bool], chars: &[u32], st: &mut Stats| mon(make, chars, st);
    let shapes: Vec<usize> = (0..9).collect();
    big_family(ctx, "big", &BIG, 2, &shapes, &run);
    big_family(ctx, "big-three", &[65, 129, 257, 300], 3, &shapes, &run);
    big_family(ctx, "big-alphabet", t.pick(&[3, 65, 129][..], &[3, 65, 129, 257, 300][..]), t.pick(130, 260), &[0, 2, 4, 6], &run);
    if t.thorough() {
        big_family(ctx, "bigger", &[1000, 1023, 1024, 1025, 2048, 4096, 4097], 2, &shapes, &run);
        big_family(ctx, "biggest", &[65535, 65536, 65537], 2, &[2, 3], &run);
        big_family(ctx, "biggest-tree", &[131072], 2, &[3], &run);
    } else {
        big_family(ctx, "biggest-tree", &[65537], 2, &[3], &run);
    }
}

fn compiled(ctx: &Ctx, z: &fams::Size, mon: AutMonitor) {
    let m = |wd: &mut World, i: usize, st: &mut Stats| -> Check {
        let t = wd.items[i].term;
        if wd.seen.insert(ptr(t), 0).is_some() {
            return Ok(());
        }
        let chars: Vec<u32> = wd.reps.iter().map(|x| x.0).collect();
        let m = std::cell::RefCell::new(&mut wd.m);
        mon(&|| Ok(m.borrow_mut().compile(t)), &chars, st)
    };
    fams::all(ctx, z, &m, false);
}

// ---------------------------------------------------------------------------------------------
// C04

fn check_minimize(make: &dyn Fn() -> Result<Automaton, String>, chars: &[u32], st: &mut Stats) -> Check {
    let mut a = make()?;
    let before = Table::read(&a, chars, st)?;
    a.minimize();
    let after = Table::read(&a, chars, st).map_err(|e| format!("after minimize: {}", e))?;
    if let Some(w) = before.differ(&after) {
        let s: Vec<u32> = w.iter().map(|&i| chars[i]).collect();
        return Err(format!("minimize changes acceptance of {} (accepts now: {})", show(&s), a.accepts(&smt(&s))));
    }
    let (cls, nc) = after.moore();
    if nc != after.n {
        let mut pair = (0, 0);
        for i in 0..after.n {
            for j in 0..i {
                if cls[i] == cls[j] {
                    pair = (j, i);
                }
            }
        }
        return Err(format!("after minimize, states {} and {} of {} accept the same residual language", pair.0, pair.1, after.n));
    }
    if before.reachable().iter().all(|&x| x) {
        let (_, idx) = before.moore();
        ensure!(after.n == idx, "minimize leaves {} states, the minimal DFA has {}", after.n, idx);
    }
    let f: Vec<usize> = a.final_states().map(|s| s.id()).collect();
    let g: Vec<usize> = (0..after.n).filter(|&s| after.fin[s]).collect();
    ensure!(f == g, "final_states() = {:?} after minimize, but the final states are {:?}", f, g);
    // the same through accepts
    for (i, &c) in chars.iter().enumerate() {
        let d = &chars[(i * 7 + 3) % chars.len()];
        for s in [vec![c], vec![c, *d], vec![*d, c, c]] {
            st.traces += 1;
            let cells: Vec<usize> = s.iter().map(|x| chars.iter().position(|y| y == x).unwrap()).collect();
            let e = cells.iter().fold(before.init, |q, &a| before.next(q, a));
            ensure!(a.accepts(&smt(&s)) == before.fin[e], "after minimize, accepts({}) = {}", show(&s), !before.fin[e]);
        }
    }
    // idempotent
    a.minimize();
    ensure!(a.num_states() == after.n, "a second minimize goes from {} to {} states", after.n, a.num_states());
    let again = Table::read(&a, chars, st).map_err(|e| format!("after a second minimize: {}", e))?;
    if let Some(w) = before.differ(&again) {
        let s: Vec<u32> = w.iter().map(|&i| chars[i]).collect();
        return Err(format!("a second minimize changes acceptance of {}", show(&s)));
    }
    // minimize, prune, minimize; prune, minimize
    if !before.reachable().iter().all(|&x| x) {
        for first in [true, false] {
            let mut b = make()?;
            let how = if first { "minimize, remove_unreachable_states and minimize" } else { "remove_unreachable_states and minimize" };
            if first {
                b.minimize();
            }
            b.remove_unreachable_states();
            let mid = Table::read(&b, chars, st).map_err(|e| format!("before the last step of {}: {}", how, e))?;
            b.minimize();
            let end = Table::read(&b, chars, st).map_err(|e| format!("after {}: {}", how, e))?;
            if let Some(w) = mid.differ(&end) {
                let s: Vec<u32> = w.iter().map(|&i| chars[i]).collect();
                return Err(format!("the last step of {} changes acceptance of {}", how, show(&s)));
            }
            let (_, idx) = mid.moore();
            if mid.reachable().iter().all(|&x| x) {
                ensure!(end.n == idx, "{} leaves {} states, the minimal DFA has {}", how, end.n, idx);
            }
        }
    }
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    use Mode::*;
    let t = ctx.tier;
    let mon: AutMonitor = &check_minimize;
    for (n, k) in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (4, 1), (5, 1)] {
        all_dfas(ctx, n, k, &[Explicit, DefaultLast, Merged, ReverseUnchecked], mon);
    }
    all_dfas(ctx, 3, 3, &[Explicit, Merged], mon);
    all_dfas(ctx, 4, 2, t.pick(&[Merged][..], &[Explicit, DefaultLast, Merged, ReverseUnchecked][..]), mon);
    if t.thorough() {
        all_dfas(ctx, 6, 1, &[DefaultLast], mon);
        all_dfas(ctx, 3, 4, &[Explicit], mon);
        icdfas(ctx, 5, 2, &[Explicit, Merged], false, mon);
        icdfas(ctx, 4, 3, &[DefaultLast], false, mon);
        icdfas(ctx, 6, 2, &[Explicit], true, mon);
    } else {
        icdfas(ctx, 5, 2, &[DefaultLast], true, mon);
    }
    structured(ctx, t, mon);
    bigs(ctx, t, mon);
    crate::huge::wide_automata(ctx, "C04");
    let z = fams::size(t);
    compiled(ctx, &fams::Size { d3: t.pick(2, 4), ..z }, mon);
}

// ---------------------------------------------------------------------------------------------
// C14

fn range_bounds(r: &CharSet) -> (u32, u32) {
    let lo = r.pick();
    (lo, lo + (r.size() - 1))
}

/// edges, classes, finals, alphabet and compiled table against next
fn check_structure(a: &Automaton, chars: &[u32], st: &mut Stats) -> Result<Table, String> {
    let t = Table::read(a, chars, st)?;
    let f: Vec<usize> = a.final_states().map(|s| s.id()).collect();
    let g: Vec<usize> = (0..t.n).filter(|&s| t.fin[s]).collect();
    ensure!(f == g, "final_states() = {:?}, but the final states are {:?}", f, g);
    let p = a.combined_char_partition();
    // points: the given characters and the boundaries of all classes
    let mut pts: Vec<u32> = chars.to_vec();
    let add = |pts: &mut Vec<u32>, r: &CharSet| {
        let (x, y) = range_bounds(r);
        pts.extend([x, y, x.saturating_sub(1), (y + 1).min(MAX)]);
    };
    for r in p.ranges() {
        add(&mut pts, r);
    }
    for s in a.states() {
        for r in s.char_ranges() {
            add(&mut pts, r);
        }
    }
    pts.sort_unstable();
    pts.dedup();
    // edges
    for s in a.states() {
        let edges: Vec<(ClassId, usize)> = a.edges(s).map(|(c, d)| (c, d.id())).collect();
        let ranges: Vec<CharSet> = s.char_ranges().copied().collect();
        for (i, (c, d)) in edges.iter().enumerate() {
            ensure!(edges[..i].iter().all(|x| x.0 != *c), "state {}: edges lists class {} twice", s.id(), c);
            ensure!(*d < t.n, "state {}: edge to state {}", s.id(), d);
            ensure!(a.class_next(s, *c).id() == *d, "state {}: edges says {} -> {}, class_next says {}", s.id(), c, d, a.class_next(s, *c).id());
            // the class of the edge has characters
            let some = match c {
                ClassId::Interval(i) => *i < ranges.len(),
                ClassId::Complement => pts.iter().any(|&x| !ranges.iter().any(|r| r.contains(x))),
            };
            ensure!(some, "state {}: edges lists class {}, which has no character", s.id(), c);
        }
        for &c in &pts {
            st.transitions += 1;
            let d = a.next(s, c).id();
            let cid = match ranges.iter().position(|r| r.contains(c)) {
                Some(i) => ClassId::Interval(i),
                None => ClassId::Complement,
            };
            match edges.iter().find(|x| x.0 == cid) {
                None => return Err(format!("state {}: no edge for {:#x} (class {}), next is {}", s.id(), c, cid, d)),
                Some((_, e)) => ensure!(*e == d, "state {}: for {:#x} the edge goes to {}, next to {}", s.id(), c, e, d),
            }
        }
    }
    // alphabet
    let alpha = a.pick_alphabet();
    let pr: Vec<CharSet> = p.ranges().copied().collect();
    let class = |c: u32| pr.iter().position(|r| r.contains(c));
    let mut seen: Vec<Option<usize>> = vec![];
    for &c in &alpha {
        ensure!(c <= MAX, "pick_alphabet: character {:#x}", c);
        ensure!(!seen.contains(&class(c)), "pick_alphabet has two characters of one class, {:#x} is the second", c);
        seen.push(class(c));
    }
    let covered: u64 = pr.iter().map(|r| r.size() as u64).sum();
    let classes = pr.len() + (covered < MAX as u64 + 1) as usize;
    ensure!(alpha.len() == classes, "pick_alphabet has {} characters for {} classes", alpha.len(), classes);
    // classes group only characters with the same successors
    for &c in &pts {
        let r = match seen.iter().position(|x| *x == class(c)) {
            Some(i) => alpha[i],
            None => return Err(format!("pick_alphabet has no character of the class of {:#x}", c)),
        };
        for s in a.states() {
            ensure!(
                a.next(s, c).id() == a.next(s, r).id(),
                "combined_char_partition puts {:#x} and {:#x} in one class, but state {} goes to {} and {}",
                c, r, s.id(), a.next(s, c).id(), a.next(s, r).id()
            );
        }
    }
    // compiled successor table
    let tab = a.compile_successors();
    ensure!(tab.num_states() == t.n && tab.alphabet_size() == alpha.len(), "compiled table: {} states, {} letters", tab.num_states(), tab.alphabet_size());
    for s in a.states() {
        for (i, &c) in alpha.iter().enumerate() {
            let e = tab.eval(s.id() as u32, i as u32) as usize;
            let d = a.next(s, c).id();
            st.transitions += 1;
            ensure!(e == d, "compiled table at ({}, {}) is {}, next({}, {:#x}) is {}", s.id(), i, e, s.id(), c, d);
        }
    }
    Ok(t)
}

fn check_prune(make: &dyn Fn() -> Result<Automaton, String>, chars: &[u32], st: &mut Stats) -> Check {
    check_prune_then(make, chars, true, st)
}

fn check_prune_then(make: &dyn Fn() -> Result<Automaton, String>, chars: &[u32], minimize: bool, st: &mut Stats) -> Check {
    let mut a = make()?;
    let before = check_structure(&a, chars, st)?;
    a.remove_unreachable_states();
    let after = check_structure(&a, chars, st).map_err(|e| format!("after remove_unreachable_states: {}", e))?;
    let reach = before.reachable();
    let n = reach.iter().filter(|&&x| x).count();
    ensure!(after.n == n, "remove_unreachable_states leaves {} states, {} are reachable", after.n, n);
    // the reachable parts are isomorphic
    let mut map = vec![usize::MAX; before.n];
    let mut used = vec![false; after.n];
    map[before.init] = after.init;
    used[after.init] = true;
    let mut q = vec![before.init];
    while let Some(s) = q.pop() {
        let x = map[s];
        ensure!(before.fin[s] == after.fin[x], "state {} is final: {}, after remove_unreachable_states: {}", s, before.fin[s], after.fin[x]);
        for c in 0..before.k {
            let (d, y) = (before.next(s, c), after.next(x, c));
            if map[d] == usize::MAX {
                ensure!(!used[y], "remove_unreachable_states merges states");
                map[d] = y;
                used[y] = true;
                q.push(d);
            } else {
                ensure!(map[d] == y, "after remove_unreachable_states, the successor of state {} for {:#x} has changed", s, chars[c]);
            }
        }
    }
    if let Some(w) = before.differ(&after) {
        let s: Vec<u32> = w.iter().map(|&i| chars[i]).collect();
        return Err(format!("remove_unreachable_states changes acceptance of {}", show(&s)));
    }
    for &c in chars {
        st.traces += 1;
        let i = chars.iter().position(|&x| x == c).unwrap();
        ensure!(a.accepts(&smt(&[c])) == before.fin[before.next(before.init, i)], "after remove_unreachable_states, accepts({:#x}) is wrong", c);
    }
    if !minimize {
        return Ok(());
    }
    // pruning and minimizing one after the other leaves a consistent structure too
    a.minimize();
    let min = check_structure(&a, chars, st).map_err(|e| format!("after pruning and minimizing: {}", e))?;
    if n != before.n && before.n <= 64 {
        // the other order: what minimize leaves may have states out of reach
        let mut b = make()?;
        b.minimize();
        let mid = check_structure(&b, chars, st).map_err(|e| format!("after minimizing: {}", e))?;
        let r = mid.reachable().iter().filter(|&&x| x).count();
        b.remove_unreachable_states();
        let end = check_structure(&b, chars, st).map_err(|e| format!("after minimizing and pruning: {}", e))?;
        ensure!(end.n == r, "remove_unreachable_states after minimize leaves {} states, {} are reachable", end.n, r);
        if let Some(w) = mid.differ(&end) {
            let s: Vec<u32> = w.iter().map(|&i| chars[i]).collect();
            return Err(format!("remove_unreachable_states after minimize changes acceptance of {}", show(&s)));
        }
    } else if n == before.n {
        // nothing to remove: pruning again after minimizing removes nothing either
        a.remove_unreachable_states();
        let r = min.reachable().iter().filter(|&&x| x).count();
        ensure!(a.num_states() == r, "remove_unreachable_states after minimize leaves {} states, {} are reachable", a.num_states(), r);
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    use Mode::*;
    let t = ctx.tier;
    let mon: AutMonitor = &check_prune;
    for (n, k) in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (3, 1), (3, 2), (4, 1), (5, 1)] {
        all_dfas(ctx, n, k, &[Explicit, DefaultLast, Merged, ReverseUnchecked], mon);
    }
    all_dfas(ctx, 3, 3, &[Merged], mon);
    if t.thorough() {
        all_dfas(ctx, 4, 2, &[Explicit, DefaultLast, Merged, ReverseUnchecked], mon);
        all_dfas(ctx, 3, 3, &[Explicit, DefaultLast, Merged, ReverseUnchecked], mon);
        icdfas(ctx, 5, 2, &[Explicit, DefaultLast], true, mon);
        icdfas(ctx, 4, 3, &[Merged], true, mon);
    } else {
        icdfas(ctx, 4, 2, &[Explicit, DefaultLast, Merged, ReverseUnchecked], true, mon);
    }
    sparse(ctx, t, mon);
    structured(ctx, Tier::Quick, mon);
    bigs(ctx, t, mon);
    // more than 2^16 states where the last states have successors of their own (not minimized)
    let run = |make: &dyn Fn() -> Result<Automaton, String>, _: &[usize], _: &[bool], chars: &[u32], st: &mut Stats| check_prune_then(make, chars, false, st);
    big_family(ctx, "biggest-chain", t.pick(&[65660, 65700][..], &[65537, 65660, 65700, 131100, 131300][..]), 2, &[8], &run);
    // tables with more than 2^16 entries
    big_family(ctx, "dense-table", t.pick(&[1100][..], &[1100, 2300][..]), 64, &[2, 4, 6], &run);
    big_family(ctx, "biggest-chain-three", t.pick(&[65660][..], &[65637, 131100][..]), 3, &[8], &run);
    crate::huge::wide_automata(ctx, "C14");
    compiled(ctx, &fams::size(t), mon);
}

/// Rows with every pattern of non-default entries: collisions in the compact table.
/// State s goes to the sink (default) except for the letters of a mask.
fn sparse(ctx: &Ctx, t: Tier, mon: AutMonitor) {
    let (n, k) = t.pick((3usize, 5usize), (4, 5));
    let lay = layouts(k)[0].clone();
    let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
    ctx.indexed("sparse-rows", &format!("{} states, {} letters: every combination of sets of non-default letters, and an unreachable copy", n, k), (1u64 << k).pow(n as u32), 128, |w, i| {
        let masks = radix(i, &vec![1 << k; n]);
        // states: 0..n, sink n, unreachable n+1
        let nn = n + 2;
        let mut tt = vec![n; nn * k];
        for s in 0..n {
            for a in 0..k {
                if masks[s] >> a & 1 == 1 {
                    tt[s * k + a] = (s + 1 + (a % 2)) % n;
                }
            }
        }
        for a in 0..k {
            if masks[0] >> (k - 1 - a) & 1 == 1 {
                tt[(n + 1) * k + a] = a % (n + 2);
            }
        }
        for fin in [1u64, 1 << (n - 1) | 1 << (n + 1)] {
            let d = Dfa { lay: &lay, n: nn, t: &tt, fin };
            w.case(i, || d.show(), |st| mon(&|| d.assemble(if fin == 1 { Mode::Explicit } else { Mode::Merged }), &chars, st));
        }
    });
    // wide alphabets
    let maxk = t.pick(24, 60) as u64;
    ctx.indexed("wide-alphabet", &format!("2 to {} letters: states with one, two, every second, all letters, at every offset", maxk), maxk - 1, 1, |w, i| {
        let k = i as usize + 2;
        let lay = layouts(k)[2].clone();
        let chars: Vec<u32> = lay.all_reps().iter().map(|x| x.0).collect();
        for off in 0..k {
            for shape in 0..5usize {
                let n = 6;
                let tt: Vec<usize> = (0..n)
                    .flat_map(|s| {
                        (0..k).map(move |a| {
                            let r = (a + off * s) % k;
                            let hit = match (shape + s) % 5 {
                                0 => r == 0,
                                1 => r < 2,
                                2 => r % 2 == 0,
                                3 => true,
                                _ => r + 1 == k,
                            };
                            if hit {
                                (s + 1 + r % 3) % n
                            } else {
                                s / 2
                            }
                        })
                    })
                    .collect();
                let d = Dfa { lay: &lay, n, t: &tt, fin: 5 };
                w.case(off as u64, || d.show(), |st| mon(&|| d.assemble(Mode::Explicit), &chars, st));
            }
        }
    });
}

// ---------------------------------------------------------------------------------------------
// C13

/// a state key whose hash is always the same
#[derive(Clone, PartialEq, Eq, Debug)]
struct Key(u32);
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        0u32.hash(h)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Call {
    Add(u32, (usize, usize), u32),
    Default(u32, u32),
    Final(u32),
    Build,
    BuildUnchecked,
}

/// what was specified so far: reference model of the builder
#[derive(Clone, Default)]
struct Model {
    k: usize,
    /// mentioned states
    states: Vec<u32>,
    trans: Vec<(u32, (usize, usize), u32)>,
    defaults: Vec<(u32, u32)>,
    finals: Vec<u32>,
}

#[derive(PartialEq, Debug)]
enum Verdict {
    MustAccept,
    MustReject,
    Either,
}

impl Model {
    fn new(k: usize) -> Model {
        Model { k, states: vec![0], ..Default::default() }
    }
    fn mention(&mut self, s: u32) {
        if !self.states.contains(&s) {
            self.states.push(s);
        }
    }
    fn apply(&mut self, c: Call) {
        match c {
            Call::Add(s, i, d) => {
                self.mention(s);
                self.mention(d);
                self.trans.push((s, i, d));
            }
            Call::Default(s, d) => {
                self.mention(s);
                self.mention(d);
                self.defaults.push((s, d));
            }
            Call::Final(s) => {
                self.mention(s);
                self.finals.push(s);
            }
            Call::Build | Call::BuildUnchecked => (),
        }
    }
    /// explicit successors of s for cell a
    fn explicit(&self, s: u32, a: usize) -> Vec<u32> {
        let mut v: Vec<u32> = self.trans.iter().filter(|x| x.0 == s && x.1 .0 <= a && a <= x.1 .1).map(|x| x.2).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    /// the declared default: set_default_successor sets it, the last call counts
    fn declared(&self, s: u32) -> Vec<u32> {
        self.defaults.iter().rev().find(|x| x.0 == s).map(|x| x.1).into_iter().collect()
    }
    fn verdict(&self) -> Verdict {
        let mut v = Verdict::MustAccept;
        for &s in &self.states {
            let e: Vec<Vec<u32>> = (0..self.k).map(|a| self.explicit(s, a)).collect();
            let d = self.declared(s);
            if e.iter().any(|x| x.len() > 1) {
                return Verdict::MustReject;
            }
            let gap = e.iter().any(|x| x.is_empty());
            if gap && d.is_empty() {
                return Verdict::MustReject;
            }
            if !gap && !d.is_empty() {
                // a default that no character uses
                v = Verdict::Either;
            }
        }
        v
    }

    /// is the automaton the one specified?
    fn check(&self, a: &Automaton, lay: &Layout, st: &mut Stats) -> Check {
        let n = self.states.len();
        ensure!(a.num_states() == n && a.states().count() == n, "{} states for {} mentioned states", a.num_states(), n);
        let mut fin = self.finals.clone();
        fin.sort_unstable();
        fin.dedup();
        ensure!(a.num_final_states() == fin.len(), "num_final_states = {}, {} states were marked", a.num_final_states(), fin.len());
        ensure!(a.states().filter(|s| s.is_final()).count() == fin.len(), "{} states are final, {} were marked", a.states().filter(|s| s.is_final()).count(), fin.len());
        // correspondence of states, from the initial state
        let mut map: Vec<(u32, usize)> = vec![(0, a.initial_state().id())];
        let mut h = 0;
        while h < map.len() {
            let (s, x) = map[h];
            h += 1;
            st.states += 1;
            let state = a.state(x);
            ensure!(state.is_final() == fin.contains(&s), "state {} is final: {}, marked: {}", s, state.is_final(), fin.contains(&s));
            for cell in 0..self.k {
                let e = self.explicit(s, cell);
                let exp = if e.is_empty() { self.declared(s) } else { e };
                for c in lay.reps(cell) {
                    st.transitions += 1;
                    let y = a.next(state, c).id();
                    // which specified state is y?
                    match map.iter().find(|m| m.1 == y) {
                        Some(m) => ensure!(exp.contains(&m.0), "the successor of {} for {:#x} is {}, specified: {:?}", s, c, m.0, exp),
                        None => {
                            // not met yet: it must be a specified state that was not met yet
                            match exp.iter().find(|d| !map.iter().any(|m| m.0 == **d)) {
                                Some(d) => map.push((*d, y)),
                                None => return Err(format!("the successor of {} for {:#x} is a state other than the one specified ({:?})", s, c, exp)),
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

fn run_calls<T: Eq + Hash + Clone>(calls: &[Call], lay: &Layout, key: impl Fn(u32) -> T, st: &mut Stats) -> Check {
    let mut b = AutomatonBuilder::new(&key(0));
    let mut m = Model::new(lay.n());
    for (i, &c) in calls.iter().enumerate() {
        m.apply(c);
        match c {
            Call::Add(s, (i, j), d) => {
                b.add_transition(&key(s), &lay.set(i, j), &key(d));
            }
            Call::Default(s, d) => {
                b.set_default_successor(&key(s), &key(d));
            }
            Call::Final(s) => {
                b.mark_final(&key(s));
            }
            Call::Build => {
                st.traces += 1;
                let v = m.verdict();
                match b.build() {
                    Err(e) => ensure!(v != Verdict::MustAccept, "call {}: build fails ({}) on a complete, conflict-free specification", i, e),
                    Ok(a) => {
                        ensure!(v != Verdict::MustReject, "call {}: build accepts a specification that is incomplete or in conflict", i);
                        m.check(&a, lay, st).map_err(|e| format!("call {}: {}", i, e))?;
                    }
                }
            }
            Call::BuildUnchecked => {
                // requires a good specification; the builder must not be changed by it
                if m.verdict() == Verdict::MustAccept && disjoint(&m) {
                    let a = b.build_unchecked();
                    m.check(&a, lay, st).map_err(|e| format!("call {} (build_unchecked): {}", i, e))?;
                }
            }
        }
    }
    Ok(())
}

/// no two transitions of a state overlap
fn disjoint(m: &Model) -> bool {
    m.trans.iter().enumerate().all(|(i, x)| m.trans[..i].iter().all(|y| x.0 != y.0 || x.1 .1 < y.1 .0 || y.1 .1 < x.1 .0))
}

fn intervals(k: usize) -> Vec<(usize, usize)> {
    (0..k).flat_map(|i| (i..k).map(move |j| (i, j))).collect()
}

pub fn c13(ctx: &Ctx) {
    let t = ctx.tier;
    // one state in focus: every sequence of transitions, every default; the other states loop
    for (k, targets, len, li) in [
        (2usize, 3u32, t.pick(5, 6), 0usize),
        (3, 2, t.pick(5, 6), 1),
        (3, 3, t.pick(4, 5), 3),
        (4, 2, t.pick(4, 5), 2),
        (5, 2, t.pick(4, 5), 4),
        (2, 4, t.pick(4, 5), 3),
        (1, 3, t.pick(4, 8), 2),
    ] {
        let lay = if k == 1 { Layout::new("one", vec![0]) } else { layouts(k)[li].clone() };
        let iv = intervals(k);
        let base = iv.len() as u64 * targets as u64;
        let n = seq_count(base, len);
        ctx.indexed(
            &format!("one-state-k{}-t{}", k, targets),
            &format!("one state: every sequence of <= {} transitions over the {} ranges of {} cells ({}) and {} targets, every choice of default (none or a target)", len, iv.len(), k, lay.name, targets),
            n,
            512,
            |w, i| {
                let seq = seq_decode(base, i);
                for def in 0..=targets {
                    let mut calls: Vec<Call> = seq.iter().map(|&x| Call::Add(0, iv[x / targets as usize], (x % targets as usize) as u32)).collect();
                    if def > 0 {
                        // the default is declared first, last or in the middle
                        let pos = (i as usize + def as usize) % (calls.len() + 1);
                        calls.insert(pos, Call::Default(0, def - 1));
                    }
                    for s in 1..targets {
                        if calls.iter().any(|c| matches!(c, Call::Add(_, _, d) | Call::Default(_, d) if *d == s)) {
                            calls.push(Call::Default(s, s));
                            if s == 1 {
                                calls.push(Call::Final(1));
                            }
                        }
                    }
                    calls.push(Call::Build);
                    w.case(i, || format!("{:?} over cells {:x?}", calls, lay.start), |st| run_calls(&calls, &lay, |s| s, st));
                }
            },
        );
    }
    // call sequences, including builds in between, two states
    let k = 2;
    let lay = layouts(k)[1].clone();
    let mut ops = vec![];
    for s in 0..2 {
        for i in intervals(k) {
            for d in 0..2 {
                ops.push(Call::Add(s, i, d));
            }
        }
    }
    for s in 0..2 {
        for d in 0..2 {
            ops.push(Call::Default(s, d));
        }
    }
    ops.extend([Call::Final(0), Call::Final(1), Call::Build, Call::BuildUnchecked]);
    let base = ops.len() as u64;
    let len = t.pick(5, 6);
    ctx.indexed(
        "call-sequences",
        &format!("every sequence of <= {} calls among {} (transitions between two states over 2 cells, defaults, finals, build, build_unchecked), build after each", len, base),
        seq_count(base, len),
        512,
        |w, i| {
            let mut calls: Vec<Call> = seq_decode(base, i).iter().map(|&x| ops[x]).collect();
            calls.push(Call::Build);
            w.case(i, || format!("{:?}", calls), |st| {
                run_calls(&calls, &lay, |s| s, st)?;
                // other key types: colliding hashes; strings
                if i % 8 == 0 {
                    run_calls(&calls, &lay, Key, st)?;
                    run_calls(&calls, &lay, |s| format!("state {}", s), st)?;
                }
                Ok(())
            });
        },
    );
    // completions: every 2-state specification where each state has every set of <= 2 ranges, built twice
    let k = 3;
    let lay = layouts(k)[2].clone();
    let iv = intervals(k);
    let one = iv.len() as u64 * 2 + 1; // a transition or none
    let nsp = one * one * 3; // two transitions and a default
    ctx.indexed("two-states", "every specification of two states with <= 2 transitions each over the ranges of 3 cells, every default, every final set; build, then build again", nsp * nsp, 256, |w, i| {
        let mut calls = vec![];
        for (s, x) in [(0u32, i / nsp), (1u32, i % nsp)] {
            let r = radix(x, &[one, one, 3]);
            for &y in &r[..2] {
                if y > 0 {
                    calls.push(Call::Add(s, iv[(y - 1) / 2], ((y - 1) % 2) as u32));
                }
            }
            if r[2] > 0 {
                calls.push(Call::Default(s, r[2] as u32 - 1));
            }
        }
        for f in 0..3u32 {
            if i % 3 != f as u64 && t == Tier::Quick {
                continue;
            }
            let mut calls = calls.clone();
            if f > 0 {
                calls.push(Call::Final(f - 1));
            }
            calls.extend([Call::Build, Call::Build]);
            w.case(i, || format!("{:?} over cells {:x?}", calls, lay.start), |st| run_calls(&calls, &lay, |s| s, st));
        }
    });
    // labels around every character
    let sample = fams::char_sample(Tier::Thorough);
    let iv5 = intervals(5);
    ctx.indexed(
        "every-character",
        &format!("4 (in rotation) specifications of a state by 3 transitions over the ranges of the cells {{<c}},{{c}},{{c+1}},{{c+2}},{{>c+2}}, with and without default, for c = {}", fams::char_sample_text(Tier::Thorough)),
        sample.len() as u64,
        64,
        |w, i| {
            let c = sample[i as usize];
            let lay = Layout::new("chars", vec![0, c, c + 1, c + 2, c + 3]);
            let m = iv5.len();
            for k in 0..4usize {
                let q = (i as usize * 4 + k) * 7 % (m * m * m);
                let seq = [iv5[q % m], iv5[q / m % m], iv5[q / m / m]];
                for def in 0..2 {
                    let mut calls: Vec<Call> = seq.iter().enumerate().map(|(j, &x)| Call::Add(0, x, (j as u32 + q as u32) % 2)).collect();
                    if def > 0 {
                        calls.push(Call::Default(0, (q % 2) as u32));
                    }
                    calls.extend([Call::Default(1, 0), Call::Final(1), Call::Build]);
                    w.case((i * 4 + k as u64) * 2 + def, || format!("{:?} over cells {:x?}", calls, lay.start), |st| run_calls(&calls, &lay, |s| s, st));
                }
            }
        },
    );
    // many states: numbering of states, initial and final states, every successor
    let run = |make: &dyn Fn() -> Result<Automaton, String>, tt: &[usize], fin: &[bool], chars: &[u32], st: &mut Stats| -> Check {
        let a = make()?;
        let n = fin.len();
        let k = tt.len() / n;
        ensure!(a.num_states() == n, "num_states = {}, {} states were given", a.num_states(), n);
        let nf = fin.iter().filter(|&&x| x).count();
        ensure!(a.num_final_states() == nf && a.states().filter(|s| s.is_final()).count() == nf, "num_final_states = {}, {} states were marked", a.num_final_states(), nf);
        // the letter of a character: chars lists the representatives of the letters in order
        let lets = letters_of(chars, k);
        let mut map = vec![usize::MAX; n];
        let mut used = vec![false; n];
        map[0] = a.initial_state().id();
        used[map[0]] = true;
        let mut q = vec![0];
        let mut met = 1;
        while let Some(s) = q.pop() {
            let state = a.state(map[s]);
            ensure!(state.is_final() == fin[s], "state {} is final: {}, marked: {}", s, state.is_final(), fin[s]);
            for (i, &c) in chars.iter().enumerate() {
                st.transitions += 1;
                let d = tt[s * k + lets[i]];
                let y = a.next(state, c).id();
                if map[d] == usize::MAX {
                    ensure!(!used[y], "the successor of {} for {:#x} is not the one specified", s, c);
                    map[d] = y;
                    used[y] = true;
                    met += 1;
                    q.push(d);
                }
                ensure!(map[d] == y, "the successor of {} for {:#x} is not the one specified", s, c);
            }
        }
        ensure!(met == reached(tt, n, k), "harness: reachable states");
        Ok(())
    };
    let shapes: Vec<usize> = (0..9).collect();
    big_family(ctx, "many-states", &BIG, 2, &shapes, &run);
    big_family(ctx, "many-letters", t.pick(&[3, 65, 129][..], &[3, 65, 129, 257, 300][..]), t.pick(130, 300), &[0, 2, 4, 6], &run);
    if t.thorough() {
        big_family(ctx, "more-states", &[1000, 1024, 1025, 4096, 4097, 65535, 65536, 65537, 65660, 131072], 2, &shapes, &run);
    } else {
        big_family(ctx, "more-states", &[65660], 2, &shapes, &run);
    }
    crate::huge::wide_automata(ctx, "C13");
    // many transitions: majority default, in every rotation
    let maxn = t.pick(16, 40) as u64;
    ctx.indexed("many-transitions", &format!("3 to {} cells: a state with one transition per cell to 2 or 3 targets in every periodic pattern, one of them missing or in conflict, or covered by a default", maxn), maxn - 2, 1, |w, i| {
        let k = i as usize + 3;
        let ls = layouts(k);
        // the layout of critical values has at most 14 cells
        let lay = ls[if k > 14 { (i % 3) as usize } else { (i % 5) as usize }].clone();
        for per in 1..=3usize {
            for shift in 0..3usize {
                for variant in 0..4usize {
                    for at in 0..k {
                        let tgt = |a: usize| ((a / per + shift) % 3) as u32;
                        let mut calls = vec![];
                        for a in 0..k {
                            if a == at && (variant == 1 || variant == 3) {
                                continue;
                            }
                            calls.push(Call::Add(0, (a, a), tgt(a)));
                        }
                        match variant {
                            2 => calls.push(Call::Add(0, (at, at), (tgt(at) + 1) % 3)),
                            3 => calls.push(Call::Default(0, tgt(at))),
                            _ => (),
                        }
                        for s in 1..3 {
                            if calls.iter().any(|c| matches!(c, Call::Add(_, _, d) | Call::Default(_, d) if *d == s)) {
                                calls.push(Call::Default(s, s));
                            }
                        }
                        calls.push(Call::Build);
                        w.case(at as u64, || format!("{:?} over cells {:x?}", calls, lay.start), |st| run_calls(&calls, &lay, |s| s, st));
                    }
                }
            }
        }
    });
}
