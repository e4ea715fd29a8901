//! The families of expression-construction programs shared by the regular expression checks.

use crate::dfa::*;
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use aws_smt_strings::regular_expressions::RegLan;
use aws_smt_strings::smt_regular_expressions as wr;
use std::cell::RefCell;
use Op::*;

/// {<a}, {a}, {b}, {>b}
pub fn lay_ab() -> Layout {
    Layout::new("ab", vec![0, 0x61, 0x62, 0x63])
}
/// {0}, the middle, {0x2FFFF}
pub fn lay_edge() -> Layout {
    Layout::new("edge", vec![0, 1, MAX])
}
/// four wide cells
pub fn lay_mid() -> Layout {
    Layout::new("mid", vec![0, 0x40, 0x80, 0x10000])
}
/// six cells around both ends of the alphabet
pub fn lay_six() -> Layout {
    Layout::new("six", vec![0, 1, 2, 0x100, MAX - 1, MAX])
}

pub fn spec_ab() -> Spec {
    Spec {
        leaves: vec![Empty, Eps, Full, AllChar, Rng(1, 1), Rng(2, 2), Rng(1, 2), Rng(0, 1), Str(vec![1, 2])],
        unary: vec![
            Comp, Star, Plus, Opt, Exp(0), Exp(2), Exp(3), Loop(0, 2), Loop(1, 2), Loop(2, 3), Loop(2, 1), MkLoop(2, None), MkLoop(0, Some(3)),
        ],
        binary: vec![Concat, Union, Inter, Diff],
    }
}
pub fn spec_edge() -> Spec {
    Spec {
        leaves: vec![Eps, Full, AllChar, Rng(0, 0), Rng(2, 2), Rng(1, 2), SmtRng(0, 1), SmtRng(1, 0)],
        unary: vec![Comp, Star, Opt, Exp(2), Loop(1, 2), MkLoop(1, None)],
        binary: vec![Concat, Union, Inter, Diff],
    }
}
pub fn spec_mid() -> Spec {
    Spec {
        leaves: vec![Empty, Eps, SigmaPlus, Rng(0, 0), Rng(1, 1), Rng(1, 2), Rng(2, 3), Rng(0, 2)],
        unary: vec![Comp, Star, Plus, Exp(2), Loop(0, 2)],
        binary: vec![Concat, Union, Inter, Diff],
    }
}
pub fn spec_small(n: usize) -> Spec {
    Spec {
        leaves: vec![Rng(1, 1), AllChar, Rng(1, 2), Eps, Rng(2, 2)][..n].to_vec(),
        unary: vec![Comp, Star, Opt, Loop(1, 2), Exp(2)],
        binary: vec![Concat, Union, Inter, Diff],
    }
}

/// a program under construction
pub struct P<'a, 'b> {
    pub w: &'a mut Worker,
    pub world: &'a RefCell<World>,
    pub sub: u64,
    pub mon: Monitor<'b>,
}

impl<'a, 'b> P<'a, 'b> {
    /// apply a constructor and judge the result
    pub fn mk(&mut self, op: Op, args: &[usize]) -> Option<usize> {
        step(self.w, self.world, &mut self.sub, &op, args, self.mon)
    }
    /// apply a constructor without judging (repeated set-up)
    pub fn raw(&mut self, op: Op, args: &[usize]) -> Option<usize> {
        let before = self.w.stats;
        let r = step(self.w, self.world, &mut self.sub, &op, args, &no_monitor);
        self.w.stats = before;
        r
    }
    pub fn mark(&self) -> usize {
        self.world.borrow().items.len()
    }
    pub fn cut(&self, n: usize) {
        self.world.borrow_mut().items.truncate(n);
    }
    pub fn stop(&self) -> bool {
        self.w.stopping()
    }
}

pub const RANGES: [(u32, Option<u32>); 20] = [
    (0, Some(0)),
    (0, Some(1)),
    (0, Some(2)),
    (0, Some(3)),
    (0, Some(4)),
    (1, Some(1)),
    (1, Some(2)),
    (1, Some(3)),
    (1, Some(4)),
    (2, Some(2)),
    (2, Some(3)),
    (2, Some(4)),
    (3, Some(3)),
    (3, Some(4)),
    (3, Some(5)),
    (4, Some(4)),
    (0, None),
    (1, None),
    (2, None),
    (3, None),
];

/// bodies of loops
fn bodies(p: &mut P, n: usize) -> Option<Vec<usize>> {
    let a = p.raw(Rng(1, 1), &[])?;
    let b = p.raw(Rng(2, 2), &[])?;
    let e = p.raw(Eps, &[])?;
    let mut v = vec![
        a,
        p.raw(Str(vec![1, 2]), &[])?,
        p.raw(Union, &[a, e])?,
        p.raw(AllChar, &[])?,
        p.raw(Rng(1, 2), &[])?,
        e,
        p.raw(Empty, &[])?,
        p.raw(Opt, &[a])?,
    ];
    let aa = p.raw(Exp(2), &[a])?;
    v.push(p.raw(Union, &[aa, b])?);
    v.push(p.raw(Comp, &[a])?);
    let ab = v[1];
    v.push(p.raw(Inter, &[a, ab])?);
    let s = p.raw(Star, &[a])?;
    v.push(p.raw(Concat, &[s, b])?);
    v.push(p.raw(Full, &[])?);
    v.push(p.raw(SigmaPlus, &[])?);
    v.truncate(n);
    Some(v)
}

#[derive(Clone, Copy)]
pub struct Size {
    /// 0: skip
    pub ab: bool,
    pub edge: bool,
    pub mid: bool,
    /// leaves of the depth 3 family
    pub d3: usize,
    /// with all terms of depth 1 as other operands
    pub d3w: usize,
    /// all pairs of terms of depth 2
    pub d3f: usize,
    pub nest_bodies: usize,
    pub loopcat_bodies: usize,
    pub bool6: bool,
    /// longest lists
    pub lists: usize,
    /// length of sequences
    pub seqs: usize,
    /// length of sequences with loops
    pub lseqs: usize,
    /// leaves of the terms whose printed form is used as a literal
    pub printed: usize,
    pub words: usize,
    pub big: u32,
    /// number of letters and lengths past 64, 128, 256 (and 512, 1024)
    pub wide: u32,
    /// expressions over the neighbourhood of every character
    pub chars: Option<Tier>,
    /// expressions built in a manager that already holds many terms
    pub late: Option<Tier>,
}

pub fn size(t: Tier) -> Size {
    Size {
        ab: true,
        edge: true,
        mid: true,
        d3: t.pick(3, 5),
        d3w: t.pick(2, 5),
        d3f: t.pick(1, 2),
        nest_bodies: t.pick(8, 14),
        loopcat_bodies: t.pick(10, 14),
        bool6: true,
        lists: t.pick(4, 4),
        seqs: t.pick(4, 4),
        lseqs: t.pick(2, 3),
        printed: t.pick(4, 7),
        words: t.pick(3, 4),
        big: t.pick(1, 2),
        wide: t.pick(1, 2),
        chars: Some(t),
        late: Some(t),
    }
}

pub fn all(ctx: &Ctx, z: &Size, mon: Monitor, wrap: bool) {
    let n = |s: &str| if wrap { format!("w-{}", s) } else { s.to_string() };
    if z.ab {
        depth2(ctx, &n("depth2-ab"), "every operator (13 unary, 4 binary) on all terms of depth <= 1 over 9 leaves, alphabet cells {<a},{a},{b},{>b}", &lay_ab(), &spec_ab(), wrap, Deep::No, mon);
    }
    if z.edge {
        depth2(ctx, &n("depth2-edge"), "every operator (6 unary, 4 binary) on all terms of depth <= 1 over 8 leaves, alphabet cells {0},{1..0x2FFFE},{0x2FFFF}", &lay_edge(), &spec_edge(), wrap, Deep::No, mon);
    }
    if z.mid {
        depth2(ctx, &n("depth2-mid"), "every operator (5 unary, 4 binary) on all terms of depth <= 1 over 8 leaves, 4 wide cells", &lay_mid(), &spec_mid(), wrap, Deep::No, mon);
    }
    if z.d3 > 0 {
        depth2(
            ctx,
            &n("depth3"),
            &format!("every operator (5 unary, 4 binary) on all pairs of terms of depth <= 1 over {} leaves; on each result, every operator again, with a leaf as other operand on either side", z.d3),
            &lay_ab(),
            &spec_small(z.d3),
            wrap,
            Deep::Leaves,
            mon,
        );
    }
    if z.d3w > 0 {
        depth2(
            ctx,
            &n("depth3-wide"),
            &format!("as depth3, over {} leaves, with all terms of depth <= 1 as the other operand", z.d3w),
            &lay_ab(),
            &spec_small(z.d3w),
            wrap,
            Deep::Depth1,
            mon,
        );
    }
    if z.d3f > 0 {
        depth2(
            ctx,
            &n("depth3-full"),
            &format!("every operator (5 unary, 4 binary) on all pairs of terms of depth <= 2 over {} leaves: all expressions of depth <= 3", z.d3f),
            &lay_ab(),
            &spec_small(z.d3f),
            wrap,
            Deep::Depth2,
            mon,
        );
    }
    if z.nest_bodies > 0 {
        nest(ctx, &n("loop-nest"), z.nest_bodies, wrap, mon);
    }
    if z.loopcat_bodies > 0 {
        loopcat(ctx, &n("loop-concat"), z.loopcat_bodies, wrap, mon);
    }
    if z.bool6 {
        bool6(ctx, &n("range-algebra"), wrap, mon);
    }
    if z.lists > 0 {
        lists(ctx, &n("list-constructors"), z.lists, wrap, mon);
        long_lists(ctx, &n("long-lists"), if wrap { 33 } else { 65 }, wrap, mon);
    }
    if z.seqs > 0 {
        seqs(ctx, &n("sequences"), z.seqs, wrap, mon);
    }
    if z.lseqs > 0 {
        loop_seqs(ctx, &n("loop-sequences"), z.lseqs, wrap, mon);
    }
    if z.printed > 0 {
        printed(ctx, &n("printed-forms"), z.printed, wrap, mon);
    }
    if z.words > 0 {
        words(ctx, &n("words"), z.words, wrap, mon);
    }
    if z.big > 0 {
        big(ctx, &n("large"), z.big, wrap, mon);
    }
    if z.wide > 0 {
        letters(ctx, &n("letters"), z.wide, wrap, mon);
        long(ctx, &n("long"), z.wide, wrap, mon);
    }
    if let Some(t) = z.chars {
        every_char(ctx, &n("every-character"), t, wrap, mon);
    }
    if let Some(t) = z.late {
        late(ctx, &n("late"), t, wrap, mon);
    }
}

/// The characters around which the families about every character are built: all, or (quick) the
/// first 1024, all within 4 of a multiple of 256, and every 11th one. Room for two more on either side.
pub fn char_sample(t: Tier) -> Vec<u32> {
    (1..=MAX - 3).filter(|&c| t.thorough() || c < 1024 || c % 256 <= 4 || c % 256 >= 252 || c % 11 == 5).collect()
}

pub fn char_sample_text(t: Tier) -> &'static str {
    if t.thorough() {
        "every character"
    } else {
        "every character c < 1024, within 4 of a multiple of 256, or = 5 modulo 11"
    }
}

/// fewer, for the checks that cost much per expression
fn char_sample_small(t: Tier) -> Vec<u32> {
    (1..=MAX - 3).filter(|&c| if t.thorough() { c < 8192 || c % 256 <= 4 || c % 256 >= 252 || c % 11 == 5 } else { c < 512 || c % 256 >= 254 || c % 256 == 0 || c % 97 == 5 }).collect()
}

fn char_sample_small_text(t: Tier) -> &'static str {
    if t.thorough() {
        "every character c < 8192, within 4 of a multiple of 256, or = 5 modulo 11"
    } else {
        "every character c < 512, 0 to 2 below a multiple of 256, or = 5 modulo 97"
    }
}

/// Expressions over the cells {<c}, {c}, {c+1}, {c+2}, {>c+2}
fn every_char(ctx: &Ctx, name: &str, t: Tier, wrap: bool, mon: Monitor) {
    let (sample, text) = if wrap { (char_sample_small(t), char_sample_small_text(t)) } else { (char_sample(t), char_sample_text(t)) };
    let per = 128;
    let n = sample.len().div_ceil(per) as u64;
    let bound = format!("20 expressions over the cells {{<c}},{{c}},{{c+1}},{{c+2}},{{>c+2}} for c = {}", text);
    ctx.family(name, &bound, n, Oracles::default, |w, s, i| {
        let lay0 = Layout::new("chars", vec![0, 1, 2, 3, 4]);
        with_world(w, s, &lay0, wrap, |w, world0| {
            for (j, &c) in sample.iter().enumerate().skip(i as usize * per).take(per) {
                if w.stopping() {
                    return;
                }
                let lay = Layout::new("chars", vec![0, c, c + 1, c + 2, c + 3]);
                let o = std::mem::replace(&mut world0.borrow_mut().o, Oracle::new(1));
                let world = std::cell::RefCell::new(World::new(o, &lay, wrap));
                {
                    let mut p = P { w: &mut *w, world: &world, sub: j as u64 * 64, mon };
                    let _ = around(&mut p);
                }
                world0.borrow_mut().o = world.into_inner().o;
            }
        });
    });
}

/// A program of about 150 expressions over {a}, {b}, with or without judging them
fn medley(p: &mut P) -> Option<()> {
    let sp = spec_small(5);
    let world = p.world;
    let mut sub = p.sub;
    base(p.w, world, &mut sub, &sp, p.mon);
    p.sub = sub;
    if p.stop() {
        return None;
    }
    around(p)?;
    let a = p.mk(Rng(1, 1), &[])?;
    let b = p.mk(Rng(2, 2), &[])?;
    let fu = p.raw(Full, &[])?;
    let ab = p.mk(Str(vec![1, 2]), &[])?;
    let ba = p.mk(Str(vec![2, 1]), &[])?;
    let u = p.mk(Union, &[ab, ba])?;
    let l = p.mk(Loop(1, 2), &[u])?;
    let s = p.mk(Star, &[u])?;
    let x = p.mk(ConcatL, &[fu, ab, fu])?;
    let y = p.mk(ConcatL, &[fu, ba, fu])?;
    let i = p.mk(Inter, &[x, y])?;
    let n = p.mk(Diff, &[x, y])?;
    p.mk(UnionL, &[i, n, a, l])?;
    p.mk(InterL, &[s, x])?;
    p.mk(Concat, &[l, i])?;
    let c = p.mk(Comp, &[u])?;
    let d = p.mk(Concat, &[c, b])?;
    p.mk(Plus, &[d])?;
    p.mk(Diff, &[s, d])?;
    Some(())
}

/// The identifier of a term, if that is what is hashed (it decides only how many characters are created)
fn id_of(t: RegLan) -> Option<u64> {
    struct H(Option<u64>);
    impl std::hash::Hasher for H {
        fn finish(&self) -> u64 {
            0
        }
        fn write(&mut self, b: &[u8]) {
            if b.len() <= 8 {
                let mut x = [0; 8];
                x[..b.len()].copy_from_slice(b);
                self.0 = Some(u64::from_le_bytes(x));
            }
        }
    }
    let mut h = H(None);
    std::hash::Hash::hash(t, &mut h);
    h.0
}

/// The same program twice in one manager, over different characters, the second time when the next
/// identifier is close to a power of two or to one plus the identifiers of the first time
fn late(ctx: &Ctx, name: &str, t: Tier, wrap: bool, mon: Monitor) {
    // how many identifiers are in use
    let mut at: Vec<u32> = vec![];
    for (b, step) in [(1u32 << 8, 8), (1 << 10, 16), (1 << 12, 16), (1 << 15, 16), (1 << 16, 4), (1 << 17, 16), (1 << 18, 64)] {
        if b > t.pick(1 << 17, 1 << 18) {
            continue;
        }
        let step = if t.thorough() { step } else { step * 2 };
        at.extend((0..640).step_by(step).map(|d| b - d.min(b)));
        // where the identifiers are those of the first program plus b
        at.extend((0..12).step_by(2).map(|d| b + 6 + d));
    }
    at.sort();
    at.dedup();
    let bound = format!("a program of 150 expressions of depth <= 3, then as many characters as it takes to have n identifiers in use, then the same program over other characters, for {} n up to 640 below the powers of 2 up to 2^{}", at.len(), t.pick(17, 18));
    ctx.family(name, &bound, at.len() as u64, Oracles::default, |w, s, i| {
        let lay1 = Layout::new("late1", vec![0, 0x41, 0x42, 0x43, 0x44]);
        let lay2 = Layout::new("late2", vec![0, 0x61, 0x62, 0x63, 0x64]);
        with_world(w, s, &lay1, wrap, |w, world| {
            let used = {
                // repeated in every chunk: counted once
                let before = w.stats;
                let mut p = P { w: &mut *w, world, sub: 0, mon };
                if medley(&mut p).is_none() {
                    return;
                }
                if i > 0 {
                    w.stats = before;
                }
                // the identifiers in use: two per term
                let mut wd = world.borrow_mut();
                let lo = wd.lo(1);
                let x = if wrap { wr::str_to_re(&smt(&[0x20000, lo])) } else { wd.m.str(&smt(&[0x20000, lo])) };
                match id_of(x) {
                    Some(n) if n < 1 << 14 => n as u32 + 2,
                    _ => 1 << 10,
                }
            };
            {
                let mut wd = world.borrow_mut();
                let n = (at[i as usize].saturating_sub(used)) / 2;
                for j in 0..n {
                    let c = 0x1000 + j;
                    if wrap {
                        wr::str_to_re(&smt(&[c]));
                    } else {
                        wd.m.char(c);
                    }
                    if j % 4096 == 0 {
                        w.tick();
                    }
                }
            }
            let o = std::mem::replace(&mut world.borrow_mut().o, Oracle::new(1));
            let mut second = World::new(o, &lay2, wrap);
            std::mem::swap(&mut second.m, &mut world.borrow_mut().m);
            let second = std::cell::RefCell::new(second);
            {
                let mut p = P { w: &mut *w, world: &second, sub: 1 << 20, mon };
                let _ = medley(&mut p);
            }
            // the terms live in the manager of the first world
            let second = second.into_inner();
            let mut wd = world.borrow_mut();
            wd.o = second.o;
            wd.m = second.m;
        });
    });
}

fn around(p: &mut P) -> Option<()> {
    let x = p.mk(Rng(1, 1), &[])?;
    let y = p.mk(Rng(2, 2), &[])?;
    let z = p.mk(Rng(3, 3), &[])?;
    let lo = p.mk(Rng(0, 1), &[])?;
    let hi = p.mk(SmtRng(1, 4), &[])?;
    let mid = p.mk(SmtRng(1, 2), &[])?;
    let any = p.raw(AllChar, &[])?;
    let fu = p.raw(Full, &[])?;
    p.mk(Union, &[x, z])?;
    p.mk(Inter, &[lo, hi])?;
    p.mk(Diff, &[any, x])?;
    let cx = p.mk(Comp, &[x])?;
    p.mk(Inter, &[cx, mid])?;
    p.mk(Concat, &[y, x])?;
    let s = p.mk(Str(vec![1, 2, 1]), &[])?;
    p.mk(Loop(2, 3), &[mid])?;
    let st = p.mk(Star, &[lo])?;
    p.mk(Concat, &[st, z])?;
    p.mk(ConcatL, &[fu, x, fu])?;
    p.mk(UnionL, &[s, z, lo])?;
    Some(())
}

pub fn nest(ctx: &Ctx, name: &str, nb: usize, wrap: bool, mon: Monitor) {
    let r = RANGES.len() as u64;
    program(ctx, name, &format!("((X^r1)^r2)^r3 for {} bodies X and {} ranges r1, r2, r3", nb, r), &lay_ab(), wrap, nb as u64 * r, |w, world, c| {
        let (body, i) = ((c / r) as usize, (c % r) as usize);
        let mut p = P { w, world, sub: 0, mon };
        let _ = (|| -> Option<()> {
            let b = bodies(&mut p, nb)?;
            let x1 = p.mk(MkLoop(RANGES[i].0, RANGES[i].1), &[b[body]])?;
            for r2 in RANGES {
                let m = p.mark();
                let x2 = p.mk(MkLoop(r2.0, r2.1), &[x1])?;
                for r3 in RANGES {
                    if p.stop() {
                        return None;
                    }
                    // keep the size of the reference automata reasonable
                    let top = |r: (u32, Option<u32>)| r.1.unwrap_or(r.0).max(1);
                    if top(RANGES[i]) * top(r2) * top(r3) <= 48 {
                        p.mk(MkLoop(r3.0, r3.1), &[x2])?;
                    }
                }
                p.cut(m);
            }
            Some(())
        })();
    });
}

pub fn loopcat(ctx: &Ctx, name: &str, nb: usize, wrap: bool, mon: Monitor) {
    let r = RANGES.len() as u64;
    program(
        ctx,
        name,
        &format!("X^r1 . X^r2 for {} bodies X and {} ranges, then with X, X^2, X^r1, Y, Y^r1 appended on either side", nb, r),
        &lay_ab(),
        wrap,
        nb as u64 * r,
        |w, world, c| {
            let (body, i) = ((c / r) as usize, (c % r) as usize);
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let b = bodies(&mut p, nb)?;
                let x = b[body];
                let y = b[(body + 1) % b.len()];
                let x1 = p.raw(MkLoop(RANGES[i].0, RANGES[i].1), &[x])?;
                let xx = p.raw(Exp(2), &[x])?;
                let y1 = p.raw(MkLoop(RANGES[i].0, RANGES[i].1), &[y])?;
                for r2 in RANGES {
                    let m = p.mark();
                    let x2 = p.raw(MkLoop(r2.0, r2.1), &[x])?;
                    let e = p.mk(Concat, &[x1, x2])?;
                    let d = p.mk(Concat, &[y1, x2])?;
                    p.mk(Concat, &[x2, y1])?;
                    for z in [x, xx, x1, x2, y, y1] {
                        if p.stop() {
                            return None;
                        }
                        for f in [e, d] {
                            let m = p.mark();
                            let l = p.mk(Concat, &[f, z])?;
                            p.mk(Concat, &[z, f])?;
                            p.mk(Concat, &[l, x])?;
                            p.mk(ConcatL, &[x1, z, x2])?;
                            p.mk(Union, &[f, z])?;
                            p.cut(m);
                        }
                    }
                    p.cut(m);
                }
                Some(())
            })();
        },
    );
}

pub fn bool6(ctx: &Ctx, name: &str, wrap: bool, mon: Monitor) {
    let k = 6u16;
    let iv: Vec<(u16, u16)> = (0..k).flat_map(|i| (i..k).map(move |j| (i, j))).collect();
    let n = iv.len();
    program(
        ctx,
        name,
        "(r1 op r2) op r3, with 7 binary operators (incl. complemented operands and concatenation), r1 < r2 and all r3, over all 21 ranges of 6 cells at 0, 1, 2, 0x100, 0x2FFFE, 0x2FFFF; smt_range on all pairs and on strings of length 0 to 3",
        &lay_six(),
        wrap,
        (n * n) as u64,
        |w, world, c| {
            let (i, j) = (c as usize / n, c as usize % n);
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                if c == 0 {
                    for a in 0..k {
                        for b in 0..k {
                            p.mk(SmtRng(a, b), &[])?;
                        }
                    }
                    for a in 0..4 {
                        for b in 0..4 {
                            if (a, b) != (1, 1) {
                                p.mk(SmtRngLen(a, b), &[])?;
                            }
                        }
                    }
                }
                let r: Vec<usize> = iv.iter().map(|&(a, b)| p.raw(Rng(a, b), &[])).collect::<Option<_>>()?;
                let m = p.mark();
                let cj = p.raw(Comp, &[r[j]])?;
                let ci = p.raw(Comp, &[r[i]])?;
                let mut l2 = vec![];
                for op in [Union, Inter, Diff, Concat] {
                    l2.push(p.mk(op, &[r[i], r[j]])?);
                }
                l2.push(p.mk(Union, &[r[i], cj])?);
                l2.push(p.mk(Inter, &[r[i], cj])?);
                l2.push(p.mk(Inter, &[ci, cj])?);
                if i < j {
                    for &x in &l2 {
                        for &y in &r {
                            if p.stop() {
                                return None;
                            }
                            for op in [Union, Inter, Diff, Concat] {
                                let m = p.mark();
                                p.mk(op, &[x, y])?;
                                p.cut(m);
                            }
                        }
                    }
                }
                p.cut(m);
                Some(())
            })();
        },
    );
}

pub fn lists(ctx: &Ctx, name: &str, len: usize, wrap: bool, mon: Monitor) {
    const N: usize = 12;
    program(
        ctx,
        name,
        &format!("union_list, inter_list, concat_list, diff_list on every list of length <= {} over {} terms (with complementary pairs, eps, all, none, nested unions and intersections)", len, N),
        &lay_ab(),
        wrap,
        (N * N) as u64 + 1,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let ab = p.raw(Str(vec![1, 2]), &[])?;
                let nab = p.raw(Comp, &[ab])?;
                let fu = p.raw(Full, &[])?;
                let u = p.raw(Union, &[a, ab])?;
                let sa = p.raw(Star, &[a])?;
                let i = p.raw(Inter, &[nab, sa])?;
                let e = p.raw(Eps, &[])?;
                let z = p.raw(Empty, &[])?;
                let af = p.raw(Concat, &[a, fu])?;
                let sp = p.raw(SigmaPlus, &[])?;
                let na = p.raw(Comp, &[a])?;
                let pool = [a, na, ab, nab, u, sa, i, e, z, fu, af, b, sp];
                let pool = &pool[..N];
                let ops = [UnionL, InterL, ConcatL, DiffL];
                if c == 0 {
                    for op in ops.iter().take(3) {
                        p.mk(op.clone(), &[])?;
                    }
                    for &x in pool {
                        for op in &ops {
                            p.mk(op.clone(), &[x])?;
                            for &y in pool {
                                p.mk(op.clone(), &[x, y])?;
                            }
                        }
                    }
                    return Some(());
                }
                let (x, y) = (pool[(c as usize - 1) / N], pool[(c as usize - 1) % N]);
                let m = p.mark();
                for &z in pool {
                    if p.stop() {
                        return None;
                    }
                    for op in &ops {
                        p.mk(op.clone(), &[x, y, z])?;
                        if len >= 4 {
                            for &t in pool {
                                p.mk(op.clone(), &[x, y, z, t])?;
                            }
                        }
                        p.cut(m);
                    }
                }
                Some(())
            })();
        },
    );
}

/// the lists of words of `long_lists`: all words over a, b in the order of their length
fn nth_word(i: usize) -> Vec<u16> {
    let x = i + 2;
    let bits = usize::BITS - 1 - x.leading_zeros();
    (0..bits).rev().map(|b| 1 + (x >> b & 1) as u16).collect()
}

pub fn long_lists(ctx: &Ctx, name: &str, max: usize, wrap: bool, mon: Monitor) {
    let ns: Vec<usize> = (5..=18).chain([20, 24, 31, 32, 33, 63, 64, 65]).filter(|&n| n <= max).collect();
    program(
        ctx,
        name,
        &format!("union_list of n words, inter_list of the complements of n words, diff_list, and concat_list of n letters and stars, for n = 5..18 and up to {}, in 2 orders; an operand replaced by none, all, eps, its complement, a copy of another one, the complement of another one, a star, or a union, at the start, in the middle and at the end", max),
        &lay_ab(),
        wrap,
        ns.len() as u64 * 2,
        |w, world, c| {
            let (n, rev) = (ns[c as usize / 2], c % 2 == 1);
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let e = p.raw(Eps, &[])?;
                let z = p.raw(Empty, &[])?;
                let fu = p.raw(Full, &[])?;
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let sa = p.raw(Star, &[a])?;
                let ab = p.raw(Rng(1, 2), &[])?;
                let mut ws: Vec<usize> = (0..n).map(|i| p.raw(Str(nth_word(i)), &[])).collect::<Option<_>>()?;
                if rev {
                    ws.reverse();
                }
                let cs: Vec<usize> = ws.iter().map(|&x| p.raw(Comp, &[x])).collect::<Option<_>>()?;
                let ls: Vec<usize> = (0..n).map(|i| if i % 5 == 3 { sa } else if i % 2 == 0 { a } else { b }).collect();
                let u2 = p.raw(Union, &[ws[0], ws[n - 1]])?;
                let i2 = p.raw(Inter, &[cs[0], cs[n - 1]])?;
                let m = p.mark();
                for at in [0, 1, n / 2, n - 2, n - 1] {
                    let other = (at + n / 3 + 1) % n;
                    for x in [ws[at], z, fu, e, cs[at], ws[other], cs[other], sa, u2, i2] {
                        if p.stop() {
                            return None;
                        }
                        let mut v = ws.clone();
                        v[at] = x;
                        p.mk(UnionL, &v)?;
                        p.mk(DiffL, &v)?;
                        let mut v = cs.clone();
                        v[at] = x;
                        p.mk(InterL, &v)?;
                        if n <= 20 {
                            v.insert(0, ab);
                            p.mk(DiffL, &v)?;
                        }
                        p.cut(m);
                    }
                    for x in [z, fu, e, sa, ab, a, b] {
                        let mut v = ls.clone();
                        v[at] = x;
                        p.mk(ConcatL, &v)?;
                        p.cut(m);
                    }
                }
                Some(())
            })();
        },
    );
}

/// concatenations of at most `len` symbols among a, b, [ab], Sigma, Sigma*, a*
pub fn sequences(p: &mut P, syms: &[usize], len: u32) -> Option<Vec<usize>> {
    let k = syms.len() as u64;
    let mut out = vec![];
    let mut first: FxSet<Ptr> = Default::default();
    for i in 0..seq_count(k, len) {
        let v: Vec<usize> = seq_decode(k, i).iter().map(|&x| syms[x]).collect();
        let x = p.raw(ConcatL, &v)?;
        let t = ptr(p.world.borrow().items[x].term);
        if first.insert(t) {
            out.push(x);
        }
    }
    Some(out)
}

pub fn seqs(ctx: &Ctx, name: &str, len: usize, wrap: bool, mon: Monitor) {
    // unions of two sequences: subsumption; then a third operand
    let nchunks = 256;
    program(
        ctx,
        name,
        &format!("union and intersection of every ordered pair of concatenations of <= {} symbols among a, [ab], allchar, all; union with a third one", len),
        &lay_ab(),
        wrap,
        nchunks,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let syms = [p.raw(Rng(1, 1), &[])?, p.raw(Rng(1, 2), &[])?, p.raw(AllChar, &[])?, p.raw(Full, &[])?];
                let s = sequences(&mut p, &syms, len as u32)?;
                let m = p.mark();
                for i in 0..s.len() {
                    if i as u64 % nchunks != c {
                        continue;
                    }
                    p.mk(Concat, &[s[i], syms[0]])?;
                    p.cut(m);
                    for j in 0..s.len() {
                        if p.stop() {
                            return None;
                        }
                        let u = p.mk(Union, &[s[i], s[j]])?;
                        p.mk(UnionL, &[s[j], u, s[(i + j) % s.len()]])?;
                        if j <= i {
                            p.mk(Inter, &[s[i], s[j]])?;
                            p.mk(Star, &[u])?;
                        }
                        p.cut(m);
                    }
                }
                Some(())
            })();
        },
    );
}

/// concatenations with several kinds of loops next to ranges
pub fn loop_seqs(ctx: &Ctx, name: &str, len: usize, wrap: bool, mon: Monitor) {
    let nchunks = 128;
    program(
        ctx,
        name,
        &format!("c.X.d, where X is a concatenation of <= {} symbols among a, b, a*, b+, a?, (a|b)^[2,3], (ab)*, all: union and intersection of every ordered pair, complement of one side, prefix and suffix left out", len),
        &Layout::new("abcd", vec![0, 0x61, 0x62, 0x63, 0x64, 0x65]),
        wrap,
        nchunks,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let ab = p.raw(Rng(1, 2), &[])?;
                let wab = p.raw(Str(vec![1, 2]), &[])?;
                let cc = p.raw(Rng(3, 3), &[])?;
                let dd = p.raw(Rng(4, 4), &[])?;
                let syms = [a, b, p.raw(Star, &[a])?, p.raw(Plus, &[b])?, p.raw(Opt, &[a])?, p.raw(Loop(2, 3), &[ab])?, p.raw(Star, &[wab])?, p.raw(Full, &[])?];
                let s = sequences(&mut p, &syms, len as u32)?;
                let mut t = vec![];
                for &x in &s {
                    t.push(p.raw(ConcatL, &[cc, x, dd])?);
                }
                let m = p.mark();
                for i in 0..s.len() {
                    if i as u64 % nchunks != c {
                        continue;
                    }
                    p.mk(Comp, &[t[i]])?;
                    p.cut(m);
                    for j in 0..s.len() {
                        if p.stop() {
                            return None;
                        }
                        p.mk(Union, &[t[i], t[j]])?;
                        p.mk(Union, &[s[i], s[j]])?;
                        if j < i {
                            p.mk(Inter, &[t[i], t[j]])?;
                            p.mk(Diff, &[s[i], s[j]])?;
                        }
                        p.cut(m);
                    }
                }
                Some(())
            })();
        },
    );
}

/// Terms next to a literal that spells their printed form
pub fn printed(ctx: &Ctx, name: &str, nl: usize, wrap: bool, mon: Monitor) {
    // every ASCII character and every symbol of the printed forms is a cell of its own
    let mut st: Vec<u32> = vec![0];
    st.extend(0x20..0x80);
    for x in [0xac, 0xb7, 0x3a3, 0x3b5, 0x3c9, 0x2205, 0x221e] {
        st.push(x);
        st.push(x + 1);
    }
    let lay = Layout::new("printed", st);
    let cell = |x: u32| lay.start.partition_point(|&s| s <= x) as u16 - 1;
    let (ca, cb) = (cell('a' as u32), cell('b' as u32));
    let nchunks = 64;
    program(
        ctx,
        name,
        &format!("x.w | y.t and w.t for every term t of depth <= 1 (6 unary, 3 binary operators) over {} leaves, and every unary operator on these, where w is the literal spelling the printed form of t", nl),
        &lay,
        wrap,
        nchunks,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let cx = p.raw(Rng(cell('x' as u32), cell('x' as u32)), &[])?;
                let cy = p.raw(Rng(cell('y' as u32), cell('y' as u32)), &[])?;
                let leaves = [Rng(ca, ca), Rng(ca, cb), Rng(cell('0' as u32), cell('9' as u32)), Eps, AllChar, Full, Rng(cb, cb)];
                let mut l = vec![];
                for op in leaves.iter().take(nl) {
                    l.push(p.raw(op.clone(), &[])?);
                }
                let un = [Comp, Star, Plus, Opt, Exp(2), Loop(1, 3)];
                let mut t = l.clone();
                for &x in &l {
                    for op in &un {
                        t.push(p.raw(op.clone(), &[x])?);
                    }
                    for &y in &l {
                        for op in [Concat, Union, Inter] {
                            t.push(p.raw(op, &[x, y])?);
                        }
                    }
                }
                for x in t.clone() {
                    for op in &un {
                        t.push(p.raw(op.clone(), &[x])?);
                    }
                }
                let m = p.mark();
                let mut seen: FxSet<Ptr> = Default::default();
                for (i, &x) in t.iter().enumerate() {
                    let r = p.world.borrow().items[x].term;
                    if !seen.insert(ptr(r)) || i as u64 % nchunks != c {
                        continue;
                    }
                    if p.stop() {
                        return None;
                    }
                    let lit: Vec<u16> = r.to_string().chars().map(|x| cell(x as u32)).collect();
                    let lit = p.mk(Str(lit), &[])?;
                    let u = p.mk(Concat, &[cx, lit])?;
                    let v = p.mk(Concat, &[cy, x])?;
                    p.mk(Union, &[u, v])?;
                    p.mk(Concat, &[lit, x])?;
                    p.cut(m);
                }
                Some(())
            })();
        },
    );
}

pub fn words(ctx: &Ctx, name: &str, len: usize, wrap: bool, mon: Monitor) {
    let k = seq_count(2, len as u32);
    program(
        ctx,
        name,
        &format!("str.to_re of all words of length <= {} over a, b: unions, concatenations, stars, complements and loops of pairs, and unions of triples", len),
        &lay_ab(),
        wrap,
        k * k,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let all: Vec<usize> = (0..k)
                    .map(|i| p.raw(Str(seq_decode(2, i).iter().map(|&x| x as u16 + 1).collect()), &[]))
                    .collect::<Option<_>>()?;
                let (x, y) = (all[(c / k) as usize], all[(c % k) as usize]);
                p.mk(Concat, &[x, y])?;
                let u = p.mk(Union, &[x, y])?;
                let s = p.mk(Star, &[u])?;
                p.mk(Loop(1, 3), &[u])?;
                p.mk(Concat, &[s, x])?;
                p.mk(Concat, &[y, s])?;
                let nu = p.mk(Comp, &[u])?;
                p.mk(Inter, &[nu, s])?;
                p.mk(Concat, &[nu, u])?;
                let d = p.mk(Diff, &[s, x])?;
                p.mk(Plus, &[d])?;
                for &z in &all {
                    let m = p.mark();
                    let t = p.mk(Union, &[u, z])?;
                    p.mk(Star, &[t])?;
                    p.mk(Concat, &[t, u])?;
                    p.mk(Diff, &[s, z])?;
                    p.cut(m);
                }
                Some(())
            })();
        },
    );
}

/// few expressions, with large derivative graphs or many classes
pub fn big(ctx: &Ctx, name: &str, scale: u32, wrap: bool, mon: Monitor) {
    program(
        ctx,
        name,
        "parameterised large expressions: long strings, bounded loops up to 100 (200), (a|b)*a(a|b)^n, intersections of stars of powers, complements, unions of many words, products of loops, Sigma* between words",
        &lay_ab(),
        wrap,
        60,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let ab = p.raw(Rng(1, 2), &[])?;
                let fu = p.raw(Full, &[])?;
                let n = (c / 10) as u32; // 0..5
                match c % 10 {
                    0 => {
                        let len = [10u32, 50, 100, 100 * scale, 63, 64][n as usize];
                        let s: Vec<u16> = (0..len).map(|i| 1 + ((i * i / 3 + i / 7) % 2) as u16).collect();
                        let s = p.mk(Str(s), &[])?;
                        p.mk(Comp, &[s])?;
                        let m = p.mk(ConcatL, &[fu, s, fu])?;
                        p.mk(Comp, &[m])?;
                    }
                    1 => {
                        let k = [5, 16, 33, 64, 100, 100 * scale][n as usize];
                        let x = p.mk(Loop(0, k), &[a])?;
                        let y = p.mk(Loop(k / 2, k), &[ab])?;
                        let z = p.mk(Exp(k), &[a])?;
                        p.mk(MkLoop(k, None), &[ab])?;
                        p.mk(Concat, &[x, z])?;
                        p.mk(Inter, &[x, y])?;
                        p.mk(Diff, &[y, x])?;
                        p.mk(Concat, &[x, b])?;
                    }
                    2 => {
                        let k = 1 + n + scale;
                        let st = p.mk(Star, &[ab])?;
                        let t = p.mk(Exp(k), &[ab])?;
                        let x = p.mk(ConcatL, &[st, a, t])?;
                        p.mk(Comp, &[x])?;
                        let y = p.mk(ConcatL, &[st, b, t])?;
                        p.mk(Inter, &[x, y])?;
                    }
                    3 => {
                        let ks = [[2, 3, 4], [2, 3, 5], [3, 4, 5], [4, 6, 7], [2, 5, 7], [3, 5, 7]][n as usize];
                        let mut l = vec![];
                        for k in ks {
                            let e = p.raw(Exp(k), &[a])?;
                            let s = p.mk(Star, &[e])?;
                            l.push(s);
                        }
                        let i = p.mk(InterL, &l)?;
                        let u = p.mk(UnionL, &l)?;
                        p.mk(Comp, &[u])?;
                        p.mk(Diff, &[u, i])?;
                        p.mk(DiffL, &l)?;
                    }
                    4 => {
                        // union of many words
                        let len = [2, 3, 4, 4, 5, 4 + scale][n as usize];
                        let mut l = vec![];
                        for i in 0..1u64 << len {
                            if (i + n as u64) % 3 != 0 {
                                l.push(p.raw(Str((0..len).map(|b| 1 + (i >> b & 1) as u16).collect()), &[])?);
                            }
                        }
                        let u = p.mk(UnionL, &l)?;
                        p.mk(Star, &[u])?;
                        p.mk(Comp, &[u])?;
                    }
                    5 => {
                        // product of loops
                        let x = p.mk(Loop(n, 2 * n + 2), &[a])?;
                        let y = p.mk(Loop(1, n + 3), &[b])?;
                        let xy = p.mk(Concat, &[x, y])?;
                        p.mk(Loop(2, 4), &[xy])?;
                        p.mk(Loop(2, 3), &[x])?;
                        let yx = p.mk(Concat, &[y, x])?;
                        p.mk(Inter, &[xy, yx])?;
                        let u = p.mk(Union, &[xy, yx])?;
                        p.mk(Plus, &[u])?;
                    }
                    6 => {
                        // words in order, anything in between
                        let mut l = vec![fu];
                        for i in 0..=n {
                            let s: Vec<u16> = (0..3).map(|j| 1 + ((i >> j) & 1) as u16).collect();
                            l.push(p.raw(Str(s), &[])?);
                            l.push(fu);
                        }
                        l.truncate(9);
                        let x = p.mk(ConcatL, &l)?;
                        p.mk(Comp, &[x])?;
                        let aa = p.mk(Loop(2, 5), &[a])?;
                        p.mk(Diff, &[x, aa])?;
                    }
                    7 => {
                        // alternating complement and concatenation
                        let mut x = a;
                        for i in 0..n.min(3) + 1 {
                            let cx = p.mk(Comp, &[x])?;
                            x = p.mk(Concat, &[cx, if i % 2 == 0 { b } else { a }])?;
                        }
                        p.mk(Star, &[x])?;
                    }
                    8 => {
                        // deep right/left nesting of concatenations and unions
                        let mut x = a;
                        for i in 0..20 + 20 * n {
                            x = match i % 4 {
                                0 => p.raw(Concat, &[x, b])?,
                                1 => p.raw(Union, &[x, a])?,
                                2 => p.raw(Concat, &[ab, x])?,
                                _ => p.raw(Opt, &[x])?,
                            };
                        }
                        p.mk(Concat, &[x, a])?;
                    }
                    _ => {
                        // loops of nullable bodies
                        let o = p.mk(Opt, &[a])?;
                        let ob = p.mk(Concat, &[o, b])?;
                        let oo = p.mk(Opt, &[ob])?;
                        let l = p.mk(Loop(n, n + 3), &[oo])?;
                        p.mk(MkLoop(n, None), &[oo])?;
                        p.mk(Loop(1, 2), &[l])?;
                        p.mk(Concat, &[l, oo])?;
                        p.mk(Concat, &[l, o])?;
                    }
                }
                Some(())
            })();
        },
    );
    // many ranges: up to 2 x 48 elementary cells
    let mut starts = vec![0u32];
    for i in 0..11u32 {
        starts.push(10 + 10 * i);
        starts.push(10 + 10 * i + 4);
    }
    starts.push(MAX);
    let lay = Layout::new("many", starts);
    let k = lay.n();
    program(
        ctx,
        &format!("{}-ranges", name),
        &format!("unions, intersections of complements, differences and alternating concatenations of up to {} ranges; overlapping ranges of every width", k),
        &lay,
        wrap,
        24,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let width = (c % 12) as usize;
                let stride = if c < 12 { 2 } else { 1 };
                let mut l = vec![];
                for i in (c as usize % 2..k).step_by(stride) {
                    l.push(p.raw(Rng(i as u16, (i + width).min(k - 1) as u16), &[])?);
                }
                let u = p.mk(UnionL, &l)?;
                p.mk(Star, &[u])?;
                p.mk(Comp, &[u])?;
                let mut cl = vec![];
                for &x in &l {
                    cl.push(p.raw(Comp, &[x])?);
                }
                p.mk(InterL, &cl)?;
                p.mk(DiffL, &l)?;
                // a different continuation for each range
                let mut s = vec![];
                for (i, &x) in l.iter().enumerate() {
                    s.push(p.raw(Concat, &[x, l[(i * 5 + 1) % l.len()]])?);
                }
                let v = p.mk(UnionL, &s)?;
                p.mk(Comp, &[v])?;
                p.mk(Concat, &[v, u])?;
                p.mk(Inter, &[v, u])?;
                Some(())
            })();
        },
    );
}

/// many letters, hence many derivative classes
fn letters(ctx: &Ctx, name: &str, scale: u32, wrap: bool, mon: Monitor) {
    let sizes: &[u32] = if scale > 1 { &[65, 66, 129, 130, 257, 258, 300, 513] } else { &[65, 66, 130, 258] };
    for &n in sizes {
        // single characters next to each other, or with gaps
        let step = 1 + n % 2;
        let mut starts = vec![0u32];
        for i in 0..n {
            starts.push(0x41 + i * step);
            if step == 2 {
                starts.push(0x42 + i * step);
            }
        }
        if step == 1 {
            starts.push(0x41 + n);
        }
        let lay = Layout::new("letters", starts);
        let cell = move |i: u32| (1 + (i % n) * step) as u16;
        program(
            ctx,
            &format!("{}-{}", name, n),
            &format!("{} letters, one character each, {}: unions of words and of ranges in which every letter, or every letter but one, is a class of its own, words of all letters, overlapping ranges", n, if step == 1 { "adjacent" } else { "with gaps" }),
            &lay,
            wrap,
            5,
            |w, world, c| {
                let mut p = P { w, world, sub: 0, mon };
                let _ = (|| -> Option<()> {
                    let fu = p.raw(Full, &[])?;
                    match c {
                        0 => {
                            // words of two letters
                            let mut l = vec![];
                            for i in 0..n {
                                l.push(p.raw(Str(vec![cell(i), cell(i * 5 + 1)]), &[])?);
                            }
                            let u = p.mk(UnionL, &l)?;
                            p.mk(Comp, &[u])?;
                            let v = p.mk(UnionL, &l[1..])?;
                            p.mk(Diff, &[u, v])?;
                        }
                        1 => {
                            // the second letter depends on the class of the first one
                            let mut l = vec![];
                            for i in 0..n {
                                let x = p.raw(Rng(cell(i), cell(i)), &[])?;
                                let y = p.raw(Rng(cell(i / 2), cell(n - 1)), &[])?;
                                l.push(p.raw(Concat, &[x, y])?);
                            }
                            let u = p.mk(UnionL, &l)?;
                            let x = p.raw(Rng(cell(n - 1), cell(n - 1)), &[])?;
                            p.mk(Inter, &[u, x])?;
                            let f = p.mk(Concat, &[x, fu])?;
                            p.mk(Inter, &[u, f])?;
                        }
                        2 => {
                            // all letters in a row
                            let s = p.mk(Str((0..n).map(cell).collect()), &[])?;
                            p.mk(Comp, &[s])?;
                            let t = p.mk(Str((0..n).rev().map(cell).collect()), &[])?;
                            p.mk(Union, &[s, t])?;
                        }
                        3 => {
                            // excluded letters
                            let mut l = vec![];
                            for i in (0..n).filter(|i| i % 7 != 3) {
                                l.push(p.raw(Rng(cell(i), cell(i)), &[])?);
                            }
                            let u = p.mk(UnionL, &l)?;
                            let mut cl = vec![];
                            for &x in &l {
                                cl.push(p.raw(Comp, &[x])?);
                            }
                            p.mk(InterL, &cl)?;
                            let s = p.mk(Plus, &[u])?;
                            p.mk(Comp, &[s])?;
                        }
                        _ => {
                            // overlapping ranges
                            let mut l = vec![];
                            for i in 0..n / 2 {
                                let x = p.raw(Rng(cell(i), cell(i + n / 2)), &[])?;
                                let y = p.raw(Rng(cell(i * 3), cell(i * 3)), &[])?;
                                l.push(p.raw(Concat, &[x, y])?);
                            }
                            p.mk(UnionL, &l)?;
                        }
                    }
                    Some(())
                })();
            },
        );
    }
}

/// long expressions and automata with many states
fn long(ctx: &Ctx, name: &str, scale: u32, wrap: bool, mon: Monitor) {
    let sizes: &[u32] = if scale > 1 { &[127, 128, 129, 255, 256, 257, 300, 511, 513, 1023, 1025] } else { &[129, 257, 513] };
    program(
        ctx,
        name,
        &format!("words, powers, loops, unions of two long words, long words after anything, of length n for n in {:?}", sizes),
        &lay_ab(),
        wrap,
        sizes.len() as u64 * 6,
        |w, world, c| {
            let mut p = P { w, world, sub: 0, mon };
            let n = sizes[c as usize / 6];
            let _ = (|| -> Option<()> {
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let ab = p.raw(Rng(1, 2), &[])?;
                let fu = p.raw(Full, &[])?;
                let word = |x: u32| Str((0..n).map(|i| 1 + ((i * i / 3 + i / x) % 2) as u16).collect());
                match c % 6 {
                    0 => {
                        let s = p.mk(word(7), &[])?;
                        let c = p.mk(Comp, &[s])?;
                        p.mk(Concat, &[c, s])?;
                    }
                    1 => {
                        let s = p.mk(word(7), &[])?;
                        let t = p.mk(word(n - 5), &[])?;
                        let u = p.mk(Union, &[s, t])?;
                        p.mk(Star, &[u])?;
                    }
                    2 => {
                        let x = p.mk(Loop(n / 2, n), &[ab])?;
                        let y = p.mk(Exp(n), &[a])?;
                        p.mk(Diff, &[x, y])?;
                        p.mk(Concat, &[y, b])?;
                    }
                    3 => {
                        let o = p.mk(Opt, &[ab])?;
                        let x = p.mk(Loop(1, n), &[o])?;
                        let l = p.mk(MkLoop(n, None), &[a])?;
                        p.mk(Inter, &[x, l])?; // a^n only
                        p.mk(Union, &[l, b])?;
                    }
                    4 => {
                        let s = p.mk(word(5), &[])?;
                        let x = p.mk(Concat, &[a, s])?;
                        let y = p.mk(Concat, &[s, a])?;
                        let y = p.mk(Inter, &[x, y])?;
                        p.mk(Union, &[y, fu])?;
                        // short words after anything are cheap to determinise
                        let t = p.raw(Str((0..n.min(300)).map(|i| 1 + (i % 5 == 0) as u16).collect()), &[])?;
                        p.mk(ConcatL, &[fu, t])?;
                    }
                    _ => {
                        // as many operands
                        let mut l = vec![];
                        for i in 0..n {
                            let x = p.raw(Exp(i), &[a])?;
                            l.push(p.raw(Concat, &[x, b])?);
                        }
                        p.mk(UnionL, &l[1..n as usize / 4])?;
                        p.mk(ConcatL, &[&l[..3], &l[30..32]].concat())?;
                        let mut cl = vec![];
                        for &x in &l[1..n as usize / 4] {
                            cl.push(p.raw(Comp, &[x])?);
                        }
                        p.mk(InterL, &cl)?;
                    }
                }
                Some(())
            })();
        },
    );
}
