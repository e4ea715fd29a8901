//! Expression-construction programs: every item is an application of a constructor to earlier
//! items, executed at the same time on the implementation (a manager, or the SMT-LIB wrappers)
//! and on the reference model.

use crate::dfa::*;
use crate::rt::*;
use crate::util::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as wr;
use aws_smt_strings::smt_strings::SmtString;
use std::cell::RefCell;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Empty,
    Eps,
    Full,
    SigmaPlus,
    AllChar,
    /// characters of cells i to j
    Rng(u16, u16),
    /// smt_range / re_range, on the first character of cell i and the last character of cell j;
    /// denotes the empty language if i > j
    SmtRng(u16, u16),
    /// smt_range with arguments that are not single characters: lengths of the two arguments
    SmtRngLen(u16, u16),
    /// str.to_re of a word over single-character cells
    Str(Vec<u16>),
    Comp,
    Star,
    Plus,
    Opt,
    Exp(u32),
    /// smt_loop / re_loop
    Loop(u32, u32),
    /// mk_loop on the range [i, j] or [i, inf)
    MkLoop(u32, Option<u32>),
    Concat,
    Union,
    Inter,
    Diff,
    ConcatL,
    UnionL,
    InterL,
    DiffL,
}

#[derive(Clone)]
pub struct Item {
    pub op: Op,
    pub args: Box<[u32]>,
    pub term: RegLan,
    pub lang: Lang,
}

pub type Ptr = *const RE;

pub fn ptr(t: RegLan) -> Ptr {
    t as *const RE
}

pub struct World {
    pub m: ReManager,
    pub wrap: bool,
    pub o: Oracle,
    pub lay: Layout,
    pub reps: Vec<(u32, usize)>,
    pub items: Vec<Item>,
    /// terms whose whole derivative graph was compared with this language
    pub verified: FxMap<Ptr, Lang>,
    /// root terms already judged by the monitor
    pub seen: FxMap<Ptr, Lang>,
}

/// associative operation on a list, balanced
fn fold(o: &mut Oracle, a: &[Lang], neutral: Lang, f: &dyn Fn(&mut Oracle, Lang, Lang) -> Lang) -> Lang {
    match a.len() {
        0 => neutral,
        1 => a[0],
        n => {
            let x = fold(o, &a[..n / 2], neutral, f);
            let y = fold(o, &a[n / 2..], neutral, f);
            f(o, x, y)
        }
    }
}

#[derive(Debug)]
pub enum Conflict {
    /// some derivative disagrees with the oracle
    Differs,
    /// exploration limit
    TooBig,
}

pub const CLOSURE_CAP: usize = 100_000;

impl World {
    pub fn new(o: Oracle, lay: &Layout, wrap: bool) -> World {
        assert!(o.k == lay.n());
        World {
            m: ReManager::new(),
            wrap,
            o,
            reps: lay.all_reps(),
            lay: lay.clone(),
            items: vec![],
            verified: Default::default(),
            seen: Default::default(),
        }
    }

    pub fn lo(&self, cell: usize) -> u32 {
        self.lay.lo(cell)
    }

    fn lang_of(&mut self, op: &Op, args: &[usize]) -> Lang {
        let a: Vec<Lang> = args.iter().map(|&i| self.items[i].lang).collect();
        let o = &mut self.o;
        match op {
            Op::Empty | Op::SmtRngLen(..) => o.empty(),
            Op::Eps => o.eps(),
            Op::Full => o.full(),
            Op::SigmaPlus => {
                let f = o.full();
                let e = o.eps();
                o.diff(f, e)
            }
            Op::AllChar => o.range(0, o.k - 1),
            Op::Rng(i, j) => o.range(*i as usize, *j as usize),
            Op::SmtRng(i, j) => {
                if i <= j {
                    o.range(*i as usize, *j as usize)
                } else {
                    o.empty()
                }
            }
            Op::Str(w) => {
                let w: Vec<usize> = w.iter().map(|&x| x as usize).collect();
                o.word(&w)
            }
            Op::Comp => o.complement(a[0]),
            Op::Star => o.star(a[0]),
            Op::Plus => o.loop_(a[0], 1, None),
            Op::Opt => o.loop_(a[0], 0, Some(1)),
            Op::Exp(k) => o.power(a[0], *k),
            Op::Loop(i, j) => o.loop_(a[0], *i, Some(*j)),
            Op::MkLoop(i, j) => o.loop_(a[0], *i, *j),
            Op::Concat => o.concat(a[0], a[1]),
            Op::Union => o.union(a[0], a[1]),
            Op::Inter => o.inter(a[0], a[1]),
            Op::Diff => o.diff(a[0], a[1]),
            Op::ConcatL => {
                let mut r = o.eps();
                for &x in &a {
                    r = o.concat(r, x);
                }
                r
            }
            Op::UnionL => {
                let e = o.empty();
                fold(o, &a, e, &|o, x, y| o.union(x, y))
            }
            Op::InterL => {
                let f = o.full();
                fold(o, &a, f, &|o, x, y| o.inter(x, y))
            }
            Op::DiffL => {
                let mut r = a[0];
                for &x in &a[1..] {
                    r = o.diff(r, x);
                }
                r
            }
        }
    }

    fn one(c: u32) -> SmtString {
        SmtString::from(c)
    }

    pub fn build(&mut self, op: &Op, a: &[RegLan]) -> RegLan {
        if self.wrap {
            return self.build_wrap(op, a);
        }
        let lay = &self.lay;
        let m = &mut self.m;
        match op {
            Op::Empty => m.empty(),
            Op::Eps => m.epsilon(),
            Op::Full => m.full(),
            Op::SigmaPlus => m.sigma_plus(),
            Op::AllChar => m.all_chars(),
            Op::Rng(i, j) => {
                let (x, y) = (lay.lo(*i as usize), lay.hi(*j as usize));
                // the three ways of making a range
                if x == y {
                    m.char(x)
                } else if i == j {
                    m.char_set(CharSet::range(x, y))
                } else {
                    m.range(x, y)
                }
            }
            Op::SmtRng(i, j) => {
                let (x, y) = (lay.lo(*i as usize), lay.hi(*j as usize));
                m.smt_range(&Self::one(x), &Self::one(y))
            }
            Op::SmtRngLen(i, j) => {
                m.smt_range(&smt(&vec![0x61; *i as usize]), &smt(&vec![0x62; *j as usize]))
            }
            Op::Str(w) => {
                let w: Vec<u32> = w.iter().map(|&c| lay.lo(c as usize)).collect();
                m.str(&smt(&w))
            }
            Op::Comp => m.complement(a[0]),
            Op::Star => m.star(a[0]),
            Op::Plus => m.plus(a[0]),
            Op::Opt => m.opt(a[0]),
            Op::Exp(k) => m.exp(a[0], *k),
            Op::Loop(i, j) => m.smt_loop(a[0], *i, *j),
            Op::MkLoop(i, Some(j)) => m.mk_loop(a[0], LoopRange::finite(*i, *j)),
            Op::MkLoop(i, None) => m.mk_loop(a[0], LoopRange::infinite(*i)),
            Op::Concat => m.concat(a[0], a[1]),
            Op::Union => m.union(a[0], a[1]),
            Op::Inter => m.inter(a[0], a[1]),
            Op::Diff => m.diff(a[0], a[1]),
            Op::ConcatL => m.concat_list(a.iter().copied()),
            Op::UnionL => m.union_list(a.iter().copied()),
            Op::InterL => m.inter_list(a.iter().copied()),
            Op::DiffL => m.diff_list(a[0], a[1..].iter().copied()),
        }
    }

    fn build_wrap(&mut self, op: &Op, a: &[RegLan]) -> RegLan {
        let lay = &self.lay;
        match op {
            Op::Empty => wr::re_none(),
            Op::Eps => wr::str_to_re(&SmtString::from("")),
            Op::Full => wr::re_all(),
            Op::SigmaPlus => wr::re_plus(wr::re_allchar()),
            Op::AllChar => wr::re_allchar(),
            Op::Rng(i, j) | Op::SmtRng(i, j) => {
                let (x, y) = (lay.lo(*i as usize), lay.hi(*j as usize));
                if x == y && i == j && i % 2 == 0 {
                    wr::str_to_re(&Self::one(x))
                } else {
                    wr::re_range(&Self::one(x), &Self::one(y))
                }
            }
            Op::SmtRngLen(i, j) => {
                wr::re_range(&smt(&vec![0x61; *i as usize]), &smt(&vec![0x62; *j as usize]))
            }
            Op::Str(w) => {
                let w: Vec<u32> = w.iter().map(|&c| lay.lo(c as usize)).collect();
                wr::str_to_re(&smt(&w))
            }
            Op::Comp => wr::re_comp(a[0]),
            Op::Star => wr::re_star(a[0]),
            Op::Plus => wr::re_plus(a[0]),
            Op::Opt => wr::re_opt(a[0]),
            Op::Exp(k) => wr::re_power(a[0], *k),
            Op::Loop(i, j) | Op::MkLoop(i, Some(j)) => wr::re_loop(a[0], *i, *j),
            Op::MkLoop(i, None) => {
                let p = wr::re_power(a[0], *i);
                let s = wr::re_star(a[0]);
                wr::re_concat(p, s)
            }
            Op::Concat => wr::re_concat(a[0], a[1]),
            Op::Union => wr::re_union(a[0], a[1]),
            Op::Inter => wr::re_inter(a[0], a[1]),
            Op::Diff => wr::re_diff(a[0], a[1]),
            Op::ConcatL => wr::re_concat_list(a.iter().copied()),
            Op::UnionL => wr::re_union_list(a.iter().copied()),
            Op::InterL => wr::re_inter_list(a.iter().copied()),
            Op::DiffL => wr::re_diff_list(a[0], a[1..].iter().copied()),
        }
    }

    /// Apply a constructor; -> index of the new item
    pub fn add(&mut self, op: &Op, args: &[usize]) -> usize {
        let lang = self.lang_of(op, args);
        let a: Vec<RegLan> = args.iter().map(|&i| self.items[i].term).collect();
        let term = self.build(op, &a);
        self.items.push(Item {
            op: op.clone(),
            args: args.iter().map(|&x| x as u32).collect(),
            term,
            lang,
        });
        self.items.len() - 1
    }

    pub fn show_op(&self, op: &Op, args: &[usize]) -> String {
        let s = |i: usize| self.show(args[i]);
        let all = || {
            (0..args.len())
                .map(s)
                .collect::<Vec<_>>()
                .join(", ")
        };
        let l = &self.lay;
        match op {
            Op::Empty => "none".into(),
            Op::Eps => "eps".into(),
            Op::Full => "all".into(),
            Op::SigmaPlus => "sigma_plus".into(),
            Op::AllChar => "allchar".into(),
            Op::Rng(i, j) => format!("[{:#x}-{:#x}]", l.lo(*i as usize), l.hi(*j as usize)),
            Op::SmtRng(i, j) => {
                format!("smt_range({:#x},{:#x})", l.lo(*i as usize), l.hi(*j as usize))
            }
            Op::SmtRngLen(i, j) => format!("smt_range(<length {}>,<length {}>)", i, j),
            Op::Str(w) => format!(
                "str{}",
                show(&w.iter().map(|&c| l.lo(c as usize)).collect::<Vec<_>>())
            ),
            Op::Comp => format!("comp({})", s(0)),
            Op::Star => format!("star({})", s(0)),
            Op::Plus => format!("plus({})", s(0)),
            Op::Opt => format!("opt({})", s(0)),
            Op::Exp(k) => format!("exp({},{})", s(0), k),
            Op::Loop(i, j) => format!("loop({},{},{})", s(0), i, j),
            Op::MkLoop(i, Some(j)) => format!("mk_loop({},[{},{}])", s(0), i, j),
            Op::MkLoop(i, None) => format!("mk_loop({},[{},inf])", s(0), i),
            Op::Concat => format!("concat({})", all()),
            Op::Union => format!("union({})", all()),
            Op::Inter => format!("inter({})", all()),
            Op::Diff => format!("diff({})", all()),
            Op::ConcatL => format!("concat_list({})", all()),
            Op::UnionL => format!("union_list({})", all()),
            Op::InterL => format!("inter_list({})", all()),
            Op::DiffL => format!("diff_list({})", all()),
        }
    }

    pub fn show(&self, i: usize) -> String {
        let it = &self.items[i];
        let a: Vec<usize> = it.args.iter().map(|&x| x as usize).collect();
        self.show_op(&it.op, &a)
    }

    pub fn word(&self, w: &[usize]) -> Vec<u32> {
        w.iter().map(|&a| self.lay.lo(a)).collect()
    }

    pub fn in_re(&mut self, s: &[u32], t: RegLan) -> bool {
        if self.wrap {
            wr::str_in_re(&smt(s), t)
        } else {
            self.m.str_in_re(&smt(s), t)
        }
    }

    /// Explore the product of the derivative graph of a term with the minimal DFA of `lang`,
    /// for the representatives of all cells.
    pub fn lockstep(&mut self, term: RegLan, lang: Lang, st: &mut Stats) -> Result<(), Conflict> {
        match self.verified.get(&ptr(term)) {
            Some(&l) if l == lang => return Ok(()),
            Some(_) => return Err(Conflict::Differs),
            None => (),
        }
        let mut stack = vec![(term, lang)];
        self.verified.insert(ptr(term), lang);
        let mut count = 0;
        while let Some((t, l)) = stack.pop() {
            count += 1;
            if count > CLOSURE_CAP {
                return Err(Conflict::TooBig);
            }
            st.states += 1;
            if t.nullable != self.o.nullable(l) {
                return Err(Conflict::Differs);
            }
            for i in 0..self.reps.len() {
                let (c, cell) = self.reps[i];
                let d = self.m.char_derivative(t, c);
                let dl = self.o.derive(l, cell);
                st.transitions += 1;
                match self.verified.get(&ptr(d)) {
                    Some(&x) if x == dl => (),
                    Some(_) => return Err(Conflict::Differs),
                    None => {
                        self.verified.insert(ptr(d), dl);
                        stack.push((d, dl));
                    }
                }
            }
        }
        Ok(())
    }

    /// Breadth-first search of the product, without any cached verdict, for a string on which
    /// nullability of the derivative is not what the oracle says.
    pub fn find_mismatch(&mut self, term: RegLan, lang: Lang) -> Option<Vec<u32>> {
        let mut seen: FxSet<(Ptr, Lang)> = Default::default();
        let mut q: Vec<(RegLan, Lang, usize, u32)> = vec![(term, lang, usize::MAX, 0)];
        seen.insert((ptr(term), lang));
        let mut h = 0;
        while h < q.len() && h < CLOSURE_CAP {
            let (t, l, _, _) = q[h];
            if t.nullable != self.o.nullable(l) {
                let mut w = vec![];
                let mut i = h;
                while q[i].2 != usize::MAX {
                    w.push(q[i].3);
                    i = q[i].2;
                }
                w.reverse();
                return Some(w);
            }
            for i in 0..self.reps.len() {
                let (c, cell) = self.reps[i];
                let d = self.m.char_derivative(t, c);
                let dl = self.o.derive(l, cell);
                if seen.insert((ptr(d), dl)) {
                    q.push((d, dl, h, c));
                }
            }
            h += 1;
        }
        None
    }

    pub fn cells(&self, s: &[u32]) -> Vec<usize> {
        s.iter().map(|&c| self.lay.cell_of(c)).collect()
    }

    /// Strings that visit every state and take every transition of the minimal DFA of `lang`
    /// with every representative character, followed by a shortest completion:
    /// (string, expected membership)
    pub fn cover(&self, lang: Lang) -> Vec<(Vec<u32>, bool)> {
        let d = self.o.dfa(lang);
        let acc = self.o.access(lang);
        let comp = self.o.completions(lang);
        let mut out = vec![];
        for (s, p) in acc.iter().enumerate() {
            let p = self.word(p);
            out.push((p.clone(), d.fin[s]));
            for &(c, cell) in &self.reps {
                let s2 = d.t[s * self.o.k + cell] as usize;
                let mut w = p.clone();
                w.push(c);
                out.push((w.clone(), d.fin[s2]));
                if let Some(z) = &comp[s2] {
                    if !z.is_empty() {
                        w.extend(self.word(z));
                        out.push((w, true));
                    }
                }
            }
        }
        out
    }
}

/// oracles kept per thread, by alphabet size
#[derive(Default)]
pub struct Oracles {
    v: Vec<Oracle>,
}

impl Oracles {
    pub fn take(&mut self, k: usize) -> Oracle {
        match self.v.iter().position(|o| o.k == k) {
            Some(i) => {
                let o = self.v.swap_remove(i);
                // bound memory: start again when the tables become large
                if o.langs.len() > 400_000 {
                    Oracle::new(k)
                } else {
                    o
                }
            }
            None => Oracle::new(k),
        }
    }
    pub fn put(&mut self, o: Oracle) {
        self.v.push(o);
    }
}

pub type Check = Result<(), String>;
/// judge a new item
pub type Monitor<'a> = &'a (dyn Fn(&mut World, usize, &mut Stats) -> Check + Sync);

/// One application of a constructor as a case: build, then judge
pub fn step(w: &mut Worker, world: &RefCell<World>, sub: &mut u64, op: &Op, args: &[usize], mon: Monitor) -> Option<usize> {
    let mut idx = None;
    *sub += 1;
    let ok = w.case(
        *sub,
        || world.borrow().show_op(op, args),
        |st| {
            let mut wd = world.borrow_mut();
            let i = wd.add(op, args);
            idx = Some(i);
            mon(&mut wd, i, st)
        },
    );
    if ok {
        idx
    } else {
        None
    }
}

pub fn no_monitor(_: &mut World, _: usize, _: &mut Stats) -> Check {
    Ok(())
}

/// leaves, unary and binary operators of a family of expressions
#[derive(Clone)]
pub struct Spec {
    pub leaves: Vec<Op>,
    pub unary: Vec<Op>,
    pub binary: Vec<Op>,
}

impl Spec {
    /// number of constructor applications of depth <= 1
    pub fn base_len(&self) -> usize {
        let l = self.leaves.len();
        l + l * self.unary.len() + l * l * self.binary.len()
    }
}

/// All terms of depth <= 1; returns for each application, in order, the item index if it is the
/// first one that produced that term
pub fn base(w: &mut Worker, world: &RefCell<World>, sub: &mut u64, sp: &Spec, mon: Monitor) -> Vec<Option<usize>> {
    let mut out = vec![];
    let mut first: FxSet<Ptr> = Default::default();
    let mut leaves = vec![];
    let mut push = |out: &mut Vec<Option<usize>>, i: Option<usize>| {
        let t = i.map(|i| ptr(world.borrow().items[i].term));
        out.push(match t {
            Some(p) if first.insert(p) => i,
            _ => None,
        });
    };
    for op in &sp.leaves {
        let i = step(w, world, sub, op, &[], mon);
        if let Some(i) = i {
            leaves.push(i);
        }
        push(&mut out, i);
    }
    for &x in &leaves {
        for op in &sp.unary {
            let i = step(w, world, sub, op, &[x], mon);
            push(&mut out, i);
        }
    }
    for &x in &leaves {
        for &y in &leaves {
            for op in &sp.binary {
                let i = step(w, world, sub, op, &[x, y], mon);
                push(&mut out, i);
            }
        }
    }
    out
}

/// run a chunk with a fresh World; in wrapper mode, on a fresh thread, so that the thread-local
/// manager starts empty
pub fn with_world(w: &mut Worker, s: &mut Oracles, lay: &Layout, wrap: bool, f: impl FnOnce(&mut Worker, &RefCell<World>) + Send) {
    let k = lay.n();
    if wrap {
        std::thread::scope(|sc| {
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let world = RefCell::new(World::new(Oracle::new(k), lay, true));
                    f(w, &world);
                })
                .expect("thread");
            if let Err(e) = h.join() {
                std::panic::resume_unwind(e);
            }
        });
    } else {
        let world = RefCell::new(World::new(s.take(k), lay, false));
        f(w, &world);
        s.put(world.into_inner().o);
    }
}

/// operands that are combined with the terms of depth 2
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum Deep {
    No,
    Leaves,
    Depth1,
    Depth2,
}

/// Family: all expressions of depth 2 (operators applied to all terms of depth <= 1), and
/// operators applied to these and terms of the given kind
pub fn depth2(ctx: &Ctx, name: &str, bound: &str, lay: &Layout, sp: &Spec, wrap: bool, deep: Deep, mon: Monitor) {
    let depth3 = deep > Deep::No;
    let n = sp.base_len() as u64;
    ctx.family(name, bound, n + 1, Oracles::default, |w, s, c| {
        with_world(w, s, lay, wrap, |w, world| {
            let mut sub = 0;
            if c == 0 {
                base(w, world, &mut sub, sp, mon);
                return;
            }
            let before = w.stats;
            let b = base(w, world, &mut sub, sp, &no_monitor);
            w.stats = before; // repeated in every chunk: counted once, in chunk 0
            if w.stopping() {
                return;
            }
            let i = match b[c as usize - 1] {
                Some(i) => i,
                None => return,
            };
            let items: Vec<usize> = b.iter().filter_map(|x| *x).collect();
            let keep = world.borrow().items.len();
            let leaves: Vec<usize> = b[..sp.leaves.len()].iter().filter_map(|x| *x).collect();
            let mut level2: Vec<usize> = vec![];
            let mut first: FxSet<Ptr> = Default::default();
            let mut one = |w: &mut Worker, sub: &mut u64, op: &Op, args: &[usize]| -> bool {
                match step(w, world, sub, op, args, mon) {
                    None => false,
                    Some(x) => {
                        if depth3 {
                            let p = ptr(world.borrow().items[x].term);
                            if first.insert(p) {
                                level2.push(x);
                            } else {
                                world.borrow_mut().items.pop();
                            }
                        } else {
                            world.borrow_mut().items.truncate(keep);
                        }
                        true
                    }
                }
            };
            for op in &sp.unary {
                if !one(w, &mut sub, op, &[i]) {
                    return;
                }
            }
            for &j in &items {
                if w.stopping() {
                    return;
                }
                for op in &sp.binary {
                    if !one(w, &mut sub, op, &[i, j]) {
                        return;
                    }
                }
            }
            let others: Vec<usize> = match deep {
                Deep::No => return,
                Deep::Leaves => leaves,
                Deep::Depth1 => items.clone(),
                Deep::Depth2 => {
                    let mut all = items.clone();
                    let mut seen: FxSet<Ptr> = Default::default();
                    for &x in &items {
                        seen.insert(ptr(world.borrow().items[x].term));
                    }
                    let before = w.stats;
                    for &x in &items {
                        let mut put = |w: &mut Worker, op: &Op, args: &[usize]| {
                            if let Some(y) = step(w, world, &mut sub, op, args, &no_monitor) {
                                let p = ptr(world.borrow().items[y].term);
                                if seen.insert(p) {
                                    all.push(y);
                                } else {
                                    world.borrow_mut().items.pop();
                                }
                            }
                        };
                        for op in &sp.unary {
                            put(w, op, &[x]);
                        }
                        for &y in &items {
                            for op in &sp.binary {
                                put(w, op, &[x, y]);
                            }
                        }
                    }
                    w.stats = before;
                    all
                }
            };
            let keep = world.borrow().items.len();
            for &x in &level2 {
                if w.stopping() {
                    return;
                }
                for op in &sp.unary {
                    if step(w, world, &mut sub, op, &[x], mon).is_none() {
                        return;
                    }
                    world.borrow_mut().items.truncate(keep);
                }
                for &y in &others {
                    for op in &sp.binary {
                        // with all pairs, the other order comes from another chunk
                        let both = [[x, y], [y, x]];
                        for args in &both[..if deep == Deep::Depth2 { 1 } else { 2 }] {
                            if step(w, world, &mut sub, op, args, mon).is_none() {
                                return;
                            }
                            world.borrow_mut().items.truncate(keep);
                        }
                    }
                }
            }
        });
    });
}

/// Family given by a program per chunk
pub fn program(ctx: &Ctx, name: &str, bound: &str, lay: &Layout, wrap: bool, nchunks: u64, f: impl Fn(&mut Worker, &RefCell<World>, u64) + Sync) {
    ctx.family(name, bound, nchunks, Oracles::default, |w, s, c| {
        with_world(w, s, lay, wrap, |w, world| f(w, world, c));
    });
}
