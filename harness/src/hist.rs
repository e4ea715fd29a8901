//! C07: hash-consing. Histories of a manager are enumerated; after each of them, constructions
//! must give the identical term, and a term with the language that the same construction has in
//! a fresh manager.

use crate::dfa::*;
use crate::ensure;
use crate::fams::*;
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::loop_ranges::LoopRange;
use aws_smt_strings::regular_expressions::*;
use aws_smt_strings::smt_regular_expressions as wr;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

const CAP: usize = 3000;

/// Canonical form of the language of a term as the implementation itself has it: derivative
/// graph with nullable flags, over the given characters (one letter each), minimised.
/// None if the graph is too large.
fn impl_lang(m: &mut ReManager, o: &mut Oracle, t: RegLan, chars: &[u32], st: &mut Stats) -> Option<Lang> {
    let mut id: FxMap<Ptr, u16> = Default::default();
    let mut q: Vec<RegLan> = vec![t];
    id.insert(ptr(t), 0);
    let mut tr: Vec<u16> = vec![];
    let mut h = 0;
    while h < q.len() {
        if h > CAP {
            return None;
        }
        let x = q[h];
        for &c in chars {
            let d = m.char_derivative(x, c);
            let n = q.len() as u16;
            let e = *id.entry(ptr(d)).or_insert(n);
            if e == n {
                q.push(d);
            }
            tr.push(e);
        }
        h += 1;
    }
    st.states += q.len() as u64;
    st.transitions += tr.len() as u64;
    let fin: Vec<bool> = q.iter().map(|t| t.nullable).collect();
    Some(o.intern(q.len(), &tr, &fin, 0))
}

fn hash_of(t: RegLan) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// == holds only between a term and itself; hashing and ordering agree with ==
fn same_iff_identical(x: RegLan, y: RegLan) -> Check {
    let p = std::ptr::eq(x, y);
    ensure!((x == y) == p, "two terms compare {} but are {} object: {} and {}", if x == y { "equal" } else { "different" }, if p { "the same" } else { "not the same" }, x, y);
    ensure!((x != y) == !p, "!= disagrees with == on {} and {}", x, y);
    ensure!((x.cmp(y) == std::cmp::Ordering::Equal) == p, "cmp is Equal on {} and {}, identical: {}", x, y, p);
    ensure!(x.cmp(y) == y.cmp(x).reverse() && x.partial_cmp(y) == Some(x.cmp(y)), "the order is not antisymmetric on {} and {}", x, y);
    ensure!(!p || hash_of(x) == hash_of(y), "hash of {} changes", x);
    Ok(())
}

fn complement_laws(t: RegLan, comp: &mut dyn FnMut(RegLan) -> RegLan) -> Check {
    let c = comp(t);
    ensure!(!std::ptr::eq(c, t) && c != t, "complement({}) is itself", t);
    let cc = comp(c);
    ensure!(std::ptr::eq(cc, t), "complement(complement({})) is {}, another term", t, cc);
    let c2 = comp(t);
    ensure!(std::ptr::eq(c, c2), "complement({}) gives two terms", t);
    same_iff_identical(c, t)
}

// ---------------------------------------------------------------------------------------------
// variables assigned in sequence

/// actions on variables v0, v1, ...; each defines the next variable, except the queries
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Act {
    Leaf(u8),
    Comp(u8),
    Star(u8),
    Opt(u8),
    Loop(u8, u8, u8),
    Concat(u8, u8),
    Union(u8, u8),
    Inter(u8, u8),
    Diff(u8, u8),
    /// derivative with respect to character i
    Deriv(u8, u8),
    // queries: no new variable
    Compile(u8),
    Empty(u8),
    GetString(u8),
    Iter(u8),
    StartChar(u8, u8),
}

impl Act {
    fn defines(self) -> bool {
        !matches!(self, Act::Compile(_) | Act::Empty(_) | Act::GetString(_) | Act::Iter(_) | Act::StartChar(..))
    }
    fn args(self) -> [Option<u8>; 2] {
        match self {
            Act::Leaf(_) => [None, None],
            Act::Comp(x) | Act::Star(x) | Act::Opt(x) | Act::Loop(x, _, _) | Act::Deriv(x, _) => [Some(x), None],
            Act::Compile(x) | Act::Empty(x) | Act::GetString(x) | Act::Iter(x) | Act::StartChar(x, _) => [Some(x), None],
            Act::Concat(x, y) | Act::Union(x, y) | Act::Inter(x, y) | Act::Diff(x, y) => [Some(x), Some(y)],
        }
    }
}

const A: u32 = 0x61;
/// characters used for derivatives, and in extracted languages
const CHARS: [u32; 4] = [0x60, 0x61, 0x62, 0x2FFFF];

fn leaf(m: &mut ReManager, i: u8) -> RegLan {
    match i {
        0 => m.char(A),
        1 => m.range(A, A + 1),
        2 => m.char(A + 1),
        3 => m.str(&smt(&[A, A + 1])),
        4 => m.epsilon(),
        5 => m.all_chars(),
        6 => m.full(),
        7 => m.empty(),
        _ => m.smt_range(&smt(&[A]), &smt(&[A + 25])),
    }
}

fn apply(m: &mut ReManager, a: Act, v: &[RegLan]) -> Option<RegLan> {
    let g = |i: u8| v[i as usize];
    Some(match a {
        Act::Leaf(i) => leaf(m, i),
        Act::Comp(x) => m.complement(g(x)),
        Act::Star(x) => m.star(g(x)),
        Act::Opt(x) => m.opt(g(x)),
        Act::Loop(x, i, j) => m.smt_loop(g(x), i as u32, j as u32),
        Act::Concat(x, y) => m.concat(g(x), g(y)),
        Act::Union(x, y) => m.union(g(x), g(y)),
        Act::Inter(x, y) => m.inter(g(x), g(y)),
        Act::Diff(x, y) => m.diff(g(x), g(y)),
        Act::Deriv(x, c) => m.char_derivative(g(x), CHARS[c as usize]),
        Act::Compile(x) => {
            m.compile(g(x));
            return None;
        }
        Act::Empty(x) => {
            m.is_empty_re(g(x));
            return None;
        }
        Act::GetString(x) => {
            m.get_string(g(x));
            return None;
        }
        Act::Iter(x) => {
            m.iter_derivatives(g(x)).count();
            return None;
        }
        Act::StartChar(x, c) => {
            m.start_char(g(x), CHARS[c as usize]);
            return None;
        }
    })
}

/// Expression without history: what a variable stands for
#[derive(Clone, PartialEq, Eq, Hash)]
struct Slice(Vec<Act>);

/// the assignments a variable depends on, renumbered
fn slice(h: &[Act], var: usize) -> Slice {
    // position in h of each variable's definition
    let defs: Vec<Act> = h.iter().copied().filter(|a| a.defines()).collect();
    let mut need = vec![false; defs.len()];
    need[var] = true;
    for i in (0..=var).rev() {
        if need[i] {
            for x in defs[i].args().into_iter().flatten() {
                need[x as usize] = true;
            }
        }
    }
    let mut num = vec![0u8; defs.len()];
    let mut out = vec![];
    for i in 0..=var {
        if need[i] {
            num[i] = out.len() as u8;
            let r = |x: u8| num[x as usize];
            out.push(match defs[i] {
                Act::Comp(x) => Act::Comp(r(x)),
                Act::Star(x) => Act::Star(r(x)),
                Act::Opt(x) => Act::Opt(r(x)),
                Act::Loop(x, a, b) => Act::Loop(r(x), a, b),
                Act::Deriv(x, c) => Act::Deriv(r(x), c),
                Act::Concat(x, y) => Act::Concat(r(x), r(y)),
                Act::Union(x, y) => Act::Union(r(x), r(y)),
                Act::Inter(x, y) => Act::Inter(r(x), r(y)),
                Act::Diff(x, y) => Act::Diff(r(x), r(y)),
                a => a,
            });
        }
    }
    Slice(out)
}

struct Scratch {
    o: Oracle,
    /// language of a slice in a fresh manager, as the implementation has it
    base: FxMap<Slice, Option<Lang>>,
}

impl Scratch {
    fn new() -> Scratch {
        Scratch { o: Oracle::new(CHARS.len()), base: Default::default() }
    }
    fn baseline(&mut self, s: Slice, st: &mut Stats) -> Option<Lang> {
        if let Some(l) = self.base.get(&s) {
            return *l;
        }
        let mut m = ReManager::new();
        let mut v = vec![];
        for &a in &s.0 {
            let t = apply(&mut m, a, &v).unwrap();
            v.push(t);
        }
        let l = impl_lang(&mut m, &mut self.o, v[v.len() - 1], &CHARS, st);
        if self.base.len() > 3_000_000 {
            self.base.clear();
        }
        self.base.insert(s, l);
        l
    }
}

/// run a history in a fresh manager and judge the state it leads to
fn run_history(h: &[Act], s: &mut Scratch, st: &mut Stats) -> Check {
    let mut m = ReManager::new();
    let mut v: Vec<RegLan> = vec![];
    for &a in h {
        if let Some(t) = apply(&mut m, a, &v) {
            v.push(t);
        }
        st.transitions += 1;
    }
    let defs: Vec<Act> = h.iter().copied().filter(|a| a.defines()).collect();
    for i in 0..v.len() {
        for j in 0..=i {
            same_iff_identical(v[i], v[j])?;
        }
    }
    for i in 0..v.len() {
        // languages first: they depend on the history only
        let l = impl_lang(&mut m, &mut s.o, v[i], &CHARS, st);
        let sl = slice(h, i);
        let e = s.baseline(sl, st);
        match (l, e) {
            (Some(l), Some(e)) => {
                if l != e {
                    let w = s.o.witness(l, e, |x, y| x != y).unwrap_or_default();
                    let w: Vec<u32> = w.iter().map(|&a| CHARS[a]).collect();
                    return Err(format!("v{} = {} denotes another language than the same construction in a fresh manager (they differ on {})", i, v[i], show(&w)));
                }
            }
            (None, None) => st.undecided += 1,
            _ => st.undecided += 1,
        }
        st.traces += 1;
    }
    for i in 0..v.len() {
        // a derivative is not a constructor: its identity is not demanded
        if !matches!(defs[i], Act::Deriv(..)) {
            let t = apply(&mut m, defs[i], &v[..i]).unwrap();
            ensure!(std::ptr::eq(t, v[i]) && t == v[i], "{:?} gave {} and, applied again, {} (another object)", defs[i], v[i], t);
        }
        complement_laws(v[i], &mut |x| m.complement(x))?;
    }
    Ok(())
}

/// actions available with n variables
fn actions(n: usize, level: usize) -> Vec<Act> {
    let n = n as u8;
    let mut v = vec![];
    for x in 0..n {
        v.extend([Act::Comp(x), Act::Star(x), Act::Deriv(x, 1)]);
        if level >= 1 {
            v.extend([Act::Opt(x), Act::Loop(x, 1, 2), Act::Loop(x, 2, 3), Act::Deriv(x, 2), Act::Deriv(x, 3), Act::Empty(x), Act::Compile(x)]);
        }
        if level >= 2 {
            v.extend([Act::GetString(x), Act::Iter(x), Act::StartChar(x, 1)]);
        }
        for y in 0..n {
            v.extend([Act::Concat(x, y), Act::Union(x, y), Act::Inter(x, y)]);
            if level >= 1 {
                v.push(Act::Diff(x, y));
            }
        }
    }
    v
}

fn sequences_family(ctx: &Ctx, name: &str, leaves: &[u8], depth: usize, level: usize) {
    let h0: Vec<Act> = leaves.iter().map(|&l| Act::Leaf(l)).collect();
    // one chunk per first pair of actions
    let mut firsts: Vec<Vec<Act>> = vec![vec![]];
    for a in actions(h0.len(), level) {
        let n1 = h0.len() + a.defines() as usize;
        if depth >= 1 {
            firsts.push(vec![a]);
        }
        if depth >= 2 {
            for b in actions(n1, level) {
                firsts.push(vec![a, b]);
            }
        }
    }
    ctx.family(
        name,
        &format!("every sequence of <= {} actions on variables, from leaves {:?}: constructors on any previous variables, derivatives{}; afterwards every construction is applied again, and every language is compared with that of the same construction in a fresh manager", depth, leaves, if level >= 1 { ", emptiness tests, compilations" } else { "" }),
        firsts.len() as u64,
        Scratch::new,
        |w, s, c| {
            fn go(w: &mut Worker, s: &mut Scratch, h: &mut Vec<Act>, left: usize, n: usize, level: usize, sub: &mut u64) {
                if w.stopping() {
                    return;
                }
                *sub += 1;
                let hh = h.clone();
                w.case(*sub, || format!("{:?}", hh), |st| run_history(&hh, s, st));
                if left > 0 {
                    for a in actions(n, level) {
                        h.push(a);
                        go(w, s, h, left - 1, n + a.defines() as usize, level, sub);
                        h.pop();
                    }
                }
            }
            let f = &firsts[c as usize];
            let mut h = h0.clone();
            h.extend(f.iter().copied());
            let n = h.iter().filter(|a| a.defines()).count();
            let left = if f.len() == 2 { depth - 2 } else { 0 };
            let mut sub = 0;
            go(w, s, &mut h, left, n, level, &mut sub);
        },
    );
}

// ---------------------------------------------------------------------------------------------
// orders of creation

/// operands as expressions over leaves
fn operand_pool() -> Vec<Vec<Act>> {
    use Act::*;
    vec![
        vec![Leaf(0)],
        vec![Leaf(0), Comp(0)],
        vec![Leaf(3)],
        vec![Leaf(3), Comp(0)],
        vec![Leaf(1)],
        vec![Leaf(0), Star(0)],
        vec![Leaf(0), Leaf(3), Union(0, 1)],
        vec![Leaf(3), Comp(0), Leaf(0), Star(2), Inter(1, 3)],
        vec![Leaf(4)],
        vec![Leaf(0), Leaf(6), Concat(0, 1)],
        vec![Leaf(0), Leaf(2), Union(0, 1), Comp(2)],
        vec![Leaf(6), Leaf(2), Concat(0, 1)],
        vec![Leaf(0), Leaf(6), Concat(0, 1), Comp(2)],
        vec![Leaf(5), Leaf(5), Concat(0, 1)],
        vec![Leaf(1), Loop(0, 2, 3)],
        vec![Leaf(0), Leaf(2), Concat(0, 1), Deriv(2, 1)],
    ]
}

fn build(m: &mut ReManager, e: &[Act]) -> RegLan {
    let mut v = vec![];
    for &a in e {
        if let Some(t) = apply(m, a, &v) {
            v.push(t);
        }
    }
    v[v.len() - 1]
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lst {
    U,
    I,
    C,
    D,
    UTree,
    ITree,
}

const LSTS: [Lst; 6] = [Lst::U, Lst::I, Lst::C, Lst::D, Lst::UTree, Lst::ITree];

fn build_list(m: &mut ReManager, l: Lst, x: &[RegLan]) -> RegLan {
    match l {
        Lst::U => m.union_list(x.iter().copied()),
        Lst::I => m.inter_list(x.iter().copied()),
        Lst::C => m.concat_list(x.iter().copied()),
        Lst::D => m.diff_list(x[0], x[1..].iter().copied()),
        Lst::UTree => x[1..].iter().fold(x[0], |a, &b| m.union(a, b)),
        Lst::ITree => x[1..].iter().fold(x[0], |a, &b| m.inter(a, b)),
    }
}

fn tuples(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for t in out {
            for i in 0..n {
                if !t.contains(&i) {
                    let mut u: Vec<usize> = t.clone();
                    u.push(i);
                    nx.push(u);
                }
            }
        }
        out = nx;
    }
    out
}

fn orders_family(ctx: &Ctx, k: usize, pool: usize) {
    let e = operand_pool()[..pool].to_vec();
    let subsets: Vec<Vec<usize>> = tuples(pool, k).into_iter().filter(|t| t.windows(2).all(|w| w[0] < w[1])).collect();
    let perms = permutations(k);
    ctx.family(
        &format!("creation-orders-{}", k),
        &format!("every set of {} of {} operands, created in every order, then union, intersection, difference, concatenation lists and nested unions and intersections of them, in that order and in increasing order; after a query on the first operand, and again", k, pool),
        subsets.len() as u64,
        || Scratch::new().o,
        |w, o, c| {
            let sub = &subsets[c as usize];
            let mut expected: Vec<Option<Option<Lang>>> = vec![None; LSTS.len()];
            for (pi, p) in perms.iter().enumerate() {
                if w.stopping() {
                    return;
                }
                let order: Vec<usize> = p.iter().map(|&i| sub[i]).collect();
                w.case(
                    pi as u64,
                    || format!("operands {:?} created in the order {:?}", sub.iter().map(|&i| &e[i]).collect::<Vec<_>>(), order),
                    |st| {
                        let mut m = ReManager::new();
                        let mut t = vec![None; pool];
                        for &i in &order {
                            t[i] = Some(build(&mut m, &e[i]));
                        }
                        let inc: Vec<RegLan> = sub.iter().map(|&i| t[i].unwrap()).collect();
                        let ord: Vec<RegLan> = order.iter().map(|&i| t[i].unwrap()).collect();
                        match pi % 3 {
                            0 => (),
                            1 => {
                                m.is_empty_re(ord[0]);
                            }
                            _ => {
                                m.compile(ord[k - 1]);
                            }
                        }
                        let mut made = vec![];
                        for (li, &l) in LSTS.iter().enumerate() {
                            let x = build_list(&mut m, l, &inc);
                            made.push((l, inc.clone(), x));
                            let lx = impl_lang(&mut m, o, x, &CHARS, st);
                            match expected[li] {
                                None => {
                                    // in a fresh manager, with only the operands, in order
                                    let mut f = ReManager::new();
                                    let inc: Vec<RegLan> = sub.iter().map(|&i| build(&mut f, &e[i])).collect();
                                    let y = build_list(&mut f, l, &inc);
                                    expected[li] = Some(impl_lang(&mut f, o, y, &CHARS, st));
                                }
                                Some(_) => (),
                            }
                            match (lx, expected[li].unwrap()) {
                                (Some(a), Some(b)) => ensure!(a == b, "{:?}: the result {} denotes another language than in a fresh manager", l, x),
                                _ => st.undecided += 1,
                            }
                            if !matches!(l, Lst::C | Lst::D) {
                                // the argument order of a union or intersection does not matter for
                                // the language, and the same list gives the same term
                                let y = build_list(&mut m, l, &ord);
                                made.push((l, ord.clone(), y));
                            }
                            st.traces += 1;
                        }
                        for (l, a, x) in made {
                            let y = build_list(&mut m, l, &a);
                            ensure!(std::ptr::eq(x, y), "{:?} of the same terms gave {} and then {}", l, x, y);
                        }
                        for (i, &x) in inc.iter().enumerate() {
                            complement_laws(x, &mut |z| m.complement(z))?;
                            for &y in &inc[..i] {
                                same_iff_identical(x, y)?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// constructions of the expression families, in managers with a long history

/// a term of the world, built alone in a fresh manager
fn rebuild(wd: &World, f: &mut World, i: usize, memo: &mut FxMap<u32, RegLan>) -> RegLan {
    if let Some(&t) = memo.get(&(i as u32)) {
        return t;
    }
    let it = &wd.items[i];
    let a: Vec<RegLan> = it.args.iter().map(|&x| rebuild(wd, f, x as usize, memo)).collect();
    let t = f.build(&it.op, &a);
    memo.insert(i as u32, t);
    t
}

/// (manager, layout), constructions
type History = ((Ptr, Vec<u32>), Vec<(Op, Vec<RegLan>, RegLan)>);

thread_local! {
    /// constructions so far in the current world: (operator, argument terms, result)
    static LOG: std::cell::RefCell<History> = const { std::cell::RefCell::new(((std::ptr::null(), Vec::new()), Vec::new())) };
    static ORACLE: std::cell::RefCell<Option<Oracle>> = const { std::cell::RefCell::new(None) };
}

fn with_oracle<T>(k: usize, f: impl FnOnce(&mut Oracle) -> T) -> T {
    ORACLE.with(|o| {
        let mut g = o.borrow_mut();
        match g.as_ref() {
            Some(x) if x.k == k && x.langs.len() < 300_000 => (),
            _ => *g = Some(Oracle::new(k)),
        }
        f(g.as_mut().unwrap())
    })
}

fn mon_history(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let it = wd.items[i].clone();
    let args: Vec<RegLan> = it.args.iter().map(|&x| wd.items[x as usize].term).collect();
    // at once
    let again = wd.build(&it.op, &args);
    ensure!(std::ptr::eq(again, it.term), "applied twice to the same terms, it gives two objects: {} and {}", it.term, again);
    complement_laws(it.term, &mut |x| if wd.wrap { wr::re_comp(x) } else { wd.m.complement(x) })?;
    for &a in &args {
        same_iff_identical(a, it.term)?;
    }
    if !wd.wrap && wd.seen.insert(ptr(it.term), it.lang).is_none() {
        // language against a fresh manager
        let chars: Vec<u32> = wd.reps.iter().map(|x| x.0).collect();
        let (l, e) = with_oracle(chars.len(), |o| {
            let l = impl_lang(&mut wd.m, o, it.term, &chars, st);
            let mut f = World::new(Oracle::new(wd.o.k), &wd.lay, false);
            let t = rebuild(wd, &mut f, i, &mut Default::default());
            let e = impl_lang(&mut f.m, o, t, &chars, st);
            (l, e)
        });
        match (l, e) {
            (Some(l), Some(e)) => ensure!(l == e, "the term {} denotes another language than the same construction in a fresh manager", it.term),
            _ => st.undecided += 1,
        }
    } else if wd.wrap {
        // noise through the wrapper
        let lo = wd.lay.lo(0);
        wr::str_in_re(&smt(&[lo]), it.term);
    }
    // queries in between
    if !wd.wrap && it.lang % 5 == 0 {
        let d = wd.m.char_derivative(it.term, wd.reps[0].0);
        wd.m.is_empty_re(d);
        wd.m.get_string(it.term);
    }
    let again = wd.build(&it.op, &args);
    ensure!(std::ptr::eq(again, it.term), "applied again after queries, it gives another object");
    // all the constructions so far, again
    // (the wrappers have one manager per thread: the operators mean the same as long as the
    // layout is the same)
    let me = (ptr(if wd.wrap { wr::re_none() } else { wd.m.empty() }), wd.lay.start.clone());
    LOG.with(|l| {
        let mut g = l.borrow_mut();
        if g.0 != me {
            *g = (me, vec![]);
        }
        g.1.push((it.op.clone(), args.clone(), it.term));
        let n = g.1.len();
        if n.is_power_of_two() && n >= 16 {
            for (op, a, t) in g.1.iter() {
                let again = wd.build(op, a);
                ensure!(std::ptr::eq(again, *t), "after {} constructions, {:?} of the same arguments gives {} instead of the identical {}", n, op, again, t);
                st.traces += 1;
            }
            // all different objects compare different
            if n >= 256 {
                let mut set: std::collections::HashMap<RegLan, Ptr> = Default::default();
                for (_, _, t) in g.1.iter() {
                    let p = *set.entry(*t).or_insert(ptr(t));
                    ensure!(p == ptr(t), "two objects compare equal: {}", t);
                }
            }
        }
        Ok(())
    })
}

// ---------------------------------------------------------------------------------------------
// very long histories

fn long_family(ctx: &Ctx, terms: u64) {
    let kinds = ["words", "ranges", "loops", "unions", "inters-of-comps", "derivatives"];
    ctx.family(
        "long-histories",
        &format!("6 kinds of filler; after every power of two up to {} filler constructions, all constructions of 16 operands and their lists are applied again, with languages; all fillers at the end", terms),
        kinds.len() as u64,
        || Scratch::new().o,
        |w, o, c| {
            let kind = kinds[c as usize];
            let e = operand_pool();
            let mut m = ReManager::new();
            let mut f = ReManager::new();
            let mut first: Vec<RegLan> = vec![];
            let mut langs: Vec<Option<Lang>> = vec![];
            let mut lists: Vec<(Lst, Vec<usize>, RegLan, Option<Lang>)> = vec![];
            let mut dummy = Stats::default();
            w.case(0, || "operands".to_string(), |_| {
                for x in &e {
                    first.push(build(&mut m, x));
                    let t = build(&mut f, x);
                    langs.push(impl_lang(&mut f, o, t, &CHARS, &mut dummy));
                }
                for i in 0..e.len() {
                    for l in LSTS {
                        let idx = vec![i, (i + 3) % e.len(), (i * 5 + 1) % e.len()];
                        let fresh: Vec<RegLan> = idx.iter().map(|&j| build(&mut f, &e[j])).collect();
                        let t = build_list(&mut f, l, &fresh);
                        let la = impl_lang(&mut f, o, t, &CHARS, &mut dummy);
                        // half of the lists are first built after the fillers
                        let a: Vec<RegLan> = idx.iter().map(|&j| first[j]).collect();
                        let t = if i % 2 == 0 { build_list(&mut m, l, &a) } else { std::hint::black_box(first[0]) };
                        lists.push((l, idx, t, la));
                    }
                }
                Ok(())
            });
            let mut late = false;
            let mut fill: Vec<RegLan> = vec![];
            let a = first[0];
            let mk = |m: &mut ReManager, fill: &[RegLan], i: u64| -> RegLan {
                match kind {
                    "words" => {
                        let s: Vec<u32> = seq_decode(3, i).iter().map(|&x| 0x61 + x as u32).collect();
                        m.str(&smt(&s))
                    }
                    "ranges" => {
                        let x = (i % 390) as u32 * 500;
                        m.range(x, (x + 1 + (i / 390) as u32).min(MAX))
                    }
                    "loops" => {
                        let r = LoopRange::finite((i % 300) as u32 + 1, 300 + (i / 300) as u32);
                        m.mk_loop(a, r)
                    }
                    "unions" => {
                        let x = m.char(0x1000 + (i % 300) as u32);
                        let y = m.str(&smt(&[0x2000 + (i / 300) as u32, 0x61]));
                        m.union(x, y)
                    }
                    "inters-of-comps" => {
                        let x = m.char(0x1000 + (i % 300) as u32);
                        let y = m.str(&smt(&[0x2000 + (i / 300) as u32, 0x61]));
                        let (x, y) = (m.complement(x), m.complement(y));
                        m.inter(x, y)
                    }
                    _ => {
                        // a word, its complement, and derivatives of the previous filler
                        let s: Vec<u32> = seq_decode(2, i).iter().map(|&x| 0x61 + x as u32).collect();
                        let t = m.str(&smt(&s));
                        if let Some(&p) = fill.last() {
                            let d = m.char_derivative(p, 0x61);
                            let d = m.char_derivative(d, 0x62);
                            m.is_empty_re(d);
                        }
                        m.complement(t)
                    }
                }
            };
            for i in 0..terms {
                let t = mk(&mut m, &fill, i);
                fill.push(t);
                if i % 4096 == 0 {
                    w.tick();
                    if w.stopping() {
                        return;
                    }
                }
                if (i + 1).is_power_of_two() || i + 1 == terms {
                    w.case(i + 1, || format!("{} fillers of kind {}", i + 1, kind), |st| {
                        for (j, x) in e.iter().enumerate() {
                            let t = build(&mut m, x);
                            // the last operand of the pool is a derivative, not a construction
                            ensure!(std::ptr::eq(t, first[j]) || j == 15, "operand {:?}: another object: {}", x, t);
                            let l = impl_lang(&mut m, o, t, &CHARS, st);
                            ensure!(l == langs[j] || l.is_none() || langs[j].is_none(), "operand {:?}: another language: {}", x, t);
                            complement_laws(t, &mut |x| m.complement(x))?;
                            st.traces += 1;
                        }
                        for (l, idx, x, la) in lists.iter_mut() {
                            let a: Vec<RegLan> = idx.iter().map(|&j| first[j]).collect();
                            let t = build_list(&mut m, *l, &a);
                            if idx[0] % 2 == 0 || late {
                                ensure!(std::ptr::eq(t, *x), "{:?} of operands {:?}: another object: {} instead of {}", l, idx, t, x);
                            } else if i >= 4095 {
                                *x = t;
                            }
                            let lt = impl_lang(&mut m, o, t, &CHARS, st);
                            ensure!(lt == *la || lt.is_none() || la.is_none(), "{:?} of operands {:?}: another language than in a fresh manager: {}", l, idx, t);
                            st.traces += 1;
                        }
                        Ok(())
                    });
                    if i >= 4095 {
                        late = true;
                    }
                }
            }
            // all fillers are still the same objects, and all different
            w.tick();
            w.case(terms + 1, || format!("all {} fillers of kind {} again", terms, kind), |st| {
                let mut seen: FxSet<Ptr> = Default::default();
                let mut byeq: std::collections::HashMap<RegLan, Ptr> = Default::default();
                for i in 0..terms {
                    let t = mk(&mut m, &[], i);
                    ensure!(std::ptr::eq(t, fill[i as usize]), "filler {}: another object: {}", i, t);
                    seen.insert(ptr(t));
                    let p = *byeq.entry(t).or_insert(ptr(t));
                    ensure!(p == ptr(t), "two objects compare equal: {}", t);
                    let c = m.complement(t);
                    ensure!(c != t && std::ptr::eq(m.complement(c), t), "complement of filler {}", i);
                    let p = *byeq.entry(c).or_insert(ptr(c));
                    ensure!(p == ptr(c), "two objects compare equal: {}", c);
                    st.transitions += 2;
                }
                ensure!(seen.len() == byeq.len() || byeq.len() <= 2 * seen.len(), "internal");
                Ok(())
            });
        },
    );
}

// ---------------------------------------------------------------------------------------------
// terms whose ids agree in their low or high bits

/// Early and late terms (identifiers that differ by powers of two) combined with each other in
/// every way; each result is compared with the same construction in a fresh manager, and
/// constructions that denote different languages must be different terms.
fn alias_family(ctx: &Ctx, terms: u32) {
    let offs: Vec<u32> = [0u32, 1, 1 << 3, 1 << 7, 1 << 8, 1 << 11, 1 << 15, 1 << 16, (1 << 16) - 1, 1 << 17].into_iter().filter(|&o| o + 4 < terms).collect();
    let nb = 6u32;
    let first = 0x200u32;
    let idx: Vec<u32> = {
        let mut v: Vec<u32> = offs.iter().flat_map(|&o| (0..nb).map(move |b| o + b)).collect();
        v.sort_unstable();
        v.dedup();
        v
    };
    let bins = ["concat", "union", "inter", "diff"];
    // chunk: direction of the pairs x sign of the first operand x operation
    ctx.family(
        "id-aliases",
        &format!("{} characters are created, then all pairs and triples of {} of them and of their complements, with identifiers that differ by powers of two up to 2^{}, combined by every operator, in both directions; loops of all of them with ranges that agree modulo 2^8 and 2^16", terms, idx.len(), if terms > 1 << 17 { 18 } else { 17 }),
        4,
        || Oracle::new(3),
        |w, o, c| {
            let mut m = ReManager::new();
            let mut base: Vec<RegLan> = vec![];
            for i in 0..terms {
                base.push(m.char(first + i));
                if i % 8192 == 0 {
                    w.tick();
                }
            }
            // (index of the character, complement?)
            let mut pool: Vec<(u32, bool)> = idx.iter().flat_map(|&i| [(i, false), (i, true)]).collect();
            if c % 2 == 1 {
                pool.reverse();
            }
            let third = first + terms + 5;
            let chars = |x: u32, y: u32| -> [u32; 3] { [first + x, if x == y { third + 1 } else { first + y }, third] };
            let term = |m: &mut ReManager, b: &[RegLan], p: (u32, bool)| if p.1 { m.complement(b[p.0 as usize]) } else { b[p.0 as usize] };
            let app = |m: &mut ReManager, op: usize, x: RegLan, y: RegLan| match op {
                0 => m.concat(x, y),
                1 => m.union(x, y),
                2 => m.inter(x, y),
                _ => m.diff(x, y),
            };
            let mut expected: FxMap<(u8, bool, bool, bool), Option<Lang>> = Default::default();
            let mut dummy = Stats::default();
            let ops: &[usize] = if c < 2 { &[0, 1, 2, 3] } else { &[3, 2, 1, 0] };
            let mut sub = 0;
            for &op in ops {
                for &x in &pool {
                    sub += 1;
                    if w.stopping() {
                        return;
                    }
                    w.case(sub, || format!("{} of characters created as number {}{} and every other one of the pool", bins[op], x.0, if x.1 { ", complemented" } else { "" }), |st| {
                        for &y in &pool {
                            let (tx, ty) = (term(&mut m, &base, x), term(&mut m, &base, y));
                            let t = app(&mut m, op, tx, ty);
                            let cs = chars(x.0, y.0);
                            let l = impl_lang(&mut m, o, t, &cs, st);
                            let e = *expected.entry((op as u8, x.1, y.1, x.0 == y.0)).or_insert_with(|| {
                                let mut f = ReManager::new();
                                let a = f.char(cs[0]);
                                let b = if x.0 == y.0 { a } else { f.char(cs[1]) };
                                let a = if x.1 { f.complement(a) } else { a };
                                let b = if y.1 { f.complement(b) } else { b };
                                let t = app(&mut f, op, a, b);
                                impl_lang(&mut f, o, t, &cs, &mut dummy)
                            });
                            ensure!(l == e, "{} of {} and {} is {}: another language than in a fresh manager", bins[op], tx, ty, t);
                            let again = app(&mut m, op, tx, ty);
                            ensure!(std::ptr::eq(t, again), "{} of {} and {} gives two terms", bins[op], tx, ty);
                            st.traces += 1;
                        }
                        Ok(())
                    });
                }
            }
            // triples
            let small: Vec<(u32, bool)> = pool.iter().copied().step_by(7).collect();
            let mut exp3: FxMap<(u8, u8, u8), Option<Lang>> = Default::default();
            let mut o4 = Oracle::new(4);
            for (li, l) in [Lst::U, Lst::I, Lst::C, Lst::D].into_iter().enumerate() {
                for &x in &small {
                    sub += 1;
                    if w.stopping() {
                        return;
                    }
                    w.case(sub, || format!("list {:?} of three of the pool, first: {:?}", l, x), |st| {
                        for &y in &small {
                            for &z in &small {
                                let eqs = (x.0 == y.0) as u8 | ((y.0 == z.0) as u8) << 1 | ((x.0 == z.0) as u8) << 2;
                                let sg = x.1 as u8 | (y.1 as u8) << 1 | (z.1 as u8) << 2;
                                let v: Vec<RegLan> = [x, y, z].iter().map(|&p| term(&mut m, &base, p)).collect();
                                let t = build_list(&mut m, l, &v);
                                let cy = if y.0 == x.0 { third + 1 } else { first + y.0 };
                                let cz = if z.0 == x.0 || z.0 == y.0 { third + 2 } else { first + z.0 };
                                let cs = [first + x.0, cy, cz, third];
                                let la = impl_lang(&mut m, &mut o4, t, &cs, st);
                                let e = *exp3.entry((li as u8, eqs, sg)).or_insert_with(|| {
                                    let mut f = ReManager::new();
                                    let mut v = vec![];
                                    for p in [x, y, z] {
                                        let a = f.char(first + p.0);
                                        v.push(if p.1 { f.complement(a) } else { a });
                                    }
                                    let t = build_list(&mut f, l, &v);
                                    impl_lang(&mut f, &mut o4, t, &cs, &mut dummy)
                                });
                                ensure!(la == e, "list {:?} of {:?} {:?} {:?} is {}: another language than in a fresh manager", l, x, y, z, t);
                                st.traces += 1;
                            }
                        }
                        Ok(())
                    });
                }
            }
            // loops: different characters or different ranges denote different languages
            let mut from: FxMap<Ptr, (u32, u32, u32)> = Default::default();
            let mut los: Vec<u32> = vec![];
            for b in [2u32, 3, 258, 514, 65538, 65539, 131074, 1 << 24, (1 << 24) + 2, u32::MAX - 2] {
                los.push(b);
            }
            for &x in pool.iter().filter(|p| !p.1) {
                sub += 1;
                if w.stopping() {
                    return;
                }
                w.case(sub, || format!("loops of character number {}", x.0), |st| {
                    let t = base[x.0 as usize];
                    for &lo in &los {
                        for d in [0u32, 1, 256, 65536, 1 << 24, u32::MAX] {
                            let r = match d {
                                u32::MAX => LoopRange::infinite(lo),
                                _ => match lo.checked_add(d) {
                                    Some(hi) => LoopRange::finite(lo, hi),
                                    None => continue,
                                },
                            };
                            let l = m.mk_loop(t, r);
                            let key = (x.0, lo, d);
                            let old = *from.entry(ptr(l)).or_insert(key);
                            ensure!(old == key, "{} is the loop of character number {} from {} (width {:#x}) and of number {} from {} (width {:#x})", l, old.0, old.1, old.2, key.0, key.1, key.2);
                            ensure!(!l.nullable, "{} contains the empty string", l);
                            let cs = first + x.0;
                            let dv = m.char_derivative(l, cs);
                            let sub1 = if d == u32::MAX { LoopRange::infinite(lo - 1) } else { LoopRange::finite(lo - 1, lo - 1 + d) };
                            let e = m.mk_loop(t, sub1);
                            // the derivative contains the same short strings as the shorter loop
                            if lo <= 3 {
                                for n in 0..6usize {
                                    let s = smt(&vec![cs; n]);
                                    ensure!(m.str_in_re(&s, dv) == m.str_in_re(&s, e), "derivative of {}", l);
                                }
                            }
                            ensure!(std::ptr::eq(l, m.mk_loop(t, r)), "{} twice gives two terms", l);
                            st.transitions += 2;
                        }
                    }
                    Ok(())
                });
            }
        },
    );
}

// ---------------------------------------------------------------------------------------------
// the thread-local manager behind the wrappers

fn wleaf(i: u8) -> RegLan {
    match i {
        0 => wr::str_to_re(&smt(&[A])),
        1 => wr::re_range(&smt(&[A]), &smt(&[A + 1])),
        2 => wr::str_to_re(&smt(&[A + 1])),
        3 => wr::str_to_re(&smt(&[A, A + 1])),
        4 => wr::str_to_re(&smt(&[])),
        5 => wr::re_allchar(),
        6 => wr::re_all(),
        7 => wr::re_none(),
        _ => wr::re_range(&smt(&[A]), &smt(&[A + 25])),
    }
}

fn wapply(a: Act, v: &[RegLan]) -> Option<RegLan> {
    let g = |i: u8| v[i as usize];
    Some(match a {
        Act::Leaf(i) => wleaf(i),
        Act::Comp(x) => wr::re_comp(g(x)),
        Act::Star(x) => wr::re_star(g(x)),
        Act::Opt(x) => wr::re_opt(g(x)),
        Act::Loop(x, i, j) => wr::re_loop(g(x), i as u32, j as u32),
        Act::Concat(x, y) => wr::re_concat(g(x), g(y)),
        Act::Union(x, y) => wr::re_union(g(x), g(y)),
        Act::Inter(x, y) => wr::re_inter(g(x), g(y)),
        Act::Diff(x, y) => wr::re_diff(g(x), g(y)),
        Act::Empty(x) => {
            wr::str_in_re(&smt(&[A, A + 1]), g(x));
            return None;
        }
        _ => {
            wr::str_replace_re_all(&smt(&[A, A + 1, A]), g(v.len() as u8 - 1), &smt(&[A]));
            return None;
        }
    })
}

fn wactions(n: usize) -> Vec<Act> {
    let n = n as u8;
    let mut v = vec![];
    for x in 0..n {
        v.extend([Act::Comp(x), Act::Star(x), Act::Opt(x), Act::Loop(x, 1, 2), Act::Empty(x)]);
        for y in 0..n {
            v.extend([Act::Concat(x, y), Act::Union(x, y), Act::Inter(x, y), Act::Diff(x, y)]);
        }
    }
    v
}

/// membership of all strings of length <= 3 over CHARS
fn fingerprint(t: RegLan, words: &[aws_smt_strings::smt_strings::SmtString]) -> Vec<bool> {
    words.iter().map(|w| wr::str_in_re(w, t)).collect()
}

fn on_thread<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|sc| match std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, f).expect("thread").join() {
        Ok(x) => x,
        Err(e) => std::panic::resume_unwind(e),
    })
}

fn wrapper_family(ctx: &Ctx, depth: usize) {
    let firsts: Vec<Act> = wactions(2);
    let words: Rc<Vec<Vec<u32>>> = Rc::new((0..seq_count(4, 3)).map(|i| seq_decode(4, i).iter().map(|&x| CHARS[x]).collect()).collect());
    let words: Vec<Vec<u32>> = words.to_vec();
    ctx.family(
        "wrapper-histories",
        &format!("every sequence of <= {} applications of wrapper functions, all in one thread-local manager with a growing history; each history is repeated on a fresh thread for its last variable alone; membership of all strings of length <= 3 over 4 characters", depth),
        firsts.len() as u64,
        || (),
        |w, _, c| {
            // all histories of the chunk in one manager, on a thread of its own
            let wref = &mut *w;
            on_thread(|| {
                let mut words: Vec<_> = words.iter().map(|x| smt(x)).collect();
                words.truncate(85);
                let mut base: FxMap<Slice, Vec<bool>> = Default::default();
                let mut stack: Vec<Vec<Act>> = vec![vec![Act::Leaf(0), Act::Leaf(3), firsts[c as usize]]];
                let mut sub = 0;
                while let Some(h) = stack.pop() {
                    if wref.stopping() {
                        return;
                    }
                    sub += 1;
                    let n = h.iter().filter(|a| a.defines()).count();
                    wref.case(sub, || format!("{:?}", h), |st| {
                        let mut v: Vec<RegLan> = vec![];
                        for &a in &h {
                            if let Some(t) = wapply(a, &v) {
                                v.push(t);
                            }
                        }
                        let defs: Vec<Act> = h.iter().copied().filter(|a| a.defines()).collect();
                        for i in 0..n {
                            let t = wapply(defs[i], &v[..i]).unwrap();
                            ensure!(std::ptr::eq(t, v[i]), "{:?} gave {} and then {}", defs[i], v[i], t);
                            complement_laws(v[i], &mut |x| wr::re_comp(x))?;
                            for &y in &v[..i] {
                                same_iff_identical(v[i], y)?;
                            }
                        }
                        let g = fingerprint(v[n - 1], &words);
                        let sl = slice(&h, n - 1);
                        let e = base.entry(sl.clone()).or_insert_with(|| {
                            let ws: Vec<Vec<u32>> = words.iter().map(content).collect();
                            on_thread(move || {
                                let mut v: Vec<RegLan> = vec![];
                                for &a in &sl.0 {
                                    let t = wapply(a, &v).unwrap();
                                    v.push(t);
                                }
                                let words: Vec<_> = ws.iter().map(|x| smt(x)).collect();
                                fingerprint(v[v.len() - 1], &words)
                            })
                        });
                        if let Some(i) = (0..g.len()).find(|&i| g[i] != e[i]) {
                            return Err(format!("membership of {} in {} is {}, but {} on a fresh thread", words[i], v[n - 1], g[i], e[i]));
                        }
                        st.states += n as u64;
                        st.transitions += words.len() as u64;
                        st.traces += 1;
                        Ok(())
                    });
                    if h.len() < 2 + depth {
                        for a in wactions(n) {
                            let mut x = h.clone();
                            x.push(a);
                            stack.push(x);
                        }
                    }
                }
            });
        },
    );
}

/// the same partition of characters through different constructors
fn charset_family(ctx: &Ctx) {
    let lay = lay_six();
    let k = lay.n();
    ctx.indexed("ranges-twice", "char, range, char_set, smt_range on all ranges of 6 cells in both orders of creation", (k * k) as u64, 1, |w, i| {
        let (a, b) = (i as usize / k, i as usize % k);
        w.case(i, || format!("cells {} {}", a, b), |st| {
            let mut m = ReManager::new();
            let mut all: Vec<RegLan> = vec![];
            for round in 0..3 {
                let mut now = vec![];
                for (x, y) in [(a, b), (b, a), (a, a), (b, b)] {
                    let (lo, hi) = (lay.lo(x), lay.hi(y));
                    if lo <= hi {
                        now.push(m.range(lo, hi));
                        now.push(m.char_set(CharSet::range(lo, hi)));
                    }
                    now.push(m.smt_range(&smt(&[lo]), &smt(&[hi])));
                    now.push(m.char(lo));
                    now.push(m.char_set(CharSet::singleton(lo)));
                }
                if round == 0 {
                    all = now;
                } else {
                    for j in 0..all.len() {
                        ensure!(std::ptr::eq(all[j], now[j]), "the same range constructor gives {} and {}", all[j], now[j]);
                        st.transitions += 1;
                    }
                }
                for x in &all {
                    m.compile(x);
                    for y in &all {
                        same_iff_identical(x, y)?;
                    }
                }
            }
            st.traces += 1;
            Ok(())
        });
    });
}

pub fn c07(ctx: &Ctx) {
    let tier = ctx.tier;
    charset_family(ctx);
    sequences_family(ctx, "sequences-ab", &[0, 2], tier.pick(3, 3), 2);
    sequences_family(ctx, "sequences-long", &[0, 1], tier.pick(3, 4), 0);
    sequences_family(ctx, "sequences-three", &[0, 3, 6], tier.pick(2, 3), 1);
    orders_family(ctx, 3, 16);
    orders_family(ctx, 4, tier.pick(12, 16));
    if tier.thorough() {
        orders_family(ctx, 5, 14);
    }
    wrapper_family(ctx, tier.pick(3, 4));
    long_family(ctx, tier.pick(1 << 17, 1 << 20));
    alias_family(ctx, tier.pick(70_000, 180_000));
    let mut z = size(tier);
    z.big = 0;
    z.wide = 0;
    all(ctx, &z, &mon_history, false);
    z.d3 = 0;
    z.d3w = 0;
    z.d3f = 0;
    z.edge = false;
    z.mid = false;
    z.seqs = 2;
    all(ctx, &z, &mon_history, true);
}
