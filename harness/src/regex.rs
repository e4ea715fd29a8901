//! C01, C02, C03, C05, C16, C18, C19: regular expressions against the language oracle.

use crate::dfa::*;
use crate::ensure;
use crate::fams::*;
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use aws_smt_strings::automata::Automaton;
use aws_smt_strings::character_sets::*;
use aws_smt_strings::errors::Error;
use aws_smt_strings::regular_expressions::*;
use Op::*;

// ---------------------------------------------------------------------------------------------
// C01

/// strings over the first characters of all cells, up to length n
fn short_words(k: usize, n: u32) -> Vec<Vec<usize>> {
    (0..seq_count(k as u64, n)).map(|i| seq_decode(k as u64, i)).collect()
}

fn check_member(wd: &mut World, t: RegLan, l: Lang, s: &[u32], st: &mut Stats) -> Check {
    let cells = wd.cells(s);
    let exp = wd.o.accepts(l, &cells);
    let got = wd.in_re(s, t);
    st.traces += 1;
    ensure!(got == exp, "str_in_re({}) = {}, but membership in the SMT-LIB denotation is {}", show(s), got, exp);
    Ok(())
}

pub fn mon_c01(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let (t, l) = (wd.items[i].term, wd.items[i].lang);
    ensure!(t.nullable == wd.o.nullable(l), "nullable flag is {}, but membership of \"\" is {}", t.nullable, wd.o.nullable(l));
    match wd.seen.get(&ptr(t)) {
        Some(&x) if x == l => return Ok(()),
        Some(&x) => {
            // the same term for two languages: str_in_re must be wrong for one of them
            let w = wd.o.witness(x, l, |a, b| a != b).expect("different languages");
            let s = wd.word(&w);
            check_member(wd, t, l, &s, st)?;
            return Err(format!("the same term was returned for an expression of a different language (they differ on {})", show(&s)));
        }
        None => (),
    }
    wd.seen.insert(ptr(t), l);
    if wd.wrap {
        st.states += 1;
        for w in short_words(wd.o.k, 3) {
            let s = wd.word(&w);
            st.transitions += 1;
            check_member(wd, t, l, &s, st)?;
        }
    } else {
        match wd.lockstep(t, l, st) {
            Ok(()) => (),
            Err(Conflict::TooBig) => st.undecided += 1,
            Err(Conflict::Differs) => match wd.find_mismatch(t, l) {
                Some(s) => {
                    check_member(wd, t, l, &s, st)?;
                    st.undecided += 1;
                }
                None => st.undecided += 1,
            },
        }
    }
    if wd.o.index(l) <= 40 {
        for (s, exp) in wd.cover(l) {
            let got = wd.in_re(&s, t);
            st.traces += 1;
            ensure!(got == exp, "str_in_re({}) = {}, but membership in the SMT-LIB denotation is {}", show(&s), got, exp);
        }
    }
    Ok(())
}

/// the oracle itself against a direct reading of the SMT-LIB definitions on all short strings
fn denotes(wd: &World, i: usize, s: &[usize]) -> bool {
    let it = &wd.items[i];
    let a = |j: usize| it.args[j] as usize;
    let concat = |x: usize, y: usize| (0..=s.len()).any(|m| denotes(wd, x, &s[..m]) && denotes(wd, y, &s[m..]));
    fn power(wd: &World, x: usize, n: u32, s: &[usize]) -> bool {
        if n == 0 {
            return s.is_empty();
        }
        (0..=s.len()).any(|m| denotes(wd, x, &s[..m]) && power(wd, x, n - 1, &s[m..]))
    }
    fn star(wd: &World, x: usize, s: &[usize]) -> bool {
        s.is_empty() || (1..=s.len()).any(|m| denotes(wd, x, &s[..m]) && star(wd, x, &s[m..]))
    }
    let lp = |x: usize, i: u32, j: Option<u32>| match j {
        Some(j) => (i..=j).any(|n| power(wd, x, n, s)),
        None => (0..=s.len()).any(|m| power(wd, x, i, &s[..m]) && star(wd, x, &s[m..])),
    };
    match &it.op {
        Empty | SmtRngLen(..) => false,
        Eps => s.is_empty(),
        Full => true,
        SigmaPlus => !s.is_empty(),
        AllChar => s.len() == 1,
        Rng(i, j) | SmtRng(i, j) => s.len() == 1 && *i as usize <= s[0] && s[0] <= *j as usize,
        Str(w) => w.iter().map(|&x| x as usize).collect::<Vec<_>>() == s,
        Comp => !denotes(wd, a(0), s),
        Star => star(wd, a(0), s),
        Plus => lp(a(0), 1, None),
        Opt => s.is_empty() || denotes(wd, a(0), s),
        Exp(k) => power(wd, a(0), *k, s),
        Loop(i, j) => lp(a(0), *i, Some(*j)),
        MkLoop(i, j) => lp(a(0), *i, *j),
        Concat => concat(a(0), a(1)),
        Union => denotes(wd, a(0), s) || denotes(wd, a(1), s),
        Inter => denotes(wd, a(0), s) && denotes(wd, a(1), s),
        Diff => denotes(wd, a(0), s) && !denotes(wd, a(1), s),
        UnionL => it.args.iter().any(|&x| denotes(wd, x as usize, s)),
        InterL => it.args.iter().all(|&x| denotes(wd, x as usize, s)),
        DiffL => denotes(wd, a(0), s) && !it.args[1..].iter().any(|&x| denotes(wd, x as usize, s)),
        ConcatL => {
            fn go(wd: &World, l: &[u32], s: &[usize]) -> bool {
                match l.split_first() {
                    None => s.is_empty(),
                    Some((x, r)) => (0..=s.len()).any(|m| denotes(wd, *x as usize, &s[..m]) && go(wd, r, &s[m..])),
                }
            }
            go(wd, &it.args, s)
        }
    }
}

/// On the bound languages are compared with the definition directly
fn mon_selfcheck(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    st.states += 1;
    for w in short_words(wd.o.k, 3) {
        st.transitions += 1;
        let exp = denotes(wd, i, &w);
        assert!(wd.o.accepts(wd.items[i].lang, &w) == exp, "the oracle is wrong on {:?}", w);
        let s = wd.word(&w);
        check_member(wd, wd.items[i].term, wd.items[i].lang, &s, st)?;
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    let t = ctx.tier;
    let z = size(t);
    all(ctx, &z, &mon_c01, false);
    // the oracle against the definitions, and str_in_re, on all strings of length <= 3
    let sp = Spec { leaves: vec![Empty, Eps, Rng(1, 1), Rng(1, 2), Str(vec![1, 2]), Full], unary: vec![Comp, Star, Plus, Opt, Loop(1, 2), Loop(2, 1), Exp(2), MkLoop(2, None)], binary: vec![Concat, Union, Inter, Diff] };
    let sp2 = Spec { leaves: sp.leaves[..t.pick(5, 6)].to_vec(), ..sp };
    depth2(ctx, "definition", "every operator on all terms of depth <= 1, all strings of length <= 3 over the cells: oracle = recursive definition = str_in_re", &lay_ab(), &sp2, false, Deep::No, &mon_selfcheck);
    // the wrappers, on the thread-local manager
    let zw = Size {
        ab: false,
        edge: true,
        mid: t.thorough(),
        d3: 0,
        d3w: 0,
        d3f: 0,
        nest_bodies: t.pick(2, 6),
        loopcat_bodies: t.pick(2, 6),
        bool6: true,
        lists: 3,
        seqs: t.pick(2, 3),
        lseqs: t.pick(0, 2),
        printed: 0,
        words: t.pick(2, 3),
        big: 1,
        wide: t.pick(0, 1), chars: Some(t), late: Some(t) };
    all(ctx, &zw, &mon_c01, true);
    if t.thorough() {
        depth2(ctx, "w-depth2-ab", "every operator on all terms of depth <= 1, wrappers", &lay_ab(), &spec_ab(), true, Deep::No, &mon_c01);
    } else {
        depth2(ctx, "w-depth2-small", "every operator on all terms of depth <= 1 over 5 leaves, wrappers", &lay_ab(), &spec_small(5), true, Deep::No, &mon_c01);
    }
    crate::huge::expressions(ctx);
    crate::huge::loop_bounds(ctx);
}

// ---------------------------------------------------------------------------------------------
// C02

/// Complete product of the automaton with the minimal DFA of the language
pub fn check_automaton(wd: &mut World, a: &Automaton, l: Lang, st: &mut Stats) -> Check {
    let n = a.num_states();
    let mut lang: Vec<Option<Lang>> = vec![None; n];
    let mut path: Vec<Vec<u32>> = vec![vec![]; n];
    let s0 = a.initial_state().id();
    ensure!(s0 < n, "initial state {} out of {} states", s0, n);
    lang[s0] = Some(l);
    let mut q = vec![s0];
    let mut h = 0;
    while h < q.len() {
        let s = q[h];
        h += 1;
        st.states += 1;
        let cur = lang[s].unwrap();
        let state = a.state(s);
        ensure!(state.id() == s, "state({}) has id {}", s, state.id());
        if state.is_final() != wd.o.nullable(cur) {
            let w = &path[s];
            let acc = a.accepts(&smt(w));
            return Err(format!("automaton {} {} (accepts = {}), but membership is {}", if state.is_final() { "accepts" } else { "rejects" }, show(w), acc, wd.o.nullable(cur)));
        }
        for i in 0..wd.reps.len() {
            let (c, cell) = wd.reps[i];
            let d = a.next(state, c).id();
            ensure!(d < n, "next({}, {:#x}) is state {} of {}", s, c, d, n);
            let dl = wd.o.derive(cur, cell);
            st.transitions += 1;
            match lang[d] {
                None => {
                    lang[d] = Some(dl);
                    let mut p = path[s].clone();
                    p.push(c);
                    path[d] = p;
                    q.push(d);
                }
                Some(x) if x == dl => (),
                Some(x) => {
                    let w = wd.o.witness(x, dl, |a, b| a != b).unwrap();
                    let mut p1 = path[d].clone();
                    let mut p2 = path[s].clone();
                    p2.push(c);
                    let z = wd.word(&w);
                    p1.extend(&z);
                    p2.extend(&z);
                    let (c1, c2) = (wd.cells(&p1), wd.cells(&p2));
                    return Err(format!(
                        "the automaton does not tell apart {} (accepts: {}, member: {}) and {} (accepts: {}, member: {})",
                        show(&p1), a.accepts(&smt(&p1)), wd.o.accepts(l, &c1), show(&p2), a.accepts(&smt(&p2)), wd.o.accepts(l, &c2)
                    ));
                }
            }
        }
    }
    // every state, reachable or not, has a successor for every character
    for s in a.states() {
        if lang[s.id()].is_none() {
            for &(c, _) in &wd.reps {
                let d = a.next(s, c).id();
                ensure!(d < n, "next({}, {:#x}) is state {} of {}", s.id(), c, d, n);
            }
        }
    }
    Ok(())
}

/// strings through the end-user entry points
fn traces_automaton(wd: &mut World, a: &Automaton, l: Lang, st: &mut Stats) -> Check {
    if wd.o.index(l) > 40 {
        return Ok(());
    }
    for (s, exp) in wd.cover(l) {
        st.traces += 1;
        let w = smt(&s);
        ensure!(a.accepts(&w) == exp, "accepts({}) = {}, but membership is {}", show(&s), !exp, exp);
        let e = a.str_next(a.initial_state(), &w);
        ensure!(e.is_final() == exp, "str_next(initial, {}) is final: {}, but membership is {}", show(&s), !exp, exp);
        // composition of str_next
        let mid = s.len() / 2;
        let m = a.str_next(a.initial_state(), &smt(&s[..mid]));
        ensure!(a.str_next(m, &smt(&s[mid..])).id() == e.id(), "str_next is not compositional on {}", show(&s));
    }
    Ok(())
}

pub fn mon_c02(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let (t, l) = (wd.items[i].term, wd.items[i].lang);
    if wd.seen.get(&ptr(t)) == Some(&l) {
        return Ok(());
    }
    wd.seen.insert(ptr(t), l);
    let a = wd.m.compile(t);
    check_automaton(wd, &a, l, st)?;
    traces_automaton(wd, &a, l, st)?;
    let n = a.num_states();
    // the bounded variant: whatever it returns must be right
    for bound in [usize::MAX, n, n - 1, 1] {
        if bound == n - 1 && n > 12 {
            continue;
        }
        if let Some(b) = wd.m.try_compile(t, bound) {
            let mut quiet = Stats::default();
            check_automaton(wd, &b, l, &mut quiet).map_err(|e| format!("try_compile({}): {}", bound, e))?;
        }
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    all(ctx, &size(ctx.tier), &mon_c02, false);
    crate::huge::expressions(ctx);
}

// ---------------------------------------------------------------------------------------------
// exploration of all derivatives of an expression

/// lockstep, then f on each term of the derivative graph that was not visited before, with its
/// language
fn on_closure(wd: &mut World, t: RegLan, l: Lang, st: &mut Stats, f: &dyn Fn(&mut World, RegLan, Lang, &mut Stats) -> Check) -> Result<Check, Conflict> {
    match wd.seen.get(&ptr(t)) {
        Some(&x) if x == l => return Ok(Ok(())),
        Some(_) => return Err(Conflict::Differs),
        None => (),
    }
    wd.lockstep(t, l, st)?;
    let mut stack = vec![(t, l)];
    wd.seen.insert(ptr(t), l);
    while let Some((t, l)) = stack.pop() {
        if let Err(e) = f(wd, t, l, st) {
            return Ok(Err(format!("for the derivative {}: {}", t, e)));
        }
        for i in 0..wd.reps.len() {
            let (c, cell) = wd.reps[i];
            let d = wd.m.char_derivative(t, c);
            let dl = wd.o.derive(l, cell);
            if !wd.seen.contains_key(&ptr(d)) {
                wd.seen.insert(ptr(d), dl);
                stack.push((d, dl));
            }
        }
    }
    Ok(Ok(()))
}

/// does the term have the language l?
fn has_lang(wd: &mut World, t: RegLan, l: Lang) -> bool {
    match wd.verified.get(&ptr(t)) {
        Some(&x) => x == l,
        None => {
            let mut q = Stats::default();
            wd.lockstep(t, l, &mut q).is_ok()
        }
    }
}

/// class of a character, read from the listed ranges
fn listed_class(ranges: &[CharSet], c: u32) -> ClassId {
    match ranges.iter().position(|r| r.contains(c)) {
        Some(i) => ClassId::Interval(i),
        None => ClassId::Complement,
    }
}

fn bounds(r: &CharSet) -> (u32, u32) {
    let lo = r.pick();
    (lo, lo + (r.size() - 1))
}

// ---------------------------------------------------------------------------------------------
// C03

fn c03_term(wd: &mut World, t: RegLan, l: Lang, st: &mut Stats) -> Check {
    let ranges: Vec<CharSet> = t.char_ranges().copied().collect();
    let ids: Vec<ClassId> = t.class_ids().collect();
    let n = ranges.len();
    // points where something can change: cells, and boundaries of the classes
    let mut pts: Vec<u32> = wd.reps.iter().map(|x| x.0).collect();
    for r in &ranges {
        let (a, b) = bounds(r);
        pts.extend([a, b, a.saturating_sub(1), (b + 1).min(MAX)]);
    }
    pts.sort_unstable();
    pts.dedup();
    // classes: disjoint, and they cover the alphabet
    let mut covered = 0u64;
    for (i, r) in ranges.iter().enumerate() {
        let (a, b) = bounds(r);
        covered += (b - a + 1) as u64;
        ensure!(ids.contains(&ClassId::Interval(i)), "class {} is not listed by class_ids", i);
        for s in &ranges[..i] {
            let (x, y) = bounds(s);
            ensure!(b < x || y < a, "classes {} and {} overlap", r, s);
        }
    }
    let whole = covered == MAX as u64 + 1;
    ensure!(whole || ids.contains(&ClassId::Complement), "class_ids do not cover the alphabet");
    ensure!(ids.len() == n + !whole as usize, "class_ids lists {} classes; there are {} ranges, covering the alphabet: {}", ids.len(), n, whole);
    ensure!(t.num_deriv_classes() == n, "num_deriv_classes = {}, {} ranges", t.num_deriv_classes(), n);
    ensure!(t.empty_complement() == whole, "empty_complement = {}", t.empty_complement());
    // derivatives by character
    for i in 0..wd.reps.len() {
        let (c, cell) = wd.reps[i];
        let d = wd.m.char_derivative(t, c);
        let dl = wd.o.derive(l, cell);
        st.transitions += 1;
        ensure!(has_lang(wd, d, dl), "char_derivative({:#x}) = {} is not the left quotient", c, d);
    }
    // derivatives by class: the same for all characters of the class
    let cls: Vec<ClassId> = pts.iter().map(|&c| listed_class(&ranges, c)).collect();
    let mut by_class: FxMap<usize, Vec<usize>> = Default::default();
    for (i, c) in cls.iter().enumerate() {
        by_class.entry(match c { ClassId::Interval(j) => *j, ClassId::Complement => usize::MAX }).or_default().push(i);
    }
    for &cid in &ids {
        ensure!(t.valid_class_id(cid), "listed class id {} is not valid", cid);
        let d = wd.m.class_derivative(t, cid).map_err(|e| format!("class_derivative({}): {}", cid, e))?;
        let u = wd.m.class_derivative_unchecked(t, cid);
        let key = match cid { ClassId::Interval(j) => j, ClassId::Complement => usize::MAX };
        for &i in by_class.get(&key).map(|v| &v[..]).unwrap_or(&[]) {
            let c = pts[i];
            let dl = wd.o.derive(l, wd.lay.cell_of(c));
            st.transitions += 1;
            ensure!(has_lang(wd, d, dl), "class_derivative({}) = {} is not the derivative for character {:#x} of that class", cid, d, c);
            ensure!(has_lang(wd, u, dl), "class_derivative_unchecked({}) = {} is not the derivative for character {:#x} of that class", cid, u, c);
        }
    }
    // invalid class ids
    for bad in [n, n + 1, n + 5, usize::MAX] {
        let r = wd.m.class_derivative(t, ClassId::Interval(bad));
        ensure!(r == Err(Error::BadClassId), "class_derivative(Interval({})) on {} classes does not fail with BadClassId", bad, n);
    }
    if whole {
        let r = wd.m.class_derivative(t, ClassId::Complement);
        ensure!(r == Err(Error::BadClassId), "class_derivative(Complement), empty complement, does not fail with BadClassId");
    }
    // sets
    for a in 0..pts.len() {
        let cid = cls[a];
        let last = (a..pts.len()).find(|&b| cls[b] != cid).unwrap_or(pts.len()) - 1;
        for b in a..pts.len() {
            // many classes: short sets, sets that end at the class boundary, sets to the end
            if pts.len() > 80 && b > a + 2 && b != last && b != last + 1 && b + 1 != pts.len() {
                continue;
            }
            let (x, y) = (pts[a], pts[b]);
            // one class contains [x, y]? (class boundaries are among the points)
            let same = b <= last;
            let set = CharSet::range(x, y);
            let r = wd.m.set_derivative(t, &set);
            st.transitions += 1;
            match (same, r) {
                (true, Ok(d)) => {
                    for c in [x, y] {
                        let dl = wd.o.derive(l, wd.lay.cell_of(c));
                        ensure!(has_lang(wd, d, dl), "set_derivative({}) = {} is not the derivative for character {:#x}", set, d, c);
                    }
                    if a == b || b == a + 1 {
                        let u = wd.m.set_derivative_unchecked(t, &set);
                        let dl = wd.o.derive(l, wd.lay.cell_of(x));
                        ensure!(has_lang(wd, u, dl), "set_derivative_unchecked({}) = {} is not the derivative", set, u);
                    }
                }
                (true, Err(e)) => return Err(format!("set_derivative({}) fails ({}) although the set is inside class {}", set, e, cid)),
                (false, Err(_)) => (),
                (false, Ok(d)) => return Err(format!("set_derivative({}) = {} although the set meets more than one class", set, d)),
            }
        }
    }
    Ok(())
}

pub fn mon_c03(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let (t, l) = (wd.items[i].term, wd.items[i].lang);
    let known = wd.seen.get(&ptr(t)) == Some(&l);
    match on_closure(wd, t, l, st, &c03_term) {
        Ok(r) => r?,
        Err(Conflict::TooBig) => st.undecided += 1,
        Err(Conflict::Differs) => match wd.find_mismatch(t, l) {
            Some(w) => {
                return Err(format!("the derivative with respect to {} is nullable: {}, but membership of that string is {}", show(&w), wd.m.str_derivative(t, &smt(&w)).nullable, !wd.m.str_derivative(t, &smt(&w)).nullable));
            }
            None => st.undecided += 1,
        },
    }
    // str_derivative composes char_derivative
    if !known && wd.o.index(l) <= 40 {
        for (s, _) in wd.cover(l) {
            st.traces += 1;
            let d = wd.m.str_derivative(t, &smt(&s));
            let mut dl = l;
            for c in &s {
                dl = wd.o.derive(dl, wd.lay.cell_of(*c));
            }
            ensure!(has_lang(wd, d, dl), "str_derivative({}) = {} is not the left quotient", show(&s), d);
        }
    }
    Ok(())
}

pub fn c03(ctx: &Ctx) {
    all(ctx, &size(ctx.tier), &mon_c03, false);
    crate::huge::expressions(ctx);
}

// ---------------------------------------------------------------------------------------------
// C05

fn c05_term(wd: &mut World, t: RegLan, l: Lang, st: &mut Stats) -> Check {
    let exp = wd.o.is_empty(l);
    let got = wd.m.is_empty_re(t);
    st.transitions += 1;
    ensure!(got == exp, "is_empty_re = {}, but the language is {}", got, if exp { "empty" } else { "not empty" });
    match wd.m.get_string(t) {
        None => ensure!(exp, "get_string = None, but the language is not empty"),
        Some(s) => {
            let v = content(&s);
            ensure!(!exp, "get_string = {}, but the language is empty", show(&v));
            ensure!(s.is_good() && v.iter().all(|&c| c <= MAX), "get_string = {} is not a well-formed SMT string", show(&v));
            let cells = wd.cells(&v);
            ensure!(wd.o.accepts(l, &cells), "get_string = {} is not in the language", show(&v));
            ensure!(wd.m.str_in_re(&s, t), "get_string = {} is rejected by str_in_re", show(&v));
            st.traces += 1;
        }
    }
    Ok(())
}

pub fn mon_c05(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let (t, l) = (wd.items[i].term, wd.items[i].lang);
    let known = wd.seen.get(&ptr(t)) == Some(&l);
    if known {
        return Ok(());
    }
    c05_term(wd, t, l, st)?;
    if let Some(s) = wd.m.get_string(t) {
        let a = wd.m.compile(t);
        ensure!(a.accepts(&s), "get_string = {} is rejected by the compiled automaton", s);
    }
    match on_closure(wd, t, l, st, &c05_term) {
        Ok(r) => r,
        Err(_) => {
            // the derivative graph is not the one of the denotation: not this property
            st.undecided += 1;
            Ok(())
        }
    }
}

/// emptiness that is not syntactic: intersections and differences of stars and complements
fn empties(ctx: &Ctx, name: &str, n: u32, mon: Monitor) {
    program(
        ctx,
        name,
        &format!("intersections, differences and concatenations of expressions over powers and loops of a with exponents up to {}: empty or not depending on arithmetic", n),
        &lay_ab(),
        false,
        (n * n) as u64,
        |w, world, c| {
            let (x, y) = (c as u32 / n + 1, c as u32 % n + 1);
            let mut p = P { w, world, sub: 0, mon };
            let _ = (|| -> Option<()> {
                let a = p.raw(Rng(1, 1), &[])?;
                let b = p.raw(Rng(2, 2), &[])?;
                let fu = p.raw(Full, &[])?;
                let ax = p.raw(Exp(x), &[a])?;
                let ay = p.raw(Exp(y), &[a])?;
                let sx = p.mk(Star, &[ax])?;
                let sy = p.mk(Star, &[ay])?;
                let d = p.mk(Diff, &[sx, sy])?;
                let ab = p.mk(Concat, &[sx, b])?;
                let e = p.mk(Inter, &[ab, sy])?; // empty
                p.mk(Concat, &[e, sx])?;
                p.mk(Star, &[e])?;
                p.mk(Opt, &[d])?;
                let ne = p.mk(Comp, &[e])?;
                p.mk(Inter, &[ne, d])?;
                let i = p.mk(Inter, &[sx, sy])?;
                for k in 0..=x * y {
                    let m = p.mark();
                    let l1 = p.mk(Loop(1, k), &[a])?;
                    p.mk(Inter, &[i, l1])?; // not empty iff k >= lcm(x, y)
                    let pl = p.mk(MkLoop(k, None), &[a])?;
                    let r = p.mk(Diff, &[i, pl])?;
                    p.mk(Concat, &[r, e])?;
                    p.mk(DiffL, &[fu, pl, l1])?;
                    p.mk(Concat, &[b, r])?;
                    p.cut(m);
                }
                Some(())
            })();
        },
    );
}

pub fn c05(ctx: &Ctx) {
    // the witness searches of every derivative are quadratic in the number of letters
    let z = Size { wide: 1, ..size(ctx.tier) };
    all(ctx, &z, &mon_c05, false);
    empties(ctx, "semantic-emptiness", ctx.tier.pick(5, 9), &mon_c05);
    crate::huge::expressions(ctx);
}

// ---------------------------------------------------------------------------------------------
// C18

fn c18_term(wd: &mut World, t: RegLan, l: Lang, st: &mut Stats) -> Check {
    let ranges: Vec<CharSet> = t.char_ranges().copied().collect();
    let n = ranges.len();
    let mut pts: Vec<u32> = wd.reps.iter().map(|x| x.0).collect();
    for r in &ranges {
        let (a, b) = bounds(r);
        pts.extend([a, b, a.saturating_sub(1), (b + 1).min(MAX)]);
    }
    pts.sort_unstable();
    pts.dedup();
    let whole = ranges.iter().map(|r| r.size() as u64).sum::<u64>() == MAX as u64 + 1;
    for &c in &pts {
        let dl = wd.o.derive(l, wd.lay.cell_of(c));
        let exp = !wd.o.is_empty(dl);
        let got = wd.m.start_char(t, c);
        st.transitions += 1;
        ensure!(got == exp, "start_char({:#x}) = {}, but a member starting with it {}", c, got, if exp { "exists" } else { "does not exist" });
        let cid = listed_class(&ranges, c);
        let got = wd.m.start_class(t, cid);
        ensure!(got == Ok(exp), "start_class({}) = {:?}, but for character {:#x} of that class a member starting with it {}", cid, got, c, if exp { "exists" } else { "does not exist" });
    }
    for bad in [n, n + 1, n + 5, usize::MAX] {
        let r = wd.m.start_class(t, ClassId::Interval(bad));
        ensure!(r == Err(Error::BadClassId), "start_class(Interval({})) = {:?} on {} classes", bad, r, n);
    }
    if whole {
        let r = wd.m.start_class(t, ClassId::Complement);
        ensure!(r == Err(Error::BadClassId), "start_class(Complement) = {:?}, empty complement", r);
    }
    Ok(())
}

pub fn mon_c18(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let (t, l) = (wd.items[i].term, wd.items[i].lang);
    if wd.seen.get(&ptr(t)) == Some(&l) {
        return Ok(());
    }
    c18_term(wd, t, l, st)?;
    st.traces += 1;
    match on_closure(wd, t, l, st, &c18_term) {
        Ok(r) => r,
        Err(_) => {
            st.undecided += 1;
            Ok(())
        }
    }
}

pub fn c18(ctx: &Ctx) {
    all(ctx, &size(ctx.tier), &mon_c18, false);
    empties(ctx, "semantic-emptiness", ctx.tier.pick(4, 7), &mon_c18);
    crate::huge::expressions(ctx);
}

// ---------------------------------------------------------------------------------------------
// C19

const ENUM_CAP: usize = 200_000;

fn c19_term(wd: &mut World, t: RegLan, st: &mut Stats, deep: bool) -> Check {
    let mut dup = String::new();
    let mut set: FxSet<Ptr> = Default::default();
    let mut v: Vec<Ptr> = vec![];
    for d in wd.m.iter_derivatives(t).take(ENUM_CAP) {
        if !set.insert(d as Ptr) {
            dup = d.to_string();
        }
        v.push(d as Ptr);
    }
    ensure!(v.len() < ENUM_CAP, "iter_derivatives yields more than {} terms", ENUM_CAP);
    ensure!(!v.is_empty() && v[0] == ptr(t), "iter_derivatives does not yield the expression first");
    ensure!(set.len() == v.len(), "iter_derivatives yields {} twice", dup);
    // closed under char_derivative for every character, and nothing else
    let mut seen: FxSet<Ptr> = Default::default();
    let mut q = vec![t];
    seen.insert(ptr(t));
    let mut h = 0;
    while h < q.len() {
        let x = q[h];
        h += 1;
        st.states += 1;
        let mut pts: Vec<u32> = wd.reps.iter().map(|x| x.0).collect();
        for r in x.char_ranges() {
            let (a, b) = bounds(r);
            pts.extend([a, b, a.saturating_sub(1), (b + 1).min(MAX)]);
        }
        pts.sort_unstable();
        pts.dedup();
        for &c in &pts {
            let d = wd.m.char_derivative(x, c);
            st.transitions += 1;
            ensure!(set.contains(&ptr(d)), "the derivative {} of {} w.r.t. {:#x} is not yielded by iter_derivatives", d, x, c);
            if seen.insert(ptr(d)) {
                q.push(d);
            }
        }
    }
    ensure!(q.len() == v.len(), "iter_derivatives yields {} terms, there are {} iterated derivatives", v.len(), q.len());
    // compilation
    let k = v.len();
    let a = wd.m.compile(t);
    ensure!(a.num_states() == k, "compile: {} states for {} derivatives", a.num_states(), k);
    ensure!(a.states().count() == k, "compile: {} states listed for {} derivatives", a.states().count(), k);
    st.traces += 1;
    let mut bs = vec![0, 1, 2, k / 2, k - 1, k, k + 1, 2 * k + 3, u32::MAX as usize, usize::MAX];
    if deep && k <= 24 {
        bs.extend(0..=k + 2);
    }
    for b in bs {
        let r = wd.m.try_compile(t, b);
        st.transitions += 1;
        match r {
            None => ensure!(b < k, "try_compile({}) = None although there are {} derivatives", b, k),
            Some(a) => {
                ensure!(b >= k, "try_compile({}) succeeds although there are {} derivatives", b, k);
                ensure!(a.num_states() == k, "try_compile({}): {} states for {} derivatives", b, a.num_states(), k);
            }
        }
    }
    // enumeration again, with warm caches
    let v2 = wd.m.iter_derivatives(t).take(k + 1).count();
    ensure!(v2 == k, "second enumeration yields {} terms instead of {}", v2, k);
    Ok(())
}

pub fn mon_c19(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let t = wd.items[i].term;
    if wd.seen.contains_key(&ptr(t)) {
        return Ok(());
    }
    wd.seen.insert(ptr(t), 0);
    c19_term(wd, t, st, true)
}

pub fn c19(ctx: &Ctx) {
    all(ctx, &size(ctx.tier), &mon_c19, false);
    crate::huge::expressions(ctx);
}

// ---------------------------------------------------------------------------------------------
// C16

/// all ordered pairs (row r of the pool, every element)
fn c16_pairs(w: &mut Worker, wd: &mut World, pool: &[usize], rows: impl Iterator<Item = usize>) {
    for r in rows {
        if w.stopping() {
            return;
        }
        let i = pool[r];
        w.case(
            r as u64,
            || format!("row {} of the pool", r),
            |st| {
                let (ti, li) = (wd.items[i].term, wd.items[i].lang);
                for &j in pool {
                    st.states += 1;
                    let (tj, lj) = (wd.items[j].term, wd.items[j].lang);
                    if ti.included_in(tj) {
                        st.transitions += 1;
                        if !wd.o.subset(li, lj) {
                            let x = wd.o.witness(li, lj, |a, b| a && !b).unwrap();
                            let s = wd.word(&x);
                            // on the real code
                            let (a, b) = (wd.m.str_in_re(&smt(&s), ti), wd.m.str_in_re(&smt(&s), tj));
                            ensure!(
                                !a || b,
                                "included_in({}, {}) is true, but {} is in the first and not in the second (built as {} and {})",
                                ti, tj, show(&s), wd.show(i), wd.show(j)
                            );
                            st.undecided += 1;
                        }
                    }
                }
                Ok(())
            },
        );
    }
}

/// a union must keep all strings of its operands
fn mon_union(wd: &mut World, i: usize, st: &mut Stats) -> Check {
    let it = wd.items[i].clone();
    match it.op {
        Union | UnionL => (),
        _ => return Ok(()),
    }
    st.states += 1;
    if wd.verified.get(&ptr(it.term)) == Some(&it.lang) {
        return Ok(());
    }
    match wd.lockstep(it.term, it.lang, st) {
        Ok(()) => Ok(()),
        Err(Conflict::TooBig) => {
            st.undecided += 1;
            Ok(())
        }
        Err(Conflict::Differs) => {
            if let Some(s) = wd.find_mismatch(it.term, it.lang) {
                let got = wd.m.str_in_re(&smt(&s), it.term);
                for &a in it.args.iter() {
                    let t = wd.items[a as usize].term;
                    ensure!(!wd.m.str_in_re(&smt(&s), t) || got, "the union lost {}, a member of its operand {}", show(&s), t);
                }
            }
            st.undecided += 1;
            Ok(())
        }
    }
}

fn pair_family(ctx: &Ctx, name: &str, bound: &str, nchunks: u64, lay: &Layout, build: impl Fn(&mut P) -> Option<Vec<usize>> + Sync) {
    program(ctx, name, bound, lay, false, nchunks, |w, world, c| {
        let pool = {
            let mut p = P { w, world, sub: 0, mon: &no_monitor };
            match build(&mut p) {
                Some(v) => v,
                None => return,
            }
        };
        let mut wd = world.borrow_mut();
        let n = pool.len();
        c16_pairs(w, &mut wd, &pool, (0..n).filter(|r| *r as u64 % nchunks == c));
    });
}

fn keep(p: &P, v: Vec<usize>) -> Vec<usize> {
    let mut first: FxSet<Ptr> = Default::default();
    v.into_iter().filter(|&x| first.insert(ptr(p.world.borrow().items[x].term))).collect()
}

fn long_sequences(p: &mut P, n: usize, base: usize) -> Option<Vec<usize>> {
    let ab = p.raw(Rng(1, 2), &[])?;
    let s = p.raw(AllChar, &[])?;
    let fu = p.raw(Full, &[])?;
    let word: Vec<u16> = (0..n)
        .map(|i| match base {
            0 => 1 + (i % 2) as u16,
            1 => 1,
            _ => 1 + (i + 1 == n) as u16,
        })
        .collect();
    let mut at: Vec<usize> = vec![0, 1, 2, n / 2, n - 2, n - 1];
    let mut b = 16;
    while b <= n {
        at.extend([b - 1, b, b + 1].iter().filter(|&&x| x < n));
        b *= 2;
    }
    at.sort();
    at.dedup();
    let whole = p.raw(Str(word.clone()), &[])?;
    let mut out = vec![whole, s, fu, p.raw(ConcatL, &[fu, whole])?, p.raw(ConcatL, &[whole, fu])?, p.raw(ConcatL, &[fu, whole, fu])?];
    for &i in &at {
        let l = p.raw(Str(word[..i].to_vec()), &[])?;
        let r = p.raw(Str(word[i + 1..].to_vec()), &[])?;
        let x = p.raw(Rng(word[i], word[i]), &[])?;
        let other = p.raw(Rng(3 - word[i], 3 - word[i]), &[])?;
        for m in [other, ab, s, fu] {
            out.push(p.raw(ConcatL, &[l, m, r])?);
        }
        out.push(p.raw(ConcatL, &[l, r])?);
        out.push(p.raw(ConcatL, &[l, x, fu, r])?);
        out.push(p.raw(ConcatL, &[fu, l, other, r, fu])?);
        out.push(p.raw(ConcatL, &[l, fu])?);
        out.push(p.raw(ConcatL, &[fu, r])?);
        out.push(p.raw(ConcatL, &[fu, l, fu, x, r, fu])?);
        out.push(p.raw(ConcatL, &[r, fu, l])?);
    }
    Some(keep(p, out))
}

fn many_blocks(p: &mut P, max: usize) -> Option<Vec<usize>> {
    let a = p.raw(Rng(1, 1), &[])?;
    let b = p.raw(Rng(2, 2), &[])?;
    let s = p.raw(AllChar, &[])?;
    let fu = p.raw(Full, &[])?;
    let ab = p.raw(Str(vec![1, 2]), &[])?;
    let blocks = [vec![a, fu], vec![ab, fu], vec![fu, b], vec![a, b], vec![a]];
    let mut out = vec![];
    for k in (1..=6).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) {
        if k > max {
            break;
        }
        for bl in &blocks {
            for change in 0..5 {
                let mut v: Vec<usize> = vec![];
                for j in 0..k {
                    let here = match change {
                        0 => false,
                        1 => j == 0,
                        2 => j == k / 2,
                        _ => j + 1 == k,
                    };
                    match (here, change) {
                        (true, 4) => v.push(b),
                        (true, _) => v.extend([s, b]),
                        _ => v.extend(bl),
                    }
                }
                out.push(p.raw(ConcatL, &v)?);
            }
        }
    }
    Some(keep(p, out))
}

pub fn c16(ctx: &Ctx) {
    let t = ctx.tier;
    // concatenation sequences
    let l = t.pick(5, 5);
    pair_family(ctx, "sequences-6", &format!("all ordered pairs of concatenations of <= {} symbols among a, b, [ab], allchar, all, a*", l), 128, &lay_ab(), |p| {
        let a = p.raw(Rng(1, 1), &[])?;
        let syms = [a, p.raw(Rng(2, 2), &[])?, p.raw(Rng(1, 2), &[])?, p.raw(AllChar, &[])?, p.raw(Full, &[])?, p.raw(Star, &[a])?];
        sequences(p, &syms, l)
    });
    let l = t.pick(6, 7);
    pair_family(ctx, "sequences-4", &format!("all ordered pairs of concatenations of <= {} symbols among a, [ab], allchar, all", l), 128, &lay_ab(), |p| {
        let a = p.raw(Rng(1, 1), &[])?;
        let syms = [a, p.raw(Rng(1, 2), &[])?, p.raw(AllChar, &[])?, p.raw(Full, &[])?];
        sequences(p, &syms, l)
    });
    let l = t.pick(7, 9);
    pair_family(ctx, "sequences-3", &format!("all ordered pairs of concatenations of <= {} symbols among a, b, all", l), 128, &lay_ab(), |p| {
        let syms = [p.raw(Rng(1, 1), &[])?, p.raw(Rng(2, 2), &[])?, p.raw(Full, &[])?];
        sequences(p, &syms, l)
    });
    // other flexible parts: loops, unions, complements between rigid parts
    let l = t.pick(4, 4);
    pair_family(ctx, "sequences-9", &format!("all ordered pairs of concatenations of <= {} symbols among a, b, all, a*, b+, comp a, a|bb, sigma+, allchar{{1,2}}", l), 128, &lay_ab(), |p| {
        let a = p.raw(Rng(1, 1), &[])?;
        let b = p.raw(Rng(2, 2), &[])?;
        let bb = p.raw(Exp(2), &[b])?;
        let s = p.raw(AllChar, &[])?;
        let syms = [
            a,
            b,
            p.raw(Full, &[])?,
            p.raw(Star, &[a])?,
            p.raw(Plus, &[b])?,
            p.raw(Comp, &[a])?,
            p.raw(Union, &[a, bb])?,
            p.raw(SigmaPlus, &[])?,
            p.raw(Loop(1, 2), &[s])?,
        ];
        sequences(p, &syms, l)
    });
    // counted loops of ranges next to each other
    let l = t.pick(4, 4);
    pair_family(ctx, "sequences-counted", &format!("all ordered pairs of concatenations of <= {} symbols among a, [ab], a{{0,1}}, a{{2,}}, [ab]{{1,2}}, [ab]{{3,}}, allchar{{2}}, allchar{{1,3}}, allchar{{2,}}, all", l), 128, &lay_ab(), |p| {
        let a = p.raw(Rng(1, 1), &[])?;
        let ab = p.raw(Rng(1, 2), &[])?;
        let s = p.raw(AllChar, &[])?;
        let syms = [
            a,
            ab,
            p.raw(MkLoop(0, Some(1)), &[a])?,
            p.raw(MkLoop(2, None), &[a])?,
            p.raw(MkLoop(1, Some(2)), &[ab])?,
            p.raw(MkLoop(3, None), &[ab])?,
            p.raw(MkLoop(2, Some(2)), &[s])?,
            p.raw(MkLoop(1, Some(3)), &[s])?,
            p.raw(MkLoop(2, None), &[s])?,
            p.raw(Full, &[])?,
        ];
        sequences(p, &syms, l)
    });
    // boundary cells
    let l = t.pick(5, 5);
    pair_family(ctx, "sequences-edge", &format!("all ordered pairs of concatenations of <= {} symbols among [0], [0-m], [m], [m-MAX], allchar, all", l), 128, &lay_edge(), |p| {
        let syms = [p.raw(Rng(0, 0), &[])?, p.raw(Rng(0, 1), &[])?, p.raw(Rng(1, 1), &[])?, p.raw(Rng(1, 2), &[])?, p.raw(AllChar, &[])?, p.raw(Full, &[])?];
        sequences(p, &syms, l)
    });
    // long sequences: one word of n letters with one or two of them replaced
    for &n in t.pick(&[8, 9, 10, 11, 12, 14, 17, 22, 33, 66, 130, 258][..], &[8, 9, 10, 11, 12, 13, 14, 15, 17, 18, 22, 27, 33, 50, 66, 130, 258, 514, 1026][..]) {
        for base in 0..3usize {
            pair_family(
                ctx,
                &format!("long-{}-{}", n, ["alternating", "constant", "last"][base]),
                &format!("all ordered pairs of concatenations of {} letters ({}) in which a letter at the start, in the middle, at the end or next to a power of 2 is left out, or replaced by another one, by [ab], allchar or all, alone, or between two all", n, ["abab...", "aaa...", "aa...b"][base]),
                16,
                &lay_ab(),
                |p| long_sequences(p, n, base),
            );
        }
    }
    pair_family(ctx, "many-blocks", "all ordered pairs of concatenations of k blocks (a all, ab all, all b, a allchar all, ...) for k to 6 and around 16, 32, 64, 128, 256, one block changed", 16, &lay_ab(), |p| many_blocks(p, t.pick(130, 258)));
    // loops: X^r and X^r . Y^s for all ranges
    pair_family(ctx, "loops", "all ordered pairs of X^r, a X^r, X^r b, X^r Full for 6 bodies X and 20 ranges r, and of their complements", 64, &lay_ab(), |p| {
        let a = p.raw(Rng(1, 1), &[])?;
        let b = p.raw(Rng(2, 2), &[])?;
        let fu = p.raw(Full, &[])?;
        let e = p.raw(Eps, &[])?;
        let ab = p.raw(Str(vec![1, 2]), &[])?;
        let bodies = [a, p.raw(Rng(1, 2), &[])?, p.raw(AllChar, &[])?, ab, p.raw(Union, &[ab, e])?, p.raw(Opt, &[a])?];
        let mut out = vec![];
        let mut first: FxSet<Ptr> = Default::default();
        for x in bodies {
            for r in RANGES {
                let l = p.raw(MkLoop(r.0, r.1), &[x])?;
                let v = [l, p.raw(Concat, &[a, l])?, p.raw(Concat, &[l, b])?, p.raw(Concat, &[l, fu])?, p.raw(ConcatL, &[fu, l, fu])?, p.raw(Comp, &[l])?];
                for y in v {
                    if first.insert(ptr(p.world.borrow().items[y].term)) {
                        out.push(y);
                    }
                }
            }
        }
        Some(out)
    });
    // all kinds of terms: everything of depth <= 2 over a small signature
    let nl = 5;
    let sp = Spec { leaves: vec![Rng(1, 1), Full, Rng(1, 2), AllChar, Eps][..nl].to_vec(), unary: vec![Comp, Star, Loop(1, 2), Opt, Exp(2), Plus][..t.pick(4, 6)].to_vec(), binary: vec![Concat, Union, Inter] };
    pair_family(ctx, "depth2", &format!("all ordered pairs of terms of depth <= 2 over {} leaves, {} unary and 3 binary operators", nl, sp.unary.len()), 128, &lay_ab(), |p| {
        let mut lv: Vec<usize> = vec![];
        let mut first: FxSet<Ptr> = Default::default();
        let mut add = |p: &mut P, x: usize, out: &mut Vec<usize>| {
            if first.insert(ptr(p.world.borrow().items[x].term)) {
                out.push(x);
            }
        };
        for op in &sp.leaves {
            let x = p.raw(op.clone(), &[])?;
            add(p, x, &mut lv);
        }
        for depth in 0..2 {
            let cur = lv.clone();
            let _ = depth;
            for &x in &cur {
                for op in &sp.unary {
                    let y = p.raw(op.clone(), &[x])?;
                    add(p, y, &mut lv);
                }
                for &y in &cur {
                    for op in &sp.binary {
                        let z = p.raw(op.clone(), &[x, y])?;
                        add(p, z, &mut lv);
                    }
                }
            }
        }
        Some(lv)
    });
    // unions lose nothing
    let z = Size { ab: true, edge: false, mid: false, d3: 0, d3w: 0, d3f: 0, nest_bodies: 0, loopcat_bodies: 8, bool6: true, lists: 4, seqs: 4, lseqs: 3, printed: 0, words: t.pick(3, 4), big: 1, wide: 1, chars: Some(t), late: Some(t) };
    all(ctx, &z, &mon_union, false);
}
