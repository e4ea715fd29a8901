//! C10: str.replace_re and str.replace_re_all

use crate::dfa::*;
use crate::ensure;
use crate::fams::*;
use crate::rt::*;
use crate::util::*;
use crate::world::*;
use aws_smt_strings::regular_expressions::RegLan;
use aws_smt_strings::smt_regular_expressions as wr;
use Op::*;

/// For each position i, the length of the shortest non-empty member of the language that starts
/// there. By the definition: the prefixes of s[i..] are tried in order of length.
fn shortest_at(d: &Dfa, k: usize, s: &[usize]) -> Vec<Option<usize>> {
    (0..s.len())
        .map(|i| {
            let mut q = 0usize;
            for (n, &a) in s[i..].iter().enumerate() {
                q = d.t[q * k + a] as usize;
                if d.fin[q] {
                    return Some(n + 1);
                }
            }
            None
        })
        .collect()
}

pub fn ref_replace_re(nullable: bool, at: &[Option<usize>], s: &[u32], t: &[u32]) -> Vec<u32> {
    if nullable {
        // the empty string at position 0 is the leftmost shortest match
        return [t, s].concat();
    }
    match at.iter().position(|x| x.is_some()) {
        None => s.to_vec(),
        Some(i) => [&s[..i], t, &s[i + at[i].unwrap()..]].concat(),
    }
}

pub fn ref_replace_re_all(at: &[Option<usize>], s: &[u32], t: &[u32]) -> Vec<u32> {
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        match at[i] {
            Some(n) => {
                out.extend_from_slice(t);
                i += n;
            }
            None => {
                out.push(s[i]);
                i += 1;
            }
        }
    }
    out
}

/// judge both functions for one term on one string with several replacement texts
fn judge(wd: &World, t: RegLan, l: Lang, d: &Dfa, s: &[u32], reps: &[Vec<u32>], st: &mut Stats) -> Check {
    let cells = wd.cells(s);
    let at = shortest_at(d, wd.o.k, &cells);
    let nullable = wd.o.nullable(l);
    let x = smt(s);
    for r in reps {
        let y = smt(r);
        let e1 = ref_replace_re(nullable, &at, s, r);
        let g1 = content(&wr::str_replace_re(&x, t, &y));
        ensure!(g1 == e1, "str_replace_re({}, ., {}) = {}, expected {}", show(s), show(r), show(&g1), show(&e1));
        let e2 = ref_replace_re_all(&at, s, r);
        let g2 = content(&wr::str_replace_re_all(&x, t, &y));
        ensure!(g2 == e2, "str_replace_re_all({}, ., {}) = {}, expected {}", show(s), show(r), show(&g2), show(&e2));
        st.transitions += 2;
        st.traces += 2;
    }
    st.states += 1;
    Ok(())
}

/// all strings of length <= len over the given characters
fn strings(chars: &[u32], len: u32) -> Vec<Vec<u32>> {
    let k = chars.len() as u64;
    (0..seq_count(k, len)).map(|i| seq_decode(k, i).iter().map(|&x| chars[x]).collect()).collect()
}

fn replacements(lay: &Layout) -> Vec<Vec<u32>> {
    let n = lay.n();
    let c = |i: usize| lay.lo(i % n);
    vec![vec![], vec![c(1)], vec![c(2), c(1), c(2)], vec![c(n - 1)]]
}

/// one representative per cell
fn cell_chars(lay: &Layout) -> Vec<u32> {
    (0..lay.n()).map(|i| if i % 2 == 0 { lay.hi(i) } else { lay.lo(i) }).collect()
}

fn monitor(len: u32, nrep: usize) -> impl Fn(&mut World, usize, &mut Stats) -> Check + Sync {
    move |wd: &mut World, i: usize, st: &mut Stats| {
        let (t, l) = (wd.items[i].term, wd.items[i].lang);
        if wd.seen.get(&ptr(t)) == Some(&l) {
            return Ok(());
        }
        wd.seen.insert(ptr(t), l);
        let mut chars = cell_chars(&wd.lay);
        // with many cells, only some of them
        let mut len = len;
        if chars.len() > 6 {
            len = len.min(2);
        } else if chars.len() == 6 {
            len = len.min(if len > 3 { 3 } else { 2 });
        }
        chars.truncate(26);
        let reps = replacements(&wd.lay);
        let d = wd.o.dfa(l);
        for (n, s) in strings(&chars, len).iter().enumerate() {
            // every pair of replacement texts is used, in turn
            let r: Vec<Vec<u32>> = (0..nrep).map(|j| reps[(n + j) % reps.len()].clone()).collect();
            judge(wd, t, l, &d, s, &r, st)?;
        }
        // strings of the language and of its neighbourhood, with context on both sides
        if wd.o.index(l) <= 40 {
            let c0 = chars[0];
            for (w, _) in wd.cover(l).iter().take(60) {
                let s = [&[c0][..], w, &[chars[1]], w, w].concat();
                if s.len() <= 400 {
                    judge(wd, t, l, &d, &s, &reps[1..2], st)?;
                }
            }
        }
        Ok(())
    }
}

pub fn c10(ctx: &Ctx) {
    let tier = ctx.tier;
    // all expressions of depth <= 1, long strings
    let l = tier.pick(6, 8);
    let deep: [(&str, Layout, Spec, u32); 3] = [
        ("level1-ab", lay_ab(), spec_ab(), l),
        ("level1-edge", lay_edge(), spec_edge(), l + 1),
        ("level1-mid", lay_mid(), spec_mid(), l),
    ];
    for (name, lay, sp, len) in &deep {
        let mon = monitor(*len, 2);
        // one chunk per slice of the base terms; the base is built in each
        let n = sp.base_len() as u64;
        let per = 6;
        program(ctx, name, &format!("every expression of depth <= 1 over {} leaves; every string of length <= {} over one character of each of {} cells; 2 of 4 replacement texts in rotation", sp.leaves.len(), len, lay.n()), lay, true, n.div_ceil(per), |w, world, c| {
            let mut sub = 0;
            let before = w.stats;
            let b = base(w, world, &mut sub, sp, &no_monitor);
            w.stats = before;
            for i in c * per..((c + 1) * per).min(n) {
                let i = match b.get(i as usize) {
                    Some(Some(i)) => *i,
                    _ => continue,
                };
                if w.stopping() {
                    return;
                }
                sub += 1;
                w.case(sub, || world.borrow().show(i), |st| mon(&mut world.borrow_mut(), i, st));
            }
        });
    }
    // patterns given by words, over two letters, long strings
    let (wl, sl) = (tier.pick(3, 4), tier.pick(11, 12));
    let k = seq_count(2, wl);
    program(ctx, "words-in-strings", &format!("patterns u|v, u.X*.v and (u|v)^[1,2] for all words u, v of length <= {} over a, b, X = u or allchar; every string of length <= {} over a, b", wl, sl), &lay_ab(), true, k * k, |w, world, c| {
        let mut p = P { w, world, sub: 0, mon: &no_monitor };
        let _ = (|| -> Option<()> {
            let mk = |p: &mut P, i: u64| p.raw(Str(seq_decode(2, i).iter().map(|&x| x as u16 + 1).collect()), &[]);
            let u = mk(&mut p, c / k)?;
            let v = mk(&mut p, c % k)?;
            let un = p.raw(Union, &[u, v])?;
            let fu = p.raw(Full, &[])?;
            let us = p.raw(Star, &[u])?;
            let pats = [
                un,
                p.raw(ConcatL, &[u, fu, v])?,
                p.raw(ConcatL, &[u, us, v])?,
                p.raw(Loop(1, 2), &[un])?,
                p.raw(Comp, &[un])?,
            ];
            let all = strings(&[0x61, 0x62], sl);
            let rs = [vec![], vec![0x61u32], vec![0x5A], vec![0x62, 0x61]];
            for x in pats {
                if p.stop() {
                    return None;
                }
                p.sub += 1;
                let sub = p.sub;
                p.w.case(sub, || world.borrow().show(x), |st| {
                    let wd = world.borrow();
                    let (t, l) = (wd.items[x].term, wd.items[x].lang);
                    let d = wd.o.dfa(l);
                    for (n, s) in all.iter().enumerate() {
                        judge(&wd, t, l, &d, s, &rs[n % 4..n % 4 + 1], st)?;
                    }
                    Ok(())
                });
            }
            Some(())
        })();
    });
    // long strings
    let lens: Vec<usize> = tier.pick(vec![16, 64, 300], vec![16, 64, 300, 2000, 20000]);
    program(ctx, "long-strings", &format!("6 patterns (words, bounded loops, complements, mixed) on strings u^n v w^n for all words u, v, w of length <= 2 over a, b, c; n up to length {:?}", lens), &lay_ab(), true, 13 * 13, |w, world, c| {
        let mut p = P { w, world, sub: 0, mon: &no_monitor };
        let _ = (|| -> Option<()> {
            let a = p.raw(Rng(1, 1), &[])?;
            let b = p.raw(Rng(2, 2), &[])?;
            let aab = p.raw(Str(vec![1, 1, 2]), &[])?;
            let bab = p.raw(Str(vec![2, 1, 2]), &[])?;
            let l = p.raw(Loop(2, 5), &[a])?;
            let lb = p.raw(Concat, &[l, b])?;
            let na = p.raw(Comp, &[a])?;
            let bnab = p.raw(ConcatL, &[b, na, b])?;
            let st = p.raw(Star, &[bab])?;
            let pats = [aab, p.raw(Union, &[aab, bab])?, lb, bnab, p.raw(Concat, &[st, aab])?, p.raw(Exp(7), &[a])?];
            let word = |i: u64| -> Vec<u32> { seq_decode(3, i).iter().map(|&x| 0x61 + x as u32).collect() };
            let (u, v) = (word(c / 13), word(c % 13));
            for wi in 0..13 {
                let z = word(wi);
                for &len in &lens {
                    if len > 300 && (wi + c) % 13 != 0 {
                        continue;
                    }
                    let n = len / (u.len() + z.len()).max(1);
                    let s = [u.repeat(n), v.clone(), z.repeat(n)].concat();
                    for x in pats {
                        // a search that fails everywhere is quadratic
                        if p.stop() {
                            return None;
                        }
                        if len > 2000 && x == bnab {
                            continue;
                        }
                        p.sub += 1;
                        let sub = p.sub;
                        p.w.case(sub, || format!("{} in {}^{} {} {}^{}", world.borrow().show(x), show(&u), n, show(&v), show(&z), n), |st| {
                            let wd = world.borrow();
                            let (t, l) = (wd.items[x].term, wd.items[x].lang);
                            let d = wd.o.dfa(l);
                            judge(&wd, t, l, &d, &s, &[vec![0x58, 0x61]], st)
                        });
                    }
                }
            }
            Some(())
        })();
    });
    // the families of expressions, short strings
    let m = monitor(tier.pick(3, 4), 1);
    let mut z = size(tier);
    z.d3 = tier.pick(0, z.d3);
    z.d3w = 0;
    z.d3f = 0;
    all(ctx, &z, &m, true);
    crate::huge::strings(ctx);
}
