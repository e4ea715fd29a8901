//! Reference model of regular languages: canonical minimal complete DFAs over a small alphabet
//! of atoms, hash-consed, so that two languages are equal iff their ids are equal.
//! Shares no code with the crate under test.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type Lang = u32;

/// complete DFA, initial state 0
#[derive(Debug)]
pub struct Dfa {
    pub n: usize,
    pub t: Vec<u16>,
    pub fin: Vec<bool>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum Bin {
    Union,
    Inter,
    Diff,
    Concat,
}

pub struct Oracle {
    pub k: usize,
    ids: FxMap<Box<[u16]>, Lang>,
    pub langs: Vec<Rc<Dfa>>,
    bin: FxMap<(u8, Lang, Lang), Lang>,
    un: FxMap<(u8, Lang), Lang>,
    looped: FxMap<(Lang, u32, u32), Lang>,
    derivs: Vec<Option<Box<[Lang]>>>,
}

impl Oracle {
    pub fn new(k: usize) -> Oracle {
        Oracle {
            k,
            ids: Default::default(),
            langs: vec![],
            bin: Default::default(),
            un: Default::default(),
            looped: Default::default(),
            derivs: vec![],
        }
    }

    /// Language of the DFA (n states, transition table t (n x k), final flags, start state)
    pub fn intern(&mut self, n: usize, t: &[u16], fin: &[bool], start: usize) -> Lang {
        let k = self.k;
        // reachable states
        let mut num = vec![u16::MAX; n];
        let mut order = vec![start];
        num[start] = 0;
        let mut h = 0;
        while h < order.len() {
            let s = order[h];
            h += 1;
            for a in 0..k {
                let d = t[s * k + a] as usize;
                if num[d] == u16::MAX {
                    num[d] = order.len() as u16;
                    order.push(d);
                }
            }
        }
        let m = order.len();
        // Moore refinement on reachable states
        let tt: Vec<u16> = order
            .iter()
            .flat_map(|&s| (0..k).map(move |a| (s, a)))
            .map(|(s, a)| num[t[s * k + a] as usize])
            .collect();
        let mut cls: Vec<u16> = order.iter().map(|&s| fin[s] as u16).collect();
        let mut ncls = {
            let f = cls.iter().filter(|&&x| x == 1).count();
            if f == 0 || f == m {
                1
            } else {
                2
            }
        };
        // one round: classes of pairs (class, class of the successor), letter by letter
        let mut map: FxMap<u32, u16> = Default::default();
        loop {
            let mut nc = cls.clone();
            for a in 0..k {
                map.clear();
                for s in 0..m {
                    let l = map.len() as u16;
                    let key = (nc[s] as u32) << 16 | cls[tt[s * k + a] as usize] as u32;
                    nc[s] = *map.entry(key).or_insert(l);
                }
            }
            let c = nc.iter().max().map_or(0, |&x| x as usize + 1);
            cls = nc;
            if c == ncls {
                break;
            }
            ncls = c;
        }
        // canonical numbering: BFS from the class of the start state
        let mut rep = vec![usize::MAX; ncls];
        for s in (0..m).rev() {
            rep[cls[s] as usize] = s;
        }
        let mut cnum = vec![u16::MAX; ncls];
        let mut corder = vec![cls[0] as usize];
        cnum[cls[0] as usize] = 0;
        let mut h = 0;
        let mut key: Vec<u16> = Vec::with_capacity(ncls * (k + 1));
        while h < corder.len() {
            let r = rep[corder[h]];
            h += 1;
            key.push(fin[order[r]] as u16);
            for a in 0..k {
                let c = cls[tt[r * k + a] as usize] as usize;
                if cnum[c] == u16::MAX {
                    cnum[c] = corder.len() as u16;
                    corder.push(c);
                }
                key.push(cnum[c]);
            }
        }
        debug_assert!(corder.len() == ncls);
        self.intern_key(ncls, key)
    }

    /// the language of state `start` of a minimal DFA: its reachable part is minimal
    fn intern_residual(&mut self, d: &Dfa, start: usize) -> Lang {
        let k = self.k;
        let mut num = vec![u16::MAX; d.n];
        let mut order = vec![start];
        num[start] = 0;
        let mut h = 0;
        let mut key: Vec<u16> = vec![];
        while h < order.len() {
            let s = order[h];
            h += 1;
            key.push(d.fin[s] as u16);
            for a in 0..k {
                let x = d.t[s * k + a] as usize;
                if num[x] == u16::MAX {
                    num[x] = order.len() as u16;
                    order.push(x);
                }
                key.push(num[x]);
            }
        }
        self.intern_key(order.len(), key)
    }

    fn intern_key(&mut self, ncls: usize, key: Vec<u16>) -> Lang {
        let k = self.k;
        let key: Box<[u16]> = key.into();
        if let Some(&id) = self.ids.get(&key) {
            return id;
        }
        let id = self.langs.len() as Lang;
        let mut t = Vec::with_capacity(ncls * k);
        let mut fin = Vec::with_capacity(ncls);
        for s in 0..ncls {
            fin.push(key[s * (k + 1)] == 1);
            t.extend_from_slice(&key[s * (k + 1) + 1..(s + 1) * (k + 1)]);
        }
        self.langs.push(Rc::new(Dfa { n: ncls, t, fin }));
        self.derivs.push(None);
        self.ids.insert(key, id);
        id
    }

    pub fn dfa(&self, l: Lang) -> Rc<Dfa> {
        self.langs[l as usize].clone()
    }
    /// Myhill-Nerode index
    pub fn index(&self, l: Lang) -> usize {
        self.langs[l as usize].n
    }

    pub fn empty(&mut self) -> Lang {
        let t = vec![0u16; self.k];
        self.intern(1, &t, &[false], 0)
    }
    pub fn full(&mut self) -> Lang {
        let t = vec![0u16; self.k];
        self.intern(1, &t, &[true], 0)
    }
    pub fn eps(&mut self) -> Lang {
        let t = vec![1u16; 2 * self.k];
        self.intern(2, &t, &[true, false], 0)
    }
    /// strings of one character, of an atom in [i, j]
    pub fn range(&mut self, i: usize, j: usize) -> Lang {
        let k = self.k;
        let mut t = vec![2u16; 3 * k];
        for x in t.iter_mut().take(j + 1).skip(i) {
            *x = 1;
        }
        self.intern(3, &t, &[false, true, false], 0)
    }
    pub fn word(&mut self, w: &[usize]) -> Lang {
        let k = self.k;
        let n = w.len() + 2;
        let mut t = vec![(n - 1) as u16; n * k];
        for (i, &a) in w.iter().enumerate() {
            t[i * k + a] = i as u16 + 1;
        }
        let mut fin = vec![false; n];
        fin[w.len()] = true;
        self.intern(n, &t, &fin, 0)
    }

    pub fn nullable(&self, l: Lang) -> bool {
        self.langs[l as usize].fin[0]
    }
    /// in a minimal DFA, the language is empty iff there is one state and it is not final
    pub fn is_empty(&self, l: Lang) -> bool {
        let d = &self.langs[l as usize];
        d.n == 1 && !d.fin[0]
    }
    pub fn is_full(&self, l: Lang) -> bool {
        let d = &self.langs[l as usize];
        d.n == 1 && d.fin[0]
    }

    /// left quotient by one character of atom a
    pub fn derive(&mut self, l: Lang, a: usize) -> Lang {
        if let Some(v) = &self.derivs[l as usize] {
            return v[a];
        }
        let d = self.dfa(l);
        let mut known: FxMap<u16, Lang> = Default::default();
        let mut v: Vec<Lang> = vec![];
        for &x in &d.t[..self.k] {
            let r = match known.get(&x) {
                Some(&r) => r,
                None => {
                    let r = self.intern_residual(&d, x as usize);
                    known.insert(x, r);
                    r
                }
            };
            v.push(r);
        }
        let r = v[a];
        self.derivs[l as usize] = Some(v.into());
        r
    }

    pub fn accepts(&self, l: Lang, w: &[usize]) -> bool {
        let d = &self.langs[l as usize];
        let mut s = 0usize;
        for &a in w {
            s = d.t[s * self.k + a] as usize;
        }
        d.fin[s]
    }

    fn product(&mut self, x: Lang, y: Lang, f: impl Fn(bool, bool) -> bool) -> Lang {
        let (a, b) = (self.dfa(x), self.dfa(y));
        let k = self.k;
        let mut num = vec![u16::MAX; a.n * b.n];
        let mut states = vec![(0usize, 0usize)];
        num[0] = 0;
        let mut t: Vec<u16> = vec![];
        let mut fin = vec![];
        let mut h = 0;
        while h < states.len() {
            let (p, q) = states[h];
            h += 1;
            fin.push(f(a.fin[p], b.fin[q]));
            for c in 0..k {
                let (p2, q2) = (a.t[p * k + c] as usize, b.t[q * k + c] as usize);
                let i = p2 * b.n + q2;
                if num[i] == u16::MAX {
                    assert!(states.len() < 60000, "oracle: product too large");
                    num[i] = states.len() as u16;
                    states.push((p2, q2));
                }
                t.push(num[i]);
            }
        }
        self.intern(states.len(), &t, &fin, 0)
    }

    fn binop(&mut self, op: Bin, x: Lang, y: Lang) -> Lang {
        let key = (op as u8, x, y);
        if let Some(&r) = self.bin.get(&key) {
            return r;
        }
        let r = match op {
            Bin::Union => self.product(x, y, |a, b| a || b),
            Bin::Inter => self.product(x, y, |a, b| a && b),
            Bin::Diff => self.product(x, y, |a, b| a && !b),
            Bin::Concat => self.concat_raw(x, y),
        };
        self.bin.insert(key, r);
        r
    }
    pub fn union(&mut self, x: Lang, y: Lang) -> Lang {
        self.binop(Bin::Union, x.min(y), x.max(y))
    }
    pub fn inter(&mut self, x: Lang, y: Lang) -> Lang {
        self.binop(Bin::Inter, x.min(y), x.max(y))
    }
    pub fn diff(&mut self, x: Lang, y: Lang) -> Lang {
        self.binop(Bin::Diff, x, y)
    }
    pub fn concat(&mut self, x: Lang, y: Lang) -> Lang {
        self.binop(Bin::Concat, x, y)
    }

    pub fn complement(&mut self, x: Lang) -> Lang {
        if let Some(&r) = self.un.get(&(0, x)) {
            return r;
        }
        let d = self.dfa(x);
        let fin: Vec<bool> = d.fin.iter().map(|b| !b).collect();
        let r = self.intern(d.n, &d.t, &fin, 0);
        self.un.insert((0, x), r);
        r
    }

    /// subset construction: states are (state of a, sorted set of states of b)
    fn concat_raw(&mut self, x: Lang, y: Lang) -> Lang {
        let (a, b) = (self.dfa(x), self.dfa(y));
        let k = self.k;
        let mut num: FxMap<(u16, Vec<u16>), u16> = Default::default();
        let init = (0u16, if a.fin[0] { vec![0u16] } else { vec![] });
        let mut states = vec![init.clone()];
        num.insert(init, 0);
        let mut t = vec![];
        let mut fin = vec![];
        let mut h = 0;
        while h < states.len() {
            let (p, set) = states[h].clone();
            h += 1;
            fin.push(set.iter().any(|&q| b.fin[q as usize]));
            for c in 0..k {
                let p2 = a.t[p as usize * k + c];
                let mut s2: Vec<u16> = set.iter().map(|&q| b.t[q as usize * k + c]).collect();
                if a.fin[p2 as usize] {
                    s2.push(0);
                }
                s2.sort_unstable();
                s2.dedup();
                let key = (p2, s2);
                let id = match num.get(&key) {
                    Some(&i) => i,
                    None => {
                        assert!(states.len() < 60000, "oracle: concatenation too large");
                        let i = states.len() as u16;
                        states.push(key.clone());
                        num.insert(key, i);
                        i
                    }
                };
                t.push(id);
            }
        }
        self.intern(states.len(), &t, &fin, 0)
    }

    pub fn star(&mut self, x: Lang) -> Lang {
        if let Some(&r) = self.un.get(&(1, x)) {
            return r;
        }
        let a = self.dfa(x);
        let k = self.k;
        // state 0: nothing read (accepting); other states: sets of states of a
        let mut num: FxMap<Vec<u16>, u16> = Default::default();
        let mut states: Vec<Vec<u16>> = vec![vec![0]];
        let mut t = vec![];
        let mut fin = vec![];
        let mut h = 0;
        while h < states.len() {
            let set = states[h].clone();
            fin.push(h == 0 || set.iter().any(|&q| a.fin[q as usize]));
            h += 1;
            for c in 0..k {
                let mut s2: Vec<u16> = set.iter().map(|&q| a.t[q as usize * k + c]).collect();
                if s2.iter().any(|&q| a.fin[q as usize]) {
                    s2.push(0);
                }
                s2.sort_unstable();
                s2.dedup();
                let id = match num.get(&s2) {
                    Some(&i) => i,
                    None => {
                        assert!(states.len() < 60000, "oracle: star too large");
                        let i = states.len() as u16;
                        states.push(s2.clone());
                        num.insert(s2, i);
                        i
                    }
                };
                t.push(id);
            }
        }
        let r = self.intern(states.len(), &t, &fin, 0);
        self.un.insert((1, x), r);
        r
    }

    pub fn power(&mut self, x: Lang, n: u32) -> Lang {
        let mut r = self.eps();
        for _ in 0..n {
            r = self.concat(x, r);
        }
        r
    }

    /// union of x^n for i <= n <= j (j = None: unbounded). Empty if i > j
    pub fn loop_(&mut self, x: Lang, i: u32, j: Option<u32>) -> Lang {
        let key = (x, i, j.map(|j| j + 1).unwrap_or(0));
        if let Some(&r) = self.looped.get(&key) {
            return r;
        }
        let r = match j {
            Some(j) if i > j => self.empty(),
            Some(j) => {
                let e = self.eps();
                let opt = self.union(x, e);
                let mut r = self.power(x, i);
                for _ in i..j {
                    r = self.concat(opt, r);
                }
                r
            }
            None => {
                let s = self.star(x);
                let p = self.power(x, i);
                self.concat(p, s)
            }
        };
        self.looped.insert(key, r);
        r
    }

    /// is x included in y?
    pub fn subset(&mut self, x: Lang, y: Lang) -> bool {
        self.witness(x, y, |a, b| a && !b).is_none()
    }

    /// shortest string w such that f(w in x, w in y)
    pub fn witness(&self, x: Lang, y: Lang, f: impl Fn(bool, bool) -> bool) -> Option<Vec<usize>> {
        let (a, b) = (&self.langs[x as usize], &self.langs[y as usize]);
        let k = self.k;
        let mut seen = vec![false; a.n * b.n];
        let mut q: Vec<(usize, usize, usize, usize)> = vec![(0, 0, usize::MAX, 0)];
        seen[0] = true;
        let mut h = 0;
        while h < q.len() {
            let (p, r, _, _) = q[h];
            if f(a.fin[p], b.fin[r]) {
                let mut w = vec![];
                let mut i = h;
                while q[i].2 != usize::MAX {
                    w.push(q[i].3);
                    i = q[i].2;
                }
                w.reverse();
                return Some(w);
            }
            for c in 0..k {
                let (p2, r2) = (a.t[p * k + c] as usize, b.t[r * k + c] as usize);
                if !seen[p2 * b.n + r2] {
                    seen[p2 * b.n + r2] = true;
                    q.push((p2, r2, h, c));
                }
            }
            h += 1;
        }
        None
    }

    /// shortest member
    pub fn shortest(&self, l: Lang) -> Option<Vec<usize>> {
        self.witness(l, l, |a, _| a)
    }

    /// for every state of the minimal DFA: a shortest string reaching it
    pub fn access(&self, l: Lang) -> Vec<Vec<usize>> {
        let d = &self.langs[l as usize];
        let mut acc: Vec<Option<Vec<usize>>> = vec![None; d.n];
        acc[0] = Some(vec![]);
        let mut q = vec![0usize];
        let mut h = 0;
        while h < q.len() {
            let s = q[h];
            h += 1;
            for c in 0..self.k {
                let d2 = d.t[s * self.k + c] as usize;
                if acc[d2].is_none() {
                    let mut w = acc[s].clone().unwrap();
                    w.push(c);
                    acc[d2] = Some(w);
                    q.push(d2);
                }
            }
        }
        acc.into_iter().map(|x| x.unwrap()).collect()
    }

    /// for every state: a shortest string leading to a final state, if any
    pub fn completions(&self, l: Lang) -> Vec<Option<Vec<usize>>> {
        let d = &self.langs[l as usize];
        let mut r: Vec<Option<Vec<usize>>> = d.fin.iter().map(|&f| if f { Some(vec![]) } else { None }).collect();
        loop {
            let mut new = vec![];
            for s in 0..d.n {
                if r[s].is_none() {
                    for c in 0..self.k {
                        if let Some(w) = &r[d.t[s * self.k + c] as usize] {
                            let mut v = vec![c];
                            v.extend_from_slice(w);
                            new.push((s, v));
                            break;
                        }
                    }
                }
            }
            if new.is_empty() {
                return r;
            }
            for (s, v) in new {
                r[s] = Some(v);
            }
        }
    }
}
