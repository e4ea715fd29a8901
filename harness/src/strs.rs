//! C06 (string functions), C08 (literals), C09 (order, conversions), C17 (well-formedness).

use crate::ensure;
use crate::rt::*;
use crate::util::*;
use aws_smt_strings::smt_regular_expressions as re;
use aws_smt_strings::smt_strings::*;

pub type V = Vec<u32>;

// ------------------------------------------------------------ reference functions (SMT-LIB 2.6)

pub fn ref_find(s: &[u32], p: &[u32], from: usize) -> Option<usize> {
    (from..=s.len()).find(|&j| s[j..].starts_with(p))
}

pub fn ref_replace(s: &[u32], p: &[u32], r: &[u32]) -> V {
    match ref_find(s, p, 0) {
        None => s.to_vec(),
        Some(j) => [&s[..j], r, &s[j + p.len()..]].concat(),
    }
}

pub fn ref_replace_all(s: &[u32], p: &[u32], r: &[u32]) -> V {
    if p.is_empty() {
        return s.to_vec();
    }
    match ref_find(s, p, 0) {
        None => s.to_vec(),
        Some(j) => {
            let mut v = [&s[..j], r].concat();
            v.extend(ref_replace_all(&s[j + p.len()..], p, r));
            v
        }
    }
}

fn ref_substr(s: &[u32], i: i64, n: i64) -> V {
    let len = s.len() as i64;
    if i < 0 || i >= len || n <= 0 {
        vec![]
    } else {
        s[i as usize..(i + n).min(len) as usize].to_vec()
    }
}

fn ref_indexof(s: &[u32], p: &[u32], i: i64) -> i64 {
    if i < 0 || i > s.len() as i64 {
        -1
    } else {
        ref_find(s, p, i as usize).map_or(-1, |x| x as i64)
    }
}

fn ref_lt(a: &[u32], b: &[u32]) -> bool {
    // a is a proper prefix of b, or at the first difference a's code is smaller
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(k) => a[k] < b[k],
        None => a.len() < b.len(),
    }
}

fn word(alpha: &[u32], i: u64) -> V {
    seq_decode(alpha.len() as u64, i).into_iter().map(|k| alpha[k]).collect()
}

fn good(s: &SmtString) -> bool {
    s.is_good() && s.iter().all(|&c| c <= MAX)
}

const EXTREME: [i32; 14] = [
    i32::MIN, i32::MIN + 1, -0x10000, -256, -2, -1, 255, 256, 257, 65535, 65536, 65537, i32::MAX - 1, i32::MAX,
];

fn check_positions(st: &mut Stats, s: &V) -> Result<(), String> {
    let x = smt(s);
    ensure!(content(&x) == *s, "content");
    ensure!(str_len(&x) as usize == s.len() && x.len() == s.len(), "str_len = {}", str_len(&x));
    ensure!(x.is_empty() == s.is_empty(), "is_empty");
    let mut ints: Vec<i32> = (-3..=s.len() as i32 + 3).collect();
    ints.extend(EXTREME);
    // aliases of small positions modulo a power of two
    ints.extend([(1 << 30) + 1, i32::MIN + 1 + s.len() as i32]);
    for &i in &ints {
        st.transitions += 1;
        let r = str_at(&x, i);
        ensure!(content(&r) == ref_substr(s, i as i64, 1), "str_at(s, {}) = {}", i, r);
        for &n in &ints {
            st.transitions += 1;
            let r = str_substr(&x, i, n);
            ensure!(content(&r) == ref_substr(s, i as i64, n as i64), "str_substr(s, {}, {}) = {}", i, n, r);
        }
    }
    Ok(())
}

fn check_search(st: &mut Stats, s: &V, p: &V, all_ints: bool) -> Result<(), String> {
    let (x, y) = (smt(s), smt(p));
    st.states += 1;
    st.transitions += 4;
    let c = str_concat(&x, &y);
    ensure!(content(&c) == [&s[..], &p[..]].concat(), "str_concat = {}", c);
    ensure!(str_prefixof(&y, &x) == s.starts_with(p), "str_prefixof(p, s) = {}", str_prefixof(&y, &x));
    ensure!(str_suffixof(&y, &x) == s.ends_with(p), "str_suffixof(p, s) = {}", str_suffixof(&y, &x));
    ensure!(str_contains(&x, &y) == ref_find(s, p, 0).is_some(), "str_contains(s, p) = {}", str_contains(&x, &y));
    let n = s.len() as i32;
    let mut i = -2;
    while i <= n + 3 {
        st.transitions += 1;
        let r = str_indexof(&x, &y, i);
        ensure!(r as i64 == ref_indexof(s, p, i as i64), "str_indexof(s, p, {}) = {}", i, r);
        i += 1;
    }
    if all_ints {
        for i in EXTREME {
            st.transitions += 1;
            let r = str_indexof(&x, &y, i);
            ensure!(r as i64 == ref_indexof(s, p, i as i64), "str_indexof(s, p, {}) = {}", i, r);
        }
    }
    Ok(())
}

fn check_replace(st: &mut Stats, s: &V, p: &V, r: &V) -> Result<(), String> {
    let (x, y, z) = (smt(s), smt(p), smt(r));
    st.states += 1;
    st.transitions += 2;
    let v = str_replace(&x, &y, &z);
    ensure!(content(&v) == ref_replace(s, p, r), "str_replace = {}", v);
    let v = str_replace_all(&x, &y, &z);
    ensure!(content(&v) == ref_replace_all(s, p, r), "str_replace_all = {}", v);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    let t = ctx.tier;
    let ab = [0x61u32, 0x62];
    let alias: [u32; 6] = [0x61, 0x161, 0x10061, 0, 0x2FFFF, 0xFFFF];
    // positions
    let l = t.pick(6, 8);
    let n = seq_count(3, l);
    ctx.indexed("positions", &format!("len, at, substr: all strings of length <= {} over 3 characters, all positions/lengths from -3 to len+3 and 16 extreme integers", l), n, 16, |w, i| {
        let s = word(&[0x61, 0x2FFFF, 0], i);
        w.case(i, || format!("s = {}", show(&s)), |st| {
            st.states += 1;
            check_positions(st, &s)
        });
    });
    // searches over {a, b}
    let (ls, lp) = t.pick((11, 7), (14, 8));
    let (ns, np) = (seq_count(2, ls), seq_count(2, lp));
    ctx.indexed("search-ab", &format!("concat, prefixof, suffixof, contains, indexof at every start: all strings s of length <= {}, p of length <= {} over {{a,b}}", ls, lp), ns, 4, |w, i| {
        let s = word(&ab, i);
        for j in 0..np {
            if w.stopping() { return; }
            let p = word(&ab, j);
            w.case(j, || format!("s = {}, p = {}", show(&s), show(&p)), |st| check_search(st, &s, &p, j < 8));
        }
    });
    let (ls, lp) = t.pick((5, 3), (6, 4));
    let k = alias.len() as u64;
    let (ns, np) = (seq_count(k, ls), seq_count(k, lp));
    ctx.indexed("search-alias", &format!("same over 6 characters equal modulo 2^8/2^16 or at the limits, s <= {}, p <= {}", ls, lp), ns, 4, |w, i| {
        let s = word(&alias, i);
        for j in 0..np {
            if w.stopping() { return; }
            let p = word(&alias, j);
            w.case(j, || format!("s = {}, p = {}", show(&s), show(&p)), |st| {
                check_search(st, &s, &p, false)?;
                check_replace(st, &s, &p, &vec![0x2FFFF])
            });
        }
    });
    // p may be longer than s, in both roles
    let l = t.pick(7, 9);
    let n = seq_count(2, l);
    ctx.indexed("pairs-ab", &format!("all pairs of strings of length <= {} over {{a,b}}, including patterns longer than the text", l), n, 4, |w, i| {
        let s = word(&ab, i);
        for j in 0..n {
            if w.stopping() { return; }
            let p = word(&ab, j);
            w.case(j, || format!("s = {}, p = {}", show(&s), show(&p)), |st| check_search(st, &s, &p, false));
        }
    });
    // replacements
    let (ls, lp, lr) = t.pick((9, 4, 3), (11, 5, 4));
    let (ns, np, nr) = (seq_count(2, ls), seq_count(2, lp), seq_count(2, lr));
    ctx.indexed("replace-ab", &format!("replace, replace_all: all s <= {}, p <= {}, r <= {} over {{a,b}}", ls, lp, lr), ns, 4, |w, i| {
        let s = word(&ab, i);
        for j in 0..np {
            if w.stopping() { return; }
            let p = word(&ab, j);
            w.case(j, || format!("s = {}, p = {} (all replacements)", show(&s), show(&p)), |st| {
                for k in 0..nr {
                    let r = word(&ab, k);
                    check_replace(st, &s, &p, &r).map_err(|e| format!("r = {}: {}", show(&r), e))?;
                }
                Ok(())
            });
        }
    });
    let (ls, lp) = t.pick((6, 4), (8, 4));
    let (ns, np) = (seq_count(3, ls), seq_count(3, lp));
    ctx.indexed("replace-abc", &format!("replace, replace_all: all s <= {}, p <= {} over {{a,b,c}}, 5 replacements", ls, lp), ns, 4, |w, i| {
        let abc = [0x61u32, 0x62, 0x63];
        let s = word(&abc, i);
        for j in 0..np {
            if w.stopping() { return; }
            let p = word(&abc, j);
            w.case(j, || format!("s = {}, p = {}", show(&s), show(&p)), |st| {
                check_search(st, &s, &p, false)?;
                for r in [vec![], vec![0x61], vec![0x63, 0x61, 0x62], [&p[..], &p[..]].concat(), [&[0x62][..], &p[..]].concat()] {
                    check_replace(st, &s, &p, &r).map_err(|e| format!("r = {}: {}", show(&r), e))?;
                }
                Ok(())
            });
        }
    });
    // long periodic texts with one mutated position
    let lens: Vec<usize> = t.pick(vec![15, 16, 17, 31, 32, 33, 63, 64, 65], vec![15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]);
    let nb = seq_count(2, 3) - 1;
    let total = nb * lens.len() as u64;
    ctx.indexed("long-periodic", "periodic texts (period <= 3 over {a,b}) of lengths around powers of two, each position mutated in turn; patterns: periodic words of every length <= 40 from each phase", total, 1, |w, i| {
        let base = word(&ab, 1 + i / lens.len() as u64);
        let n = lens[i as usize % lens.len()];
        let text: V = (0..n).map(|k| base[k % base.len()]).collect();
        for m in 0..=n {
            if w.stopping() { return; }
            let mut s = text.clone();
            if m < n {
                s[m] = 0x63;
            }
            w.case(m as u64, || format!("s = {}", show(&s)), |st| {
                for ph in 0..base.len() {
                    for pl in 0..=40.min(n + 1) {
                        let p: V = (0..pl).map(|k| base[(k + ph) % base.len()]).collect();
                        let (x, y) = (smt(&s), smt(&p));
                        st.transitions += 6;
                        for i in [0, 1, m as i32, m as i32 + 1, n as i32 - pl as i32, n as i32] {
                            let r = str_indexof(&x, &y, i);
                            ensure!(r as i64 == ref_indexof(&s, &p, i as i64), "str_indexof(s, {}, {}) = {}", show(&p), i, r);
                        }
                        ensure!(str_contains(&x, &y) == ref_find(&s, &p, 0).is_some(), "str_contains(s, {})", show(&p));
                        ensure!(str_prefixof(&y, &x) == s.starts_with(&p), "str_prefixof({}, s)", show(&p));
                        ensure!(str_suffixof(&y, &x) == s.ends_with(&p), "str_suffixof({}, s)", show(&p));
                        for r in [vec![], vec![0x64], p.clone()] {
                            check_replace(st, &s, &p, &r).map_err(|e| format!("p = {}, r = {}: {}", show(&p), show(&r), e))?;
                        }
                    }
                }
                check_positions_light(st, &s)
            });
        }
    });
    // every character among others that differ from it in one bit
    let sample = crate::fams::char_sample(Tier::Thorough);
    ctx.indexed(
        "every-character",
        &format!("all s of length <= 3, p of length <= 2 over c, c+1 and c with one bit changed (in rotation), 3 replacements, for c = {}", crate::fams::char_sample_text(Tier::Thorough)),
        sample.len() as u64,
        32,
        |w, i| {
            let c = sample[i as usize];
            let flip = (0..17).map(|b| c ^ 1 << ((b + i) % 17)).find(|&x| x <= MAX && x != c + 1).unwrap();
            let alpha = [c, c + 1, flip];
            for k in 0..seq_count(3, 3) {
                let s = word(&alpha, k);
                w.case(i * 64 + k, || format!("s = {}", show(&s)), |st| {
                    for j in 0..seq_count(3, 2) {
                        let p = word(&alpha, j);
                        check_search(st, &s, &p, false).map_err(|e| format!("p = {}: {}", show(&p), e))?;
                        let r = [vec![], vec![flip, c], vec![c]][(j % 3) as usize].clone();
                        check_replace(st, &s, &p, &r).map_err(|e| format!("p = {}, r = {}: {}", show(&p), show(&r), e))?;
                    }
                    Ok(())
                });
            }
        },
    );
    crate::huge::strings(ctx);
}

fn check_positions_light(st: &mut Stats, s: &V) -> Result<(), String> {
    let x = smt(s);
    let n = s.len() as i32;
    for i in [-1, 0, 1, n / 2, n - 1, n, n + 1] {
        for k in [-1, 0, 1, n / 2, n - 1, n, n + 1, i32::MAX] {
            st.transitions += 1;
            let r = str_substr(&x, i, k);
            ensure!(content(&r) == ref_substr(s, i as i64, k as i64), "str_substr(s, {}, {}) = {}", i, k, r);
        }
        ensure!(content(&str_at(&x, i)) == ref_substr(s, i as i64, 1), "str_at(s, {})", i);
    }
    Ok(())
}

// ------------------------------------------------------------ C08

/// SMT-LIB 2.6 reading of a literal's text: at each position, an escape sequence if one starts
/// there, else the character itself. All characters of `a` must be SMT-LIB characters.
pub fn ref_parse(a: &[char]) -> V {
    fn hexval(c: char) -> Option<u32> {
        match c {
            '0'..='9' => Some(c as u32 - '0' as u32),
            'a'..='f' => Some(c as u32 - 'a' as u32 + 10),
            'A'..='F' => Some(c as u32 - 'A' as u32 + 10),
            _ => None,
        }
    }
    // (value, length) of the escape sequence starting at a[0], if any
    fn escape(a: &[char]) -> Option<(u32, usize)> {
        if a.len() < 3 || a[0] != '\\' || a[1] != 'u' {
            return None;
        }
        if a[2] == '{' {
            let close = a.iter().position(|&c| c == '}')?;
            let digits = &a[3..close];
            if digits.is_empty() || digits.len() > 5 {
                return None;
            }
            let mut v = 0;
            for &d in digits {
                v = v * 16 + hexval(d)?;
            }
            if v <= MAX {
                Some((v, close + 1))
            } else {
                None
            }
        } else {
            if a.len() < 6 {
                return None;
            }
            let mut v = 0;
            for &d in &a[2..6] {
                v = v * 16 + hexval(d)?;
            }
            Some((v, 6))
        }
    }
    let mut out = vec![];
    let mut i = 0;
    while i < a.len() {
        match escape(&a[i..]) {
            Some((v, n)) => {
                out.push(v);
                i += n;
            }
            None => {
                out.push(a[i] as u32);
                i += 1;
            }
        }
    }
    out
}

fn check_parse(st: &mut Stats, text: &[char]) -> Result<(), String> {
    st.transitions += 1;
    let s: String = text.iter().collect();
    let r = parse_smt_literal(&s);
    let e = ref_parse(text);
    ensure!(content(&r) == e, "parses as {}, expected {}", show(&content(&r)), show(&e));
    Ok(())
}

/// printable ASCII, quotes doubled, reading back gives the same string
fn check_print(st: &mut Stats, s: &[u32]) -> Result<(), String> {
    st.transitions += 1;
    let x = smt(s);
    let d = x.to_string();
    ensure!(d.chars().all(|c| (' '..='~').contains(&c)), "prints as {:?}: not printable ASCII", d);
    ensure!(d.len() >= 2 && d.starts_with('"') && d.ends_with('"'), "prints as {:?}: not a literal", d);
    let body: Vec<char> = d[1..d.len() - 1].chars().collect();
    let mut undone = vec![];
    let mut i = 0;
    while i < body.len() {
        if body[i] == '"' {
            ensure!(i + 1 < body.len() && body[i + 1] == '"', "prints as {}: a quote is not doubled", d);
            i += 1;
        }
        undone.push(body[i]);
        i += 1;
    }
    let e = ref_parse(&undone);
    ensure!(e == s, "prints as {}, which denotes {}", d, show(&e));
    let text: String = undone.iter().collect();
    let back = parse_smt_literal(&text);
    ensure!(back == x && content(&back) == s, "prints as {}, which parse_smt_literal reads as {}", d, show(&content(&back)));
    Ok(())
}

pub fn c08(ctx: &Ctx) {
    let t = ctx.tier;
    // texts
    let sym = ['\\', 'u', '{', '}', '2', 'F', '0'];
    let l = t.pick(8, 10);
    let n = seq_count(7, l);
    ctx.indexed("texts", &format!("every text of length <= {} over \\ u {{ }} 2 F 0", l), n, 4096, |w, i| {
        let text: Vec<char> = seq_decode(7, i).into_iter().map(|k| sym[k]).collect();
        w.case(i, || format!("text {:?}", text.iter().collect::<String>()), |st| {
            st.states += 1;
            check_parse(st, &text)
        });
    });
    let prefixes: Vec<Vec<char>> = ["\\u{", "\\u{2", "\\u{2F", "\\u{2FF", "\\u{2FFF", "\\u{2FFFF", "\\u{02FFF", "\\u{3000", "\\u", "\\u0", "\\u00", "\\u002", "\\u{0\\u", "\\\\u", "\\u\\u{", "\\u00\\", "\\u{2\\u00"]
        .iter().map(|s| s.chars().collect()).collect();
    let l = t.pick(6, 8);
    let n = seq_count(7, l);
    ctx.indexed("prefixed", &format!("every continuation of length <= {} of 17 prefixes of escape sequences", l), n * prefixes.len() as u64, 4096, |w, i| {
        let mut text = prefixes[i as usize % prefixes.len()].clone();
        text.extend(seq_decode(7, i / prefixes.len() as u64).into_iter().map(|k| sym[k]));
        w.case(i, || format!("text {:?}", text.iter().collect::<String>()), |st| {
            st.states += 1;
            check_parse(st, &text)
        });
    });
    let tokens: Vec<Vec<char>> = ["\\", "\\u", "\\u{", "\\u{1", "\\u00", "41", "}", "u", "\"", "\u{e9}", "2ffff}", "30000}", "{", "g", "U", "\u{ff11}", "1d7ff}", "\u{10000}"]
        .iter().map(|s| s.chars().collect()).collect();
    let k = tokens.len() as u64;
    let l = t.pick(5, 6);
    let n = seq_count(k, l);
    ctx.indexed("tokens", &format!("every sequence of <= {} of {} fragments of escape sequences and look-alikes", l, k), n, 4096, |w, i| {
        let text: Vec<char> = seq_decode(k, i).into_iter().flat_map(|k| tokens[k].clone()).collect();
        w.case(i, || format!("text {:?}", text.iter().collect::<String>()), |st| {
            st.states += 1;
            check_parse(st, &text)
        });
    });
    // every hexadecimal value
    ctx.indexed("hex-values", "every value 0..0xFFFFF in braces with 1..7 digits, and every 4-digit escape, lower/upper/mixed case, followed by a digit, a brace or nothing", 0x100000 / 256, 4, |w, b| {
        for v in b * 256..b * 256 + 256 {
            w.case(v, || format!("escape sequences of value {:x}", v), |st| {
                st.states += 1;
                let mut texts = vec![];
                for width in 1..=7usize {
                    let lower = format!("{:0width$x}", v, width = width);
                    if lower.len() != width {
                        continue;
                    }
                    let upper = lower.to_uppercase();
                    let mixed: String = lower.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
                    for h in [lower, upper, mixed] {
                        texts.push(format!("\\u{{{}}}", h));
                        texts.push(format!("x\\u{{{}", h));
                        if width == 4 {
                            texts.push(format!("\\u{}", h));
                            texts.push(format!("a\\u{}0", h));
                        }
                        if width == 3 {
                            texts.push(format!("\\u{}}}", h));
                        }
                        if width == 5 {
                            texts.push(format!("\\u{}", h));
                        }
                    }
                }
                for s in texts {
                    let c: Vec<char> = s.chars().collect();
                    check_parse(st, &c).map_err(|e| format!("{:?}: {}", s, e))?;
                }
                Ok(())
            });
        }
    });
    // every character in every parser state
    ctx.indexed("char-in-context", "every ASCII character and every 37th other character after each prefix of an escape sequence, with several continuations", 128 + 0x2FFFF / 37, 64, |w, i| {
        let c = if i < 128 { i as u32 } else { (i as u32 - 128) * 37 + 128 };
        // beyond 0x2FFFF is not an SMT-LIB character (see C17); surrogates are not Rust chars
        let c = match char::from_u32(c) { Some(x) if c <= MAX => x, _ => return };
        w.case(i, || format!("character {:?} in every parser state", c), |st| {
            st.states += 1;
            for pre in ["", "\\", "\\u", "\\u{", "\\u{4", "\\u{41", "\\u{0041", "\\u{00041", "\\u0", "\\u00", "\\u004", "a\\u", "\\\\"] {
                for post in ["", "}", "1}", "41", "u0041", "{41}", "\\u0041", "u{41}"] {
                    let text: Vec<char> = pre.chars().chain(std::iter::once(c)).chain(post.chars()).collect();
                    check_parse(st, &text).map_err(|e| format!("{:?}: {}", text.iter().collect::<String>(), e))?;
                }
            }
            Ok(())
        });
    });
    // printing
    ctx.indexed("print-chars", "every SMT-LIB character alone and in 9 contexts that could form an escape sequence", 0x30000 / 64, 8, |w, b| {
        for c in b as u32 * 64..b as u32 * 64 + 64 {
            w.case(c as u64, || format!("printing character {:#x} in context", c), |st| {
                st.states += 1;
                let q = |s: &str| -> V { s.chars().map(|c| c as u32).collect() };
                for (pre, post) in [("", ""), ("\\", ""), ("\\u", ""), ("\\u", "0041"), ("\\u{", "41}"), ("\\u{4", "}"), ("\\u004", ""), ("", "u0041"), ("\"", "\""), ("", "u{41}")] {
                    let v = [q(pre), vec![c], q(post)].concat();
                    check_print(st, &v).map_err(|e| format!("{}: {}", show(&v), e))?;
                }
                // printing of one character: the body of a literal for it
                for (name, d) in [("char_to_smt", char_to_smt(c)), ("smt_char_as_string", smt_char_as_string(c))] {
                    st.transitions += 1;
                    ensure!(d.chars().all(|x| (' '..='~').contains(&x)), "{} gives {:?}: not printable ASCII", name, d);
                    let text = d.replace("\"\"", "\u{1}");
                    ensure!(!text.contains('"'), "{} gives {}: a quote is not doubled", name, d);
                    let text = text.replace('\u{1}', "\"");
                    let back = parse_smt_literal(&text);
                    ensure!(content(&back) == [c], "{} gives {}, which parse_smt_literal reads as {}", name, d, show(&content(&back)));
                    ensure!(ref_parse(&text.chars().collect::<Vec<_>>()) == [c], "{} gives {}, which denotes another string", name, d);
                }
                Ok(())
            });
        }
    });
    let tricky: Vec<u32> = vec![0x5C, 0x75, 0x7B, 0x7D, 0x22, 0x34, 0x31, 0x7F, 0x80, 0xE9, 0x10000, 0x1F, 0x20, 0x61];
    let k = tricky.len() as u64;
    let l = t.pick(5, 6);
    ctx.indexed("print-strings", &format!("every string of length <= {} over 14 characters significant for printing", l), seq_count(k, l), 4096, |w, i| {
        let s = word(&tricky, i);
        w.case(i, || format!("printing {}", show(&s)), |st| {
            st.states += 1;
            check_print(st, &s)
        });
    });
    let sym: Vec<u32> = "\\u{41}\"".chars().map(|c| c as u32).collect();
    let l = t.pick(7, 9);
    ctx.indexed("print-escapes", &format!("every string of length <= {} over \\ u {{ 4 1 }} \"", l), seq_count(7, l), 4096, |w, i| {
        let s = word(&sym, i);
        w.case(i, || format!("printing {}", show(&s)), |st| {
            st.states += 1;
            check_print(st, &s)
        });
    });
    crate::huge::strings(ctx);
}

// ------------------------------------------------------------ C09

fn check_order(st: &mut Stats, a: &V, b: &V) -> Result<(), String> {
    st.states += 1;
    st.transitions += 2;
    let (x, y) = (smt(a), smt(b));
    let lt = ref_lt(a, b);
    ensure!(str_lt(&x, &y) == lt, "str_lt = {}", !lt);
    ensure!(str_le(&x, &y) == (lt || a == b), "str_le = {}", str_le(&x, &y));
    ensure!((x == y) == (a == b), "==");
    Ok(())
}

/// Value of a digit string without overflow: None if it does not fit in i32
fn ref_to_int(s: &[u32]) -> Option<i64> {
    if s.is_empty() || s.iter().any(|c| !(0x30..=0x39).contains(c)) {
        return Some(-1);
    }
    let mut v: u128 = 0;
    for &c in s {
        v = v * 10 + (c - 0x30) as u128;
        if v > i32::MAX as u128 {
            return None;
        }
    }
    Some(v as i64)
}

fn check_to_int(st: &mut Stats, s: &[u32]) -> Result<(), String> {
    st.transitions += 1;
    let x = smt(s);
    match ref_to_int(s) {
        Some(v) => match no_panic(|| str_to_int(&x)) {
            Ok(r) => ensure!(r as i64 == v, "str_to_int({}) = {}, expected {}", show(s), r, v),
            Err(e) => return Err(format!("str_to_int({}) panics ({}), expected {}", show(s), e, v)),
        },
        None => {
            if let Ok(r) = no_panic(|| str_to_int(&x)) {
                return Err(format!("str_to_int({}) = {} although the value does not fit", show(s), r));
            }
        }
    }
    Ok(())
}

fn digits(s: &str) -> V {
    s.chars().map(|c| c as u32).collect()
}

fn check_from_int(st: &mut Stats, n: i32) -> Result<(), String> {
    st.transitions += 2;
    let s = str_from_int(n);
    if n < 0 {
        ensure!(s.is_empty(), "str_from_int({}) = {}", n, s);
    } else {
        let mut e = vec![];
        let mut v = n as u64;
        loop {
            e.push(0x30 + (v % 10) as u32);
            v /= 10;
            if v == 0 {
                break;
            }
        }
        e.reverse();
        ensure!(s.as_ref() == &e[..], "str_from_int({}) = {}", n, s);
        let r = str_to_int(&s);
        ensure!(r == n, "str_to_int(str_from_int({})) = {}", n, r);
    }
    Ok(())
}

fn check_from_code(st: &mut Stats, x: i32) -> Result<(), String> {
    st.transitions += 2;
    let s = str_from_code(x);
    if (0..=MAX as i32).contains(&x) {
        ensure!(s.as_ref() == [x as u32], "str_from_code({:#x}) = {}", x, s);
        ensure!(str_to_code(&s) == x, "str_to_code(str_from_code({:#x})) = {:#x}", x, str_to_code(&s));
    } else {
        ensure!(s.is_empty(), "str_from_code({:#x}) = {}", x, s);
    }
    Ok(())
}

pub fn c09(ctx: &Ctx) {
    let t = ctx.tier;
    // order
    let l = t.pick(6, 7);
    let abc = [0x61u32, 0x62, 0x63];
    let n = seq_count(3, l);
    ctx.indexed("order-abc", &format!("all ordered pairs of strings of length <= {} over 3 characters", l), n, 4, |w, i| {
        let a = word(&abc, i);
        for j in 0..n {
            if w.stopping() { return; }
            let b = word(&abc, j);
            w.case(j, || format!("order of {} and {}", show(&a), show(&b)), |st| check_order(st, &a, &b));
        }
    });
    let vals: Vec<u32> = vec![0, 0x7F, 0x80, 0x100, 0xD7FF, 0xD800, 0xD801, 0xDFFF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFF, 0x20000, 0x2FFFF];
    let k = vals.len() as u64;
    let n = seq_count(k, t.pick(2, 3));
    ctx.indexed("order-values", &format!("all ordered pairs of strings of length <= {} over 15 critical code points", t.pick(2, 3)), n, 4, |w, i| {
        let a = word(&vals, i);
        for j in 0..n {
            if w.stopping() { return; }
            let b = word(&vals, j);
            w.case(j, || format!("order of {} and {}", show(&a), show(&b)), |st| check_order(st, &a, &b));
        }
    });
    let vals2 = &vals;
    ctx.indexed("order-chars", "every character against its neighbours, its 18 one-bit changes and 15 critical values: alone, after a common prefix, before different tails, as a prefix", 0x30000 / 64, 8, |w, b| {
        for c in b as u32 * 64..b as u32 * 64 + 64 {
            if w.stopping() { return; }
            w.case(c as u64, || format!("order of character {:#x}", c), |st| {
                let mut o = vec![c];
                o.extend((0..18).map(|k| c ^ (1 << k)).filter(|&x| x <= MAX));
                o.extend([1u32, 2, 3, 4].map(|d| c + d).into_iter().filter(|&x| x <= MAX));
                o.extend(vals2.iter());
                for d in o {
                    check_order(st, &vec![c], &vec![d])?;
                    check_order(st, &vec![d], &vec![c])?;
                    check_order(st, &vec![0x61, c], &vec![0x61, d, 0x61])?;
                    check_order(st, &vec![d, c, 0], &vec![d, d])?;
                    check_order(st, &vec![c, 0x62], &vec![d, 0x61])?;
                }
                check_order(st, &vec![], &vec![c])?;
                check_order(st, &vec![c], &vec![])?;
                check_order(st, &vec![c], &vec![c, c])?;
                Ok(())
            });
        }
    });
    ctx.indexed("order-long", "strings of length 0..70 sharing a prefix of every length, then every combination of 3 continuations", 71 * 71, 16, |w, i| {
        let (p, tail) = ((i / 71) as usize, (i % 71) as usize);
        w.case(i, || format!("common prefix {}, tails up to {}", p, tail), |st| {
            let pre: V = (0..p).map(|k| 0x61 + (k as u32 % 3)).collect();
            for (c, d) in [(0x61u32, 0x62u32), (0x62, 0x61), (0x100, 0xFF), (0x2FFFF, 0), (0x61, 0x61)] {
                for (n, m) in [(0, tail), (tail, 0), (tail, tail), (tail / 2, tail)] {
                    let mk = |c: u32, n: usize, other: u32| -> V {
                        let mut v = pre.clone();
                        if n > 0 {
                            v.push(c);
                            v.extend((1..n).map(|k| other + k as u32 % 2));
                        }
                        v
                    };
                    check_order(st, &mk(c, n, 0x61), &mk(d, m, 0x65))?;
                    check_order(st, &mk(c, n, 0x65), &mk(d, m, 0x61))?;
                }
            }
            Ok(())
        });
    });
    // codes
    ctx.indexed("codes", "to_code, is_digit, to_int on every one-character string; from_code on every value of [0,0x2FFFF]", 0x30000 / 64, 16, |w, b| {
        for c in b as u32 * 64..b as u32 * 64 + 64 {
            w.case(c as u64, || format!("character {:#x}", c), |st| {
                st.states += 1;
                st.transitions += 4;
                let s = smt(&[c]);
                ensure!(str_to_code(&s) == c as i32, "str_to_code = {:#x}", str_to_code(&s));
                let d = (0x30..=0x39).contains(&c);
                ensure!(str_is_digit(&s) == d, "str_is_digit = {}", !d);
                check_to_int(st, &[c])?;
                check_to_int(st, &[0x31, c])?;
                check_to_int(st, &[c, 0x32])?;
                for v in [vec![c, c], vec![0x30, c], vec![c, 0x35]] {
                    let s = smt(&v);
                    ensure!(str_to_code(&s) == -1, "str_to_code({}) = {}", show(&v), str_to_code(&s));
                    ensure!(!str_is_digit(&s), "str_is_digit({})", show(&v));
                }
                check_from_code(st, c as i32)
            });
        }
    });
    ctx.indexed("codes-ints", "from_code around 0, 0x2FFFF, powers of two, i32 limits; empty string", 1, 1, |w, _| {
        w.case(0, || "from_code of critical integers".into(), |st| {
            ensure!(str_to_code(&EMPTY) == -1 && !str_is_digit(&EMPTY), "empty string");
            for p in 0..32 {
                for d in -20i64..=20 {
                    for s in [1, -1] {
                        let x = s * ((1i64 << p) + d);
                        if x >= i32::MIN as i64 && x <= i32::MAX as i64 {
                            check_from_code(st, x as i32)?;
                        }
                    }
                }
            }
            for x in 0x2FF00..0x40000 {
                check_from_code(st, x)?;
            }
            for x in [i32::MIN, i32::MIN + 1, i32::MAX] {
                check_from_code(st, x)?;
            }
            Ok(())
        });
    });
    // integers
    let sym: V = "019/: -+a\u{660}\u{ff15}".chars().map(|c| c as u32).collect();
    let k = sym.len() as u64;
    let l = t.pick(5, 6);
    ctx.indexed("to-int-texts", &format!("every string of length <= {} over digits and look-alikes", l), seq_count(k, l), 256, |w, i| {
        let s = word(&sym, i);
        w.case(i, || format!("str_to_int({})", show(&s)), |st| {
            st.states += 1;
            check_to_int(st, &s)
        });
    });
    let l = t.pick(5, 6);
    ctx.indexed("to-int-digits", &format!("every digit string of length <= {}", l), seq_count(10, l), 1024, |w, i| {
        let s: V = seq_decode(10, i).into_iter().map(|d| 0x30 + d as u32).collect();
        w.case(i, || format!("str_to_int({})", show(&s)), |st| {
            st.states += 1;
            check_to_int(st, &s)
        });
    });
    // around the limit, and values that wrap to something plausible
    let mut centers: Vec<u128> = vec![];
    for k in 1..=48u128 {
        centers.push(k << 31);
    }
    for e in 9..30 {
        centers.push(10u128.pow(e));
    }
    for p in 31..100 {
        centers.push(1u128 << p);
    }
    centers.extend([214748364, 214748365, 2147483639, 2147483640, 2147483649, 2999999999, 9999999999, 4772185884]);
    let nc = centers.len() as u64;
    let half = t.pick(600i128, 6000);
    ctx.indexed("to-int-limit", &format!("every integer within {} of {} critical values (multiples of 2^31, powers of 2 and 10), with 0, 1 or 12 leading zeros", half, nc), nc, 1, |w, i| {
        for d in -half..=half {
            let v = centers[i as usize] as i128 + d;
            if v < 0 { continue; }
            if w.stopping() { return; }
            w.case((d + half) as u64, || format!("str_to_int of {}", v), |st| {
                st.states += 1;
                let s = v.to_string();
                check_to_int(st, &digits(&s))?;
                if d % 10 == 0 || d.abs() < 15 {
                    check_to_int(st, &digits(&format!("0{}", s)))?;
                    check_to_int(st, &digits(&format!("000000000000{}", s)))?;
                }
                Ok(())
            });
        }
    });
    ctx.indexed("to-int-ten-digits", "all strings of 10 and 11 digits whose first 4 digits are arbitrary, 12 continuations", 10000, 64, |w, i| {
        w.case(i, || format!("10/11-digit strings starting with {:04}", i), |st| {
            st.states += 1;
            for tail in ["000000", "483646", "483647", "483648", "483649", "999999", "836470", "967295", "967296", "0000000", "4836470", "9999999"] {
                check_to_int(st, &digits(&format!("{:04}{}", i, tail)))?;
            }
            Ok(())
        });
    });
    ctx.indexed("to-int-nondigit", "digit strings of length 1..40 with one non-digit at every position", 40, 1, |w, n| {
        w.case(n, || format!("{} digits with one non-digit", n + 1), |st| {
            for d in ['0', '1', '9'] {
                for pos in 0..=n as usize {
                    for c in ['/', ':', 'a', '-', '\u{ff10}', '\u{130}', '\u{10030}'] {
                        let mut s = vec![d as u32; n as usize + 1];
                        s[pos] = c as u32;
                        check_to_int(st, &s)?;
                    }
                }
                check_to_int(st, &vec![d as u32; n as usize + 1])?;
            }
            Ok(())
        });
    });
    ctx.indexed("from-int", "from_int and to_int(from_int) on every multiple of 4999, all of [-2000, 20000] and all integers within 2000 of powers of 2 and 10", 64, 1, |w, b| {
        w.case(b, || format!("slice {} of 64", b), |st| {
            st.states += 1;
            let lo = i32::MIN as i64 + b as i64 * (1i64 << 26);
            let hi = lo + (1i64 << 26);
            let mut x = lo;
            while x < hi {
                check_from_int(st, x as i32)?;
                x += 4999;
            }
            if b == 0 {
                for x in -2000..20000 {
                    check_from_int(st, x)?;
                }
                let mut c: Vec<i64> = (0..=31).map(|p| 1i64 << p).collect();
                c.extend((1..10).map(|e| 10i64.pow(e)));
                for p in c {
                    for d in -2000..=2000 {
                        for s in [1, -1] {
                            let x = s * (p + d);
                            if x >= i32::MIN as i64 && x <= i32::MAX as i64 {
                                check_from_int(st, x as i32)?;
                            }
                        }
                    }
                }
            }
            Ok(())
        });
    });
    if t.thorough() {
        ctx.indexed("all-ints", "from_int/to_int round trip and from_code/to_code on all 2^32 integers", 1 << 14, 8, |w, b| {
            w.case(b, || format!("slice {} of 2^14", b), |st| {
                let lo = i32::MIN as i64 + (b as i64) * (1i64 << 18);
                for x in lo..lo + (1i64 << 18) {
                    let n = x as i32;
                    st.transitions += 3;
                    let s = str_from_int(n);
                    if n >= 0 {
                        let r = str_to_int(&s);
                        ensure!(r == n && s.as_ref()[0] >= 0x30 && (n == 0 || s.as_ref()[0] > 0x30), "from_int({}) = {}", n, s);
                    } else {
                        ensure!(s.is_empty(), "from_int({}) = {}", n, s);
                    }
                    let s = str_from_code(n);
                    if (0..=MAX as i32).contains(&n) {
                        ensure!(s.as_ref() == [n as u32] && str_to_code(&s) == n, "from_code({})", n);
                    } else {
                        ensure!(s.is_empty(), "from_code({}) = {}", n, s);
                    }
                }
                Ok(())
            });
        });
    }
    crate::huge::strings(ctx);
}

// ------------------------------------------------------------ C17

/// s is well formed and usable with every other function without panicking
fn check_usable(st: &mut Stats, s: &SmtString, what: &str) -> Result<(), String> {
    st.transitions += 1;
    ensure!(good(s), "{}: the result {:x?} is not well formed", what, content(s));
    let run = || -> Result<(), String> {
        let e = re::str_to_re(s);
        ensure!(re::str_in_re(s, e), "str_in_re(s, str_to_re(s)) is false");
        let d = s.to_string();
        let back = parse_smt_literal(&d[1..d.len() - 1].replace("\"\"", "\""));
        ensure!(back == *s, "printing {:?} does not read back", d);
        ensure!(str_len(s) as usize == s.len(), "str_len");
        ensure!(str_prefixof(s, s) && str_suffixof(s, s) && str_contains(s, s) && str_le(s, s) && !str_lt(s, s), "reflexive relations");
        for x in [
            str_concat(s, s), str_at(s, 0), str_substr(s, 0, 1), str_replace(s, s, s), str_replace_all(s, s, s),
            str_replace(s, &EMPTY, s), str_from_code(str_to_code(s)), re::str_replace_re(s, e, s), re::str_replace_re_all(s, e, s),
        ] {
            ensure!(good(&x), "derived string {:x?} is not well formed", content(&x));
        }
        str_is_digit(s);
        s.is_unicode();
        s.to_unicode_string();
        if s.len() < 9 {
            str_to_int(s);
        }
        if s.len() == 1 {
            let r = re::re_range(s, s);
            ensure!(re::str_in_re(s, r), "re_range(s, s)");
        }
        Ok(())
    };
    match no_panic(run) {
        Ok(r) => r.map_err(|e| format!("{}: s = {:x?}: {}", what, content(s), e)),
        Err(p) => Err(format!("{}: s = {:x?}: panic: {}", what, content(s), p)),
    }
}

fn check_int_ctor(st: &mut Stats, v: &[u32]) -> Result<(), String> {
    let e: V = v.iter().map(|&x| if x <= MAX { x } else { 0xFFFD }).collect();
    st.transitions += 2;
    for (name, s) in [("&[u32]", SmtString::from(v)), ("Vec<u32>", SmtString::from(v.to_vec()))] {
        ensure!(good(&s), "from {} {:x?} is not well formed", name, v);
        ensure!(content(&s) == e, "from {} {:x?} gives {:x?}", name, v, content(&s));
    }
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    let t = ctx.tier;
    // every Rust character through every text constructor
    ctx.indexed("rust-chars", "every Rust char (0..0x10FFFF) through from(char), from(&str), from(String), parse_smt_literal, alone and inside a string", 0x110000 / 256, 8, |w, b| {
        for c in b as u32 * 256..(b as u32 + 1) * 256 {
            let ch = match char::from_u32(c) { Some(ch) => ch, None => continue };
            w.case(c as u64, || format!("Rust character {:#x}", c), |st| {
                st.states += 1;
                st.transitions += 8;
                let s1 = SmtString::from(ch);
                let text = ch.to_string();
                let mid = format!("a{}\u{2ffff}{}", ch, ch);
                let all = [
                    ("from(char)", s1.clone()),
                    ("from(&str)", SmtString::from(text.as_str())),
                    ("from(String)", SmtString::from(text.clone())),
                    ("from(&str) inside", SmtString::from(mid.as_str())),
                    ("parse", parse_smt_literal(&text)),
                    ("parse inside", parse_smt_literal(&mid)),
                    ("parse after \\", parse_smt_literal(&format!("\\{}", ch))),
                    ("parse after \\u", parse_smt_literal(&format!("\\u{}", ch))),
                    ("parse after \\u{", parse_smt_literal(&format!("\\u{{{}", ch))),
                    ("parse after \\u{4", parse_smt_literal(&format!("\\u{{4{}}}", ch))),
                    ("parse after \\u00", parse_smt_literal(&format!("\\u00{}1", ch))),
                ];
                for (name, s) in &all {
                    ensure!(good(s), "{}: {:x?} is not well formed", name, content(s));
                }
                if c <= MAX {
                    ensure!(content(&all[0].1) == [c] && content(&all[1].1) == [c] && content(&all[2].1) == [c], "valid character changed");
                    ensure!(content(&all[3].1) == [0x61, c, 0x2FFFF, c], "valid character changed in {:x?}", content(&all[3].1));
                }
                // the result works with the other functions (all characters in the thorough tier)
                if t.thorough() || c % 16 == 0 || c > 0x2FFF0 && c < 0x30010 {
                    check_usable(st, &all[3].1, "from(&str)")?;
                    check_usable(st, &all[5].1, "parse")?;
                    check_usable(st, &s1, "from(char)")?;
                }
                Ok(())
            });
        }
    });
    // integers
    let mut wins: Vec<u32> = vec![];
    for p in 0..32 {
        for d in -3i64..=3 {
            let x = (1i64 << p) + d;
            if x >= 0 && x <= u32::MAX as i64 {
                wins.push(x as u32);
            }
        }
    }
    wins.extend([u32::MAX, u32::MAX - 1, u32::MAX - 0xFFFF, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFD, 0x2FFFE, 0x2FFFF, 0x30000, 0x30001, 0x10FFFF, 0x110000, 0x80000061]);
    wins.sort();
    wins.dedup();
    let nw = wins.len() as u64;
    ctx.indexed("int-ctors", &format!("from(u32), from(&[u32]), from(Vec), from(&[u32; N]) on all pairs of {} critical integers and all integers up to 0x120000", nw), nw + 0x120000 / 1024, 4, |w, i| {
        if i < nw {
            let x = wins[i as usize];
            for (j, &y) in wins.iter().enumerate() {
                w.case(j as u64, || format!("integers {:#x} {:#x}", x, y), |st| {
                    st.states += 1;
                    check_int_ctor(st, &[x, y])?;
                    check_int_ctor(st, &[0x61, x, y, 0x62])?;
                    let f = |x: u32| if x <= MAX { x } else { 0xFFFD };
                    let a = SmtString::from(&[x, y]);
                    ensure!(content(&a) == [f(x), f(y)], "from(&[u32; 2]) gives {:x?}", content(&a));
                    let a = SmtString::from(x);
                    ensure!(content(&a) == [f(x)] && good(&a), "from(u32) gives {:x?}", content(&a));
                    Ok(())
                });
            }
        } else {
            let b = (i - nw) as u32;
            w.case(i, || format!("integers {:#x}..", b * 1024), |st| {
                st.states += 1;
                for x in b * 1024..b * 1024 + 1024 {
                    st.transitions += 1;
                    let a = SmtString::from(x);
                    let e = if x <= MAX { x } else { 0xFFFD };
                    ensure!(content(&a) == [e] && good(&a), "from({:#x}) gives {:x?}", x, content(&a));
                    if x % 64 == 0 || (0x2FFF0..0x30010).contains(&x) {
                        check_usable(st, &a, "from(u32)")?;
                    }
                }
                Ok(())
            });
        }
    });
    let small = [0u32, 0x61, 0xD800, 0xFFFD, 0x2FFFF, 0x30000, 0x10FFFF, u32::MAX];
    let l = t.pick(5, 6);
    ctx.indexed("int-vectors", &format!("every vector of length <= {} over 8 integers, good and bad", l), seq_count(8, l), 256, |w, i| {
        let v: V = seq_decode(8, i).into_iter().map(|k| small[k]).collect();
        w.case(i, || format!("integers {:x?}", v), |st| {
            st.states += 1;
            check_int_ctor(st, &v)
        });
    });
    if t.thorough() {
        ctx.indexed("all-u32", "from(u32) on all 2^32 integers", 1 << 14, 8, |w, b| {
            w.case(b, || format!("slice {} of 2^14", b), |st| {
                for x in (b << 18)..((b + 1) << 18) {
                    let x = x as u32;
                    st.transitions += 1;
                    let a = SmtString::from(x);
                    let e = if x <= MAX { x } else { 0xFFFD };
                    ensure!(a.as_ref() == [e], "from({:#x}) gives {:x?}", x, content(&a));
                }
                Ok(())
            });
        });
    }
    // literals
    let sym = ['\\', 'u', '{', '}', '3', 'F', '0', '\u{30000}', '\u{10ffff}'];
    let l = t.pick(6, 7);
    ctx.indexed("literals", &format!("parse_smt_literal on every text of length <= {} over \\ u {{ }} 3 F 0 and two characters above 0x2FFFF", l), seq_count(9, l), 1024, |w, i| {
        let text: String = seq_decode(9, i).into_iter().map(|k| sym[k]).collect();
        w.case(i, || format!("literal {:?}", text), |st| {
            st.states += 1;
            st.transitions += 1;
            let s = parse_smt_literal(&text);
            ensure!(good(&s), "gives {:x?}", content(&s));
            if i % 61 == 0 {
                check_usable(st, &s, "literal")?;
            }
            Ok(())
        });
    });
    ctx.indexed("literal-escapes", "every brace escape of value 0..0xFFFFFF (6 digits) and every 4-digit escape", 0x1000000 / 4096, 8, |w, b| {
        w.case(b, || format!("escapes {:x}..", b * 4096), |st| {
            st.states += 1;
            for v in b * 4096..(b + 1) * 4096 {
                st.transitions += 1;
                let s = parse_smt_literal(&format!("\\u{{{:x}}}", v));
                ensure!(good(&s), "\\u{{{:x}}} gives {:x?}", v, content(&s));
                if v < 0x10000 {
                    let s = parse_smt_literal(&format!("\\u{:04x}", v));
                    ensure!(good(&s), "\\u{:04x} gives {:x?}", v, content(&s));
                }
            }
            Ok(())
        });
    });
    // operations on well-formed strings; code and integer conversions
    let alpha = [0u32, 0x39, 0xFFFF, 0x2FFFF];
    let l = 3;
    let n = seq_count(4, l);
    ctx.indexed("operations", &format!("every str_* function and regex replace on all triples of strings of length <= {} over 4 extreme characters", l), n * n, 64, |w, ij| {
        let (a, b) = (word(&alpha, ij / n), word(&alpha, ij % n));
        let (x, y) = (smt(&a), smt(&b));
        w.case(ij, || format!("s = {}, t = {}", show(&a), show(&b)), |st| {
            st.states += 1;
            let e = re::str_to_re(&y);
            let st_e = re::re_star(re::re_union(e, re::re_allchar()));
            for k in 0..n {
                let z = smt(&word(&alpha, k));
                st.transitions += 6;
                for r in [
                    str_replace(&x, &y, &z), str_replace_all(&x, &y, &z), re::str_replace_re(&x, e, &z), re::str_replace_re_all(&x, e, &z),
                    re::str_replace_re(&x, st_e, &z), re::str_replace_re_all(&x, st_e, &z),
                ] {
                    ensure!(good(&r), "with {}: result {:x?}", z, content(&r));
                }
            }
            for i in -2..5 {
                for j in -2..5 {
                    ensure!(good(&str_substr(&x, i, j)), "substr");
                }
                ensure!(good(&str_at(&x, i)), "at");
            }
            let c = str_concat(&x, &y);
            check_usable(st, &c, "str_concat")?;
            for i in [str_to_code(&x), str_len(&c), i32::MIN, i32::MAX, 0x2FFFF, 0x30000, -1] {
                ensure!(good(&str_from_code(i)) && good(&str_from_int(i)), "from_code/from_int {}", i);
            }
            Ok(())
        });
    });
    // get_string: well-formed witnesses for languages at the ends of the alphabet
    let pts = [0u32, 1, 0x22, 0x5C, 0x61, 0x7F, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFFFF, 0x10000, MAX - 1, MAX];
    let mut ivs = vec![];
    for (i, &a) in pts.iter().enumerate() {
        for &b in &pts[i..] {
            ivs.push((a, b));
        }
    }
    let nv = ivs.len() as u64;
    ctx.indexed("witnesses", "get_string on ranges, their complements, pairwise unions/intersections/concatenations of ranges with bounds in 14 critical characters, and their iterations", nv, 1, |w, i| {
        use aws_smt_strings::regular_expressions::ReManager;
        let mut m = ReManager::new();
        let r1 = m.range(ivs[i as usize].0, ivs[i as usize].1);
        for (j, &(a, b)) in ivs.iter().enumerate() {
            w.case(j as u64, || format!("ranges {:x?} {:x?}", ivs[i as usize], (a, b)), |st| {
                st.states += 1;
                let r2 = m.range(a, b);
                let all = m.all_chars();
                let c1 = m.complement(r1);
                let c2 = m.complement(r2);
                let mut list = vec![r1, c1, m.inter(c1, all), m.union(r1, r2), m.inter(r1, r2), m.concat(r1, r2)];
                let x = m.inter_list([c1, c2, all]);
                list.extend([x, m.plus(x), m.concat(x, r1), m.exp(x, 3), m.diff(r1, r2), m.smt_loop(x, 2, 4)]);
                for e in list {
                    st.transitions += 1;
                    if let Some(s) = m.get_string(e) {
                        ensure!(good(&s), "get_string({}) = {:x?}", e, content(&s));
                        let q = m.str(&s);
                        ensure!(m.str_in_re(&s, q) && m.str_in_re(&s, e), "get_string({}) = {} cannot be used", e, s);
                    }
                }
                Ok(())
            });
        }
    });
    ctx.indexed("length-limit", "a string of the maximal length 2^31-1 is accepted and well formed; one more character is refused", 1, 1, |w, _| {
        w.case(0, || "vector of i32::MAX zeros".into(), |_st| {
            // zero pages: no memory is committed
            let v = vec![0u32; i32::MAX as usize];
            let s = SmtString::from(v);
            ensure!(s.is_good(), "is_good() is false for a string of length MAX_LENGTH");
            ensure!(str_len(&s) == i32::MAX, "str_len");
            Ok(())
        });
    });
    crate::huge::strings(ctx);
}
