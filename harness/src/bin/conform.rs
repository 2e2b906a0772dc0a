//! Runs the assumed contracts of specs/trusted.rs, specs/stdlib.rs and specs/heapless.rs against the library functions they describe, on
//! bounded inputs.  This tests assumptions of the proofs; it proves nothing.
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};

struct Fed(Vec<u8>);
impl Hasher for Fed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
/// the encoding of a character, by the table of RFC 3629
fn enc(c: u32) -> Vec<u8> {
    match c {
        0..=0x7f => vec![c as u8],
        0x80..=0x7ff => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
        0x800..=0xffff => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
    }
}
/// the characters of bytes that are valid UTF-8
fn dec(b: &[u8]) -> Option<Vec<u32>> {
    let (mut i, mut out) = (0, vec![]);
    while i < b.len() {
        let (n, c) = match b[i] {
            x @ 0..=0x7f => (1, x as u32),
            x @ 0xc0..=0xdf => (2, x as u32 & 31),
            x @ 0xe0..=0xef => (3, x as u32 & 15),
            x @ 0xf0..=0xf7 => (4, x as u32 & 7),
            _ => return None,
        };
        let mut c = c;
        for k in 1..n {
            let x = *b.get(i + k)?;
            if x & 0xc0 != 0x80 {
                return None;
            }
            c = c << 6 | (x & 63) as u32;
        }
        if c > 0x10ffff || (0xd800..0xe000).contains(&c) || enc(c).len() != n {
            return None;
        }
        out.push(c);
        i += n;
    }
    Some(out)
}
/// specs/stdlib.rs
fn stdlib() -> u64 {
    use std::cmp::Ordering::{self, *};
    let hex = |b: u32| (48..=57).contains(&b) || (65..=70).contains(&b) || (97..=102).contains(&b);
    let low = |b: u8| if (65..=90).contains(&b) { b + 32 } else { b };
    let up = |b: u8| if (97..=122).contains(&b) { b - 32 } else { b };
    let mut n = 0;
    for b in 0..=255u8 {
        let (lower, upper, digit) = (97 <= b && b <= 122, 65 <= b && b <= 90, 48 <= b && b <= 57);
        assert_eq!(b.is_ascii(), b < 128);
        assert_eq!(b.is_ascii_hexdigit(), hex(b as u32));
        assert_eq!(b.is_ascii_whitespace(), [32, 9, 10, 12, 13].contains(&b));
        assert_eq!(b.is_ascii_control(), b < 32 || b == 127);
        assert_eq!(b.is_ascii_graphic(), 33 <= b && b <= 126);
        assert_eq!((b.is_ascii_lowercase(), b.is_ascii_uppercase()), (lower, upper));
        assert_eq!((b.is_ascii_alphabetic(), b.is_ascii_alphanumeric()), (lower || upper, lower || upper || digit));
        assert_eq!((b.to_ascii_lowercase(), b.to_ascii_uppercase()), (low(b), up(b)));
        for c in 0..=255u8 {
            assert_eq!(b.eq_ignore_ascii_case(&c), low(b) == low(c));
        }
        n += 266;
    }
    for c in '\0'..=char::MAX {
        let v = c as u32;
        assert_eq!(c.is_ascii(), v < 128);
        assert_eq!(c.is_ascii_digit(), 48 <= v && v <= 57);
        assert_eq!(c.is_ascii_hexdigit(), hex(v));
        assert_eq!(c.is_ascii_control(), v < 32 || v == 127);
        assert_eq!(c.is_control(), v < 32 || 127 <= v && v <= 159);
        n += 5;
    }
    let edge = [0, 1, 2, 7, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
    let wrap = |d: i128| {
        let m = 1i128 << 64;
        (d.rem_euclid(m) as usize, d < 0 || d >= m)
    };
    for a in edge {
        for b in edge {
            assert_eq!(a.overflowing_add(b), wrap(a as i128 + b as i128));
            assert_eq!(a.overflowing_sub(b), wrap(a as i128 - b as i128));
            assert_eq!(a.abs_diff(b) as i128, (a as i128 - b as i128).abs());
            n += 3;
        }
    }
    let all: [Ordering; 3] = [Less, Equal, Greater];
    for o in all {
        for p in all {
            assert_eq!(o.then(p), if o == Equal { p } else { o });
        }
        assert_eq!((o.is_eq(), o.is_ne(), o.is_lt(), o.is_gt(), o.is_le(), o.is_ge()), (o == Equal, o != Equal, o == Less, o == Greater, o != Greater, o != Less));
        n += 9;
    }
    let opts = [None, Some(1u8), Some(2)];
    for o in opts {
        let (mut a, mut b, mut d) = (7u8, o, 7u8);
        assert_eq!((std::mem::replace(&mut a, 3), a), (7, 3));
        assert_eq!((std::mem::take(&mut d), d), (7, u8::default()));
        assert_eq!((b.replace(9), b), (o, Some(9)));
        assert_eq!(o.as_ref().copied(), o);
        for p in opts {
            assert_eq!(o.or(p), if o.is_some() { o } else { p });
            assert_eq!(o.or_else(|| p), if o.is_some() { o } else { p });
            assert_eq!(o.and(p), if o.is_some() { p } else { None });
            assert_eq!(o.xor(p), match (o, p) { (Some(_), None) => o, (None, Some(_)) => p, _ => None });
            n += 4;
        }
        let f = |x: u8| x == 1;
        assert_eq!(o.is_some_and(f), o == Some(1));
        assert_eq!(o.is_none_or(f), o != Some(2));
        assert_eq!(o.map_or(5, |x| x + 1), match o { Some(x) => x + 1, None => 5 });
        assert_eq!(o.map_or_else(|| 5, |x| x + 1), match o { Some(x) => x + 1, None => 5 });
        assert_eq!(o.filter(|x| *x == 1), if o == Some(1) { o } else { None });
        n += 9;
    }
    for r in [Ok(1u8), Ok(2), Err('a')] {
        assert_eq!(r.unwrap_or(7), match r { Ok(x) => x, Err(_) => 7 });
        assert_eq!(r.and_then(|x| if x == 1 { Ok(8u16) } else { Err('b') }), match r { Ok(1) => Ok(8), Ok(_) => Err('b'), Err(e) => Err(e) });
        assert_eq!(r.or_else(|e| if e == 'a' { Ok(3) } else { Err(e) }), match r { Ok(x) => Ok::<u8, char>(x), Err(_) => Ok(3) });
        n += 3;
    }
    let mut s = String::from("aé");
    s.reserve(100);
    assert_eq!(s, "aé");
    n + 1
}
fn strings() -> Vec<String> {
    let cs = ['\0', 'a', 'b', '~', '\u{7f}', '\u{80}', 'é', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}'];
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..3 {
        last = last.iter().flat_map(|s| cs.iter().map(move |c| format!("{s}{c}"))).collect();
        v.extend(last.iter().cloned());
    }
    v
}
/// a destination that refuses its n-th write
struct Full(String, usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push_str(s);
        self.1 = self.1.checked_sub(1).ok_or(std::fmt::Error)?;
        Ok(())
    }
}
struct Three;
impl std::fmt::Display for Three {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("ab")?;
        f.write_char('é')?;
        f.write_str("c")
    }
}

fn main() {
    let mut n = 0u64;
    // char::from_u32, encode_utf8, len_utf8, u8::try_from(char), from_utf8 of one character
    for c in (0..0x11_0100u32).chain([u32::MAX]) {
        let ok = c < 0xd800 || (0xe000..=0x10ffff).contains(&c);
        assert_eq!(char::from_u32(c).is_some(), ok);
        if let Some(ch) = char::from_u32(c) {
            assert_eq!(ch as u32, c);
            assert_eq!(ch.encode_utf8(&mut [0; 4]).as_bytes(), enc(c));
            assert_eq!(u8::try_from(ch).ok(), (c < 256).then_some(c as u8));
            assert_eq!(ch.len_utf8(), enc(c).len());
        }
        n += 4;
    }
    // from_utf8: all runs of up to three bytes, and runs of four and five around the boundaries
    let check = |b: &[u8]| assert_eq!(std::str::from_utf8(b).ok().map(|s| s.chars().map(|c| c as u32).collect::<Vec<_>>()), dec(b));
    let edge = [0u8, 0x22, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff];
    for a in 0..=255u8 {
        check(&[a]);
        for b in 0..=255u8 {
            check(&[a, b]);
            for c in edge {
                check(&[a, b, c]);
                for d in [0x7f, 0x80, 0xbf, 0xc2] {
                    check(&[a, b, c, d]);
                    n += 1;
                }
            }
        }
    }
    // order, hash, characters with their positions, size_hint
    let all = strings();
    for s in &all {
        let cs: Vec<char> = s.chars().collect();
        let bytes: Vec<u8> = cs.iter().flat_map(|c| enc(*c as u32)).collect();
        assert_eq!(s.as_bytes(), bytes);
        let mut f = Fed(vec![]);
        s.as_str().hash(&mut f);
        assert_eq!(f.0, [bytes.as_slice(), &[0xff]].concat());
        let (mut pos, mut it) = (0, s.char_indices());
        for c in &cs {
            assert_eq!(it.clone().next(), Some((pos, *c)));
            assert_eq!(it.next(), Some((pos, *c)));
            pos += enc(*c as u32).len();
        }
        assert_eq!((it.next(), it.next()), (None, None));
        let mut it = s.chars();
        for left in (0..=cs.len()).rev() {
            let (lo, hi) = it.size_hint();
            assert!(lo <= left && left <= hi.unwrap());
            it.next();
        }
        assert_eq!(s.chars().collect::<String>(), *s);
        let mut t = String::from("x");
        t.extend(s.chars());
        assert_eq!(t, format!("x{s}"));
        n += 6;
    }
    for a in all.iter().step_by(3) {
        for b in all.iter().step_by(5) {
            let (x, y): (Vec<u32>, Vec<u32>) = (a.chars().map(|c| c as u32).collect(), b.chars().map(|c| c as u32).collect());
            assert_eq!(a.as_str().cmp(b.as_str()), x.cmp(&y));
            assert_eq!(a.as_str().partial_cmp(b.as_str()), Some(x.cmp(&y)));
            assert_eq!(a == b, x == y);
            n += 3;
        }
    }
    // hexadecimal digits
    for v in 0..=0xffffu32 {
        for s in [format!("{v:04x}"), format!("{v:04X}")] {
            assert_eq!(u32::from_str_radix(&s, 16), Ok(v));
            n += 1;
        }
    }
    for b in 0..=255u8 {
        assert_eq!(b.is_ascii_digit(), (48..=57).contains(&b));
    }
    n += stdlib();
    // write!: the formatter hands on every write and stops at the first that fails
    for k in 0..5 {
        let (mut a, mut b) = (Full(String::new(), k), Full(String::new(), k));
        let r = write!(a, "{}", Three);
        let q = b.write_str("ab").and_then(|()| b.write_char('é')).and_then(|()| b.write_str("c"));
        assert_eq!((r, a.0), (q, b.0));
        n += 1;
    }
    // vectors: first item that passes, get_mut, heapless::Vec
    let v = vec![3, 1, 4, 1, 5];
    for x in 0..7 {
        assert_eq!(v.iter().find_map(|y| (*y == x).then_some(*y)), v.contains(&x).then_some(x));
        let mut w = v.clone();
        if let Some(y) = w.iter_mut().find(|y| **y == x) {
            *y = 9;
        }
        let mut u = v.clone();
        if let Some(i) = v.iter().position(|y| *y == x) {
            u[i] = 9;
        }
        assert_eq!(w, u);
        assert_eq!(w.get_mut(x).is_some(), x < 5);
        n += 3;
    }
    capacity::<0>();
    capacity::<1>();
    capacity::<2>();
    capacity::<7>();
    println!("{n} comparisons of assumed contracts with the library");
}
fn capacity<const N: usize>() {
    let mut v = heapless::Vec::<String, N>::default();
    assert!(v.is_empty());
    for i in 0..N + 2 {
        let before: Vec<String> = v.iter().cloned().collect();
        let r = v.push(i.to_string());
        if i < N {
            assert_eq!(r, Ok(()));
            assert_eq!(v.as_slice(), [before, vec![i.to_string()]].concat());
            assert_eq!(AsRef::<[String]>::as_ref(&v), v.as_slice());
            AsMut::<[String]>::as_mut(&mut v)[i].push('x');
            assert_eq!(v[i], format!("{i}x"));
        } else {
            assert_eq!(r, Err(i.to_string()));
            assert_eq!(v.as_slice(), before);
        }
    }
    let want: Vec<String> = v.iter().cloned().collect();
    assert_eq!(v.into_iter().collect::<Vec<_>>(), want);
}
