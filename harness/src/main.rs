//! Bounded search for an input on which the real library breaks a property.
//!   search PROPERTY --tier quick|thorough --seed N     enumerate and sample, exit 1 on the first failing input
//!   search PROPERTY --case HEX                         one input
//! The last line is a JSON summary.
mod checks;
mod oracle;
use checks::*;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

type Check = fn(&[u8]) -> R;
const THREADS: usize = 8;

pub struct Rng(u64);
impl Rng {
    fn new(s: u64) -> Self {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        r.next();
        r
    }
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// hands each thread its share of an enumeration
struct Out<'c> {
    me: usize,
    n: usize,
    f: &'c mut dyn FnMut(&[u8]),
}
impl Out<'_> {
    fn put(&mut self, b: &[u8]) {
        if self.n % THREADS == self.me {
            (self.f)(b);
        }
        self.n += 1;
    }
    /// all sequences of at most `max` symbols
    fn words(&mut self, sym: &[&[u8]], max: usize, pre: &[u8], post: &[u8]) {
        let mut idx = vec![];
        for len in 0..=max {
            idx.clear();
            idx.resize(len, 0usize);
            loop {
                if self.n % THREADS == self.me {
                    let mut b = pre.to_vec();
                    idx.iter().for_each(|i| b.extend_from_slice(sym[*i]));
                    b.extend_from_slice(post);
                    (self.f)(&b);
                }
                self.n += 1;
                let mut k = len;
                while k > 0 {
                    k -= 1;
                    idx[k] += 1;
                    if idx[k] < sym.len() {
                        break;
                    }
                    idx[k] = 0;
                    if k == 0 {
                        k = usize::MAX;
                        break;
                    }
                }
                if len == 0 || k == usize::MAX {
                    break;
                }
            }
        }
    }
}

// ------------------------------------------------------------------ domains
const TOKENS: [&[u8]; 12] = [b"{", b"}", b"[", b"]", b",", b":", b"\"a\"", b"\"\\n\"", b"1", b"true", b"null", b" "];
const CHARS: [&[u8]; 24] = [
    b"\"", b"\\", b"u", b"0", b"d", b"D", b"8", b"9", b"C", b"c", b"b", b"n", b"/", b"f", b"\x1f", b"\x7f", b"\x07", "é".as_bytes(), "\u{80}".as_bytes(), "😀".as_bytes(), b"\xc3", b"\xa9", b"\xff", b"\x08",
];
const NUMS: [&[u8]; 9] = [b"-", b"+", b"0", b"1", b"9", b".", b"e", b"E", b" "];
const TEMPLATES: [&str; 12] = [
    r#"{"a":1,"b":[true,false,null],"c":{"d":"x\n"}}"#,
    r#" [ 1 , "a" , { } , [ ] ] "#,
    r#"["\u00e9\ud83d\ude00\"\\\/\b\f\n\r\t","é😀"]"#,
    r#"{"k":{"k":{"k":[]}},"k":2}"#,
    r#"-12.5e+3"#,
    r#"[0,-0,1.0,1e5,1E-5,10]"#,
    r#""plain""#,
    r#"true"#,
    r#"[[1,2],[3],[],[[4]]]"#,
    r#"{"":"","a":"\u0061","\u0061":"b"}"#,
    "\t{\r\n \"x\" : [ ] }\n",
    r#"[{"a":[{"b":null}]},"\ud834\udd1e"]"#,
];
fn docs(o: &mut Out<'_>, deep: bool) {
    o.words(&TOKENS, if deep { 6 } else { 5 }, b"", b"");
    // inside containers, so that longer structures are reached
    o.words(&TOKENS, if deep { 5 } else { 4 }, b"[1,", b"]");
    o.words(&TOKENS, if deep { 5 } else { 4 }, b"{\"k\":1,", b"}");
    o.words(&TOKENS, if deep { 5 } else { 4 }, b"[{\"k\":", b"}]");
    o.words(&TOKENS, if deep { 4 } else { 3 }, b"[[{\"k\":[1],\"l\":{}},", b",2");
}
fn raw_bytes(o: &mut Out<'_>) {
    for a in 0..=255u8 {
        o.put(&[a]);
        for b in 0..=255u8 {
            o.put(&[a, b]);
        }
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            o.put(&[b'"', a, b, b'"']);
        }
    }
}
fn edits(o: &mut Out<'_>) {
    for t in TEMPLATES {
        let t = t.as_bytes();
        for i in 0..=t.len() {
            o.put(&t[..i]);
            o.put(&t[i..]);
            for c in 0..=255u8 {
                let mut b = t.to_vec();
                b.insert(i, c);
                o.put(&b);
                if i < t.len() {
                    b = t.to_vec();
                    b[i] = c;
                    o.put(&b);
                }
            }
            if i < t.len() {
                let mut b = t.to_vec();
                b.remove(i);
                o.put(&b);
            }
            for ws in [" ", "\t", "\r\n", "  \n\t "] {
                let mut b = t[..i].to_vec();
                b.extend_from_slice(ws.as_bytes());
                b.extend_from_slice(&t[i..]);
                o.put(&b);
            }
        }
    }
}
/// string bodies; `wrap` makes an input of a body
fn bodies(o: &mut Out<'_>, deep: bool, pre: &[u8], post: &[u8]) {
    o.words(&CHARS, if deep { 4 } else { 3 }, pre, post);
    // every four-digit escape, in both letter cases, alone and in company
    for v in 0..=0xFFFFu32 {
        for s in [format!("\\u{v:04x}"), format!("\\u{v:04X}"), format!("é\\u{v:04x}z")] {
            let mut b = pre.to_vec();
            b.extend_from_slice(s.as_bytes());
            b.extend_from_slice(post);
            o.put(&b);
        }
    }
    // surrogate pairs: every high with some lows, every low with some highs
    let hi = [0xD800, 0xD801, 0xD83D, 0xDBFE, 0xDBFF, 0xD834, 0xD840, 0xD7FF, 0xDC00];
    let lo = [0xDC00, 0xDC01, 0xDE39, 0xDFFE, 0xDFFF, 0xDBFF, 0xE000, 0x0041, 0xDD1E];
    let pair = |h: u32, l: u32, o: &mut Out<'_>| {
        let s = if (h ^ l) & 1 == 0 { format!("\\u{h:04x}\\u{l:04X}") } else { format!("x\\u{h:04X}\\u{l:04x}\u{1F600}\\n") };
        let mut b = pre.to_vec();
        b.extend_from_slice(s.as_bytes());
        b.extend_from_slice(post);
        o.put(&b);
    };
    for h in 0xD7FF..=0xDC00u32 {
        lo.iter().for_each(|l| pair(h, *l, o));
    }
    for l in 0xDBFF..=0xE000u32 {
        hi.iter().for_each(|h| pair(*h, l, o));
    }
    // every character verbatim
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32) {
        let v = c as u32;
        if v < 0x3000 || v % if deep { 3 } else { 37 } == 0 || (0xD700..0xE100).contains(&v) || v & 0xFFFF < 4 || v & 0xFFFF > 0xFFFC || v >= 0x10FFF0 {
            let mut b = pre.to_vec();
            b.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
            b.extend_from_slice(post);
            o.put(&b);
        }
    }
}
fn numbers(o: &mut Out<'_>, deep: bool, pre: &[u8], post: &[u8]) {
    o.words(&NUMS, if deep { 7 } else { 6 }, pre, post);
    for s in [
        "127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
        "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "170141183460469231731687303715884105727",
        "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "340282366920938463463374607431768211455",
        "340282366920938463463374607431768211456", "1e400", "-1e400", "1e-400", "1.7976931348623157e308", "3.4028235e38", "3.5e38", "0.1", "16777217", "9007199254740993", "1.0", "1e0", "-0", "-0.0", "0e0", "100000000000000000000000000000000000000000000000",
    ] {
        for t in ["", " ", ",", "x", "]", "0", "."] {
            let mut b = pre.to_vec();
            b.extend_from_slice(s.as_bytes());
            b.extend_from_slice(t.as_bytes());
            b.extend_from_slice(post);
            o.put(&b);
        }
    }
    // halfway between neighbouring floats, and just beside that
    let mut mids = vec![];
    for bits in [0x3f80_0000u32, 0x3f80_0001, 0x3f00_0001, 0x4b80_0000, 0x4b80_0001, 0x7f7f_fffe, 0x0080_0000, 0x0000_0001, 0x3dcc_cccc, 0x5f80_0001] {
        let (a, z) = (f32::from_bits(bits), f32::from_bits(bits + 1));
        mids.push(format!("{}", (f64::from(a) + f64::from(z)) / 2.0));
    }
    mids.extend(["9007199254740993", "9007199254740995", "1.00000000000000011102230246251565404236316680908203125"].map(String::from));
    for m in mids {
        let (dot, zeros) = (if m.contains('.') { "" } else { "." }, "0".repeat(30));
        let down = {
            let mut d = m.clone().into_bytes();
            match d.last_mut() {
                Some(x) if *x > b'0' && m.contains('.') => *x -= 1,
                _ => {}
            }
            String::from_utf8(d).unwrap() + dot + &"9".repeat(30)
        };
        for t in [m.clone(), format!("-{m}"), format!("{m}{dot}{zeros}1"), format!("{m}{dot}{zeros}"), down, format!("{m}{dot}{zeros}1e0"), format!("-{m}{dot}{zeros}1")] {
            let mut b = pre.to_vec();
            b.extend_from_slice(t.as_bytes());
            b.extend_from_slice(post);
            o.put(&b);
        }
    }
    // the digit that decides comes late
    for n in [100, 300, 500, 700, 767, 768, 769, 770, 800, 1000, 1100, 2000, 5000].into_iter().chain(near_hints().iter().map(|x| x.0)) {
        for m in ["9007199254740993.", "0.50000000000000005551115123125782702118158340454101562", "16777217.", "0"] {
            for t in ["1", "0", "4", "6", "51", "1e-5", "0e3"] {
                let b = [pre, m.as_bytes(), if m == "0" { b"." } else { b"" as &[u8] }, "0".repeat(n).as_bytes(), t.as_bytes(), post].concat();
                o.put(&b);
            }
            let b = [pre, m.as_bytes(), "0".repeat(n).as_bytes(), post].concat();
            o.put(&b);
        }
        for t in ["", ".5", "e-5", ".0e-309"] {
            let b = [pre, b"1", "0".repeat(n).as_bytes(), t.as_bytes(), post].concat();
            o.put(&b);
            o.put(&[pre, "9".repeat(n).as_bytes(), t.as_bytes(), post].concat());
            o.put(&[pre, b"0.", "0".repeat(n).as_bytes(), b"1e", n.to_string().as_bytes(), post].concat());
        }
    }
}
/// decimals whose digits and exponents go beyond what one float or one machine word holds
fn decimals(o: &mut Out<'_>, seed: u64, n: usize) {
    let mut r = Rng::new(seed ^ 0xdec ^ ((o.me as u64) << 32));
    for _ in 0..n {
        let mut s = String::new();
        if r.one_in(4) {
            s.push('-');
        }
        let len = match r.below(5) {
            0 => 1 + r.below(5),
            1 => 7 + r.below(4),
            2 => 30 + r.below(20),
            _ => 15 + r.below(7),
        };
        let mut d: Vec<u8> = (0..len).map(|_| b'0' + r.below(10) as u8).collect();
        if r.one_in(3) {
            // few significant digits and many zeros, or a run of nines
            let (keep, fill) = (1 + r.below(len), if r.one_in(2) { b'0' } else { b'9' });
            d[keep..].iter_mut().for_each(|x| *x = fill);
            if r.one_in(2) {
                d[len - 1] = b'0' + r.below(10) as u8;
            }
        }
        let point = if r.one_in(3) { len } else { r.below(len + 1) };
        match point {
            0 => s.push_str("0."),
            _ if d[0] == b'0' && point > 1 => d[0] = b'1',
            _ => {}
        }
        s.push_str(std::str::from_utf8(&d[..point]).unwrap());
        if point > 0 && point < len {
            s.push('.');
        }
        s.push_str(std::str::from_utf8(&d[point..]).unwrap());
        if r.one_in(2) {
            let e = match r.below(4) {
                0 => r.below(400) as i64 - 200,
                1 => [-324, -323, -308, -307, 308, 307, 309, -45, -38, 38, 39, 22, 23, -22, -23][r.below(15)] - if r.one_in(2) { point as i64 } else { 0 },
                _ => r.below(50) as i64 - 25,
            };
            s.push_str(&match r.below(3) {
                0 => format!("e{e:+}"),
                1 => format!("E{e}"),
                _ => format!("e{}{:03}", if e < 0 { "-" } else { "" }, e.abs()),
            });
        }
        (o.f)(s.as_bytes());
    }
}
/// long runs of one kind of byte with another one somewhere in it: what code that looks at several bytes at once gets wrong
const RUNS: [usize; 14] = [3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 25, 32, 33, 40];
fn runs(o: &mut Out<'_>, fill: &[&[u8]], pre: &[u8], post: &[u8]) {
    for unit in fill {
        for n in RUNS {
            for at in 0..n {
                for c in 0..=255u8 {
                    let mut b = pre.to_vec();
                    (0..n).for_each(|i| if i == at { b.push(c) } else { b.push(unit[i % unit.len()]) });
                    b.extend_from_slice(post);
                    o.put(&b);
                }
            }
        }
    }
}
/// deeper than the default limit
fn depths(o: &mut Out<'_>) {
    for n in [129, 140, 200, 254, 255, 256, 257, 300, 511, 512, 513, 600] {
        for (x, y) in [("[", "]"), ("{\"k\":", "}"), ("[1,{\"k\":", "},2]"), ("[[],", ",{}]")] {
            for core in ["", "1", "{}", "[]", "\"a\\n\""] {
                let m = if x.len() > 6 { n / 2 } else { n };
                o.put(format!("{}{core}{}", x.repeat(m), y.repeat(m)).as_bytes());
                o.put(format!("[{}{core}{},1]", x.repeat(m), y.repeat(m)).as_bytes());
            }
        }
    }
}
fn nests(o: &mut Out<'_>, deep: bool) {
    let mut ns = vec![1, 2, 3, 4, 5, 6, 126, 127, 128, 129, 130];
    if deep {
        ns.extend([255, 256, 257, 2000]);
    }
    for n in ns {
        for style in 0..6 {
            let (mut a, mut z) = (Vec::new(), Vec::new());
            for i in 0..n {
                let arr = match style {
                    0 => true,
                    1 => false,
                    2 => i % 2 == 0,
                    3 => i % 3 == 0,
                    _ => i % 2 == 1,
                };
                let (p, q): (&[u8], &[u8]) = match (arr, style) {
                    (true, 4) => (b"[[],{},1,", b",[]]"),
                    (false, 4) => (b"{\"s\":[{}],\"k\":", b",\"t\":{}}"),
                    (true, 5) => (b"[ ", b" ,\n]"),
                    (false, 5) => (b"{\"k\": ", b",}"),
                    (true, _) => (b"[", b"]"),
                    (false, _) => (b"{\"k\":", b"}"),
                };
                a.extend_from_slice(p);
                z.splice(0..0, q.iter().copied());
            }
            for core in ["", "1", "[]", "{}", "\"\\n\"", ":", "[[],[],{}]", "\x01"] {
                let mut b = a.clone();
                b.extend_from_slice(core.as_bytes());
                o.put(&b);
                b.extend_from_slice(&z);
                o.put(&b);
                b.pop();
                o.put(&b);
                b.push(b'x');
                o.put(&b);
            }
        }
    }
}
fn gen_str(r: &mut Rng, out: &mut Vec<u8>) {
    for _ in 0..if r.one_in(30) { r.below(90) } else { r.below(7) } {
        match r.below(12) {
            0 => out.extend_from_slice(*r.pick(&[&b"\\\""[..], b"\\\\", b"\\/", b"\\b", b"\\f", b"\\n", b"\\r", b"\\t"])),
            1 => {
                let c = r.below(0xD800);
                out.extend_from_slice(if r.one_in(2) { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") }.as_bytes());
            }
            2 => {
                let c = *r.pick(&[0x41, 0x61, 0x20, 0, 7, 8, 0xA, 0x1F, 0x22, 0x5C, 0x7F, 0x80, 0xFF, 0x100, 0x7FF, 0x800, 0xE000, 0xFFFF]);
                out.extend_from_slice(if r.one_in(2) { format!("\\u{c:04x}") } else { format!("\\u{c:04X}") }.as_bytes());
            }
            3 => {
                let (h, l) = (0xD800 + r.below(0x400), 0xDC00 + r.below(0x400));
                out.extend_from_slice(format!("\\u{h:04x}\\u{l:04x}").as_bytes());
            }
            4 => out.extend_from_slice(r.pick(&["é", "€", "😀", "\u{80}", "\u{7ff}", "\u{ffff}", "\u{10ffff}", "\u{7f}"]).as_bytes()),
            5 => out.push(b' ' + r.below(2) as u8),
            _ => out.extend_from_slice(*r.pick(&[&b"a"[..], b"b", b"k", b"u", b"n", b"/", b"0", b"z"])),
        }
    }
}
fn gen_ws(r: &mut Rng, out: &mut Vec<u8>) {
    if r.one_in(6) {
        for _ in 0..1 + r.below(3) {
            out.push(*r.pick(b" \n\r\t"));
        }
    }
}
fn gen_doc(r: &mut Rng, out: &mut Vec<u8>, fuel: usize, keys: &mut Vec<Vec<u8>>) {
    gen_ws(r, out);
    match if fuel == 0 { r.below(6) } else { r.below(12) } {
        0 => out.extend_from_slice(b"null"),
        1 => out.extend_from_slice(b"true"),
        2 => out.extend_from_slice(b"false"),
        3 => out.extend_from_slice(r.pick(&["0", "-1", "12", "1.5", "-0", "2e3", "1E-2", "255", "256", "123456789012345678901234567890"]).as_bytes()),
        4 | 5 => {
            out.push(b'"');
            gen_str(r, out);
            out.push(b'"');
        }
        6..=8 => {
            out.push(b'[');
            let n = if r.one_in(40) { r.below(30) } else { r.below(4) };
            for i in 0..n {
                gen_doc(r, out, fuel - 1, keys);
                if i + 1 < n || r.one_in(25) {
                    out.push(b',');
                }
            }
            gen_ws(r, out);
            out.push(b']');
        }
        _ => {
            out.push(b'{');
            let n = if r.one_in(40) { r.below(20) } else { r.below(4) };
            for i in 0..n {
                gen_ws(r, out);
                out.push(b'"');
                if !keys.is_empty() && r.one_in(3) {
                    out.extend_from_slice(r.pick(keys));
                } else {
                    let p = out.len();
                    gen_str(r, out);
                    let k = out[p..].to_vec();
                    keys.push(k);
                }
                out.push(b'"');
                gen_ws(r, out);
                out.push(b':');
                gen_doc(r, out, fuel - 1, keys);
                gen_ws(r, out);
                if i + 1 < n || r.one_in(25) {
                    out.push(b',');
                }
            }
            gen_ws(r, out);
            out.push(b'}');
        }
    }
    gen_ws(r, out);
}
fn randoms(o: &mut Out<'_>, seed: u64, n: usize, mutate: bool) {
    let mut r = Rng::new(seed ^ ((o.me as u64) << 32));
    for _ in 0..n / THREADS {
        let mut b = vec![];
        let fuel = 1 + r.below(5);
        gen_doc(&mut r, &mut b, fuel, &mut vec![]);
        (o.f)(&b);
        if mutate {
            for _ in 0..3 {
                let mut c = b.clone();
                for _ in 0..1 + r.below(2) {
                    let i = r.below(c.len() + 1);
                    match r.below(5) {
                        0 if i < c.len() => {
                            c.remove(i);
                        }
                        1 => c.insert(i, *r.pick(b"{}[]:,\"\\ \n019.eE+-utfnab\x00\x07\x1f\x7f\x80\xbf\xc2\xe2\xf0\xff")),
                        2 if i < c.len() => c[i] = *r.pick(b"{}[]:,\"\\ \n019.eE+-utfnab\x00\x07\x1f\x7f\x80\xbf\xc2\xe2\xf0\xff"),
                        3 => c.truncate(i),
                        _ => {
                            let j = r.below(c.len() + 1);
                            let piece = c[i.min(j)..i.max(j)].to_vec();
                            c.splice(i..i, piece);
                        }
                    }
                }
                if c.len() < 1500 {
                    (o.f)(&c);
                }
            }
        }
    }
}
fn texts(o: &mut Out<'_>, seed: u64, deep: bool) {
    const P: [&str; 16] = ["\"", "\\", "/", "\u{8}", "\u{7}", "\n", "\u{1f}", "\u{1}", "\u{10}", "a", "u", "\u{7f}", "\u{80}", "é", "\u{ffff}", "😀"];
    let sym: Vec<&[u8]> = P.iter().map(|s| s.as_bytes()).collect();
    o.words(&sym, if deep { 5 } else { 4 }, b"", b"");
    bodies(o, deep, b"", b"");
    let mut r = Rng::new(seed ^ ((o.me as u64) << 32));
    for _ in 0..if deep { 200_000 } else { 20_000 } {
        let mut s = String::new();
        for _ in 0..r.below(40) {
            match r.below(4) {
                0 => s.push(char::from(r.below(0x80) as u8)),
                1 => s.push_str(*r.pick(&P)),
                2 => s.push(char::from_u32(r.below(0x110000) as u32).unwrap_or('x')),
                _ => s.push('y'),
            }
        }
        (o.f)(s.as_bytes());
    }
    every_raw(o);
    runs(o, &[b"a", "é".as_bytes()], b"", b"");
    for n in RUNS {
        for at in 0..=n {
            for c in P.iter().copied().chain(["\u{2028}", "\u{80}\u{80}"]) {
                for unit in ["a", "é", "\n"] {
                    o.put(format!("{}{c}{}", unit.repeat(at), unit.repeat(n - at)).as_bytes());
                }
            }
        }
    }
}
fn pairs(o: &mut Out<'_>, seed: u64, deep: bool) {
    let mut v: Vec<Vec<u8>> = vec![];
    // spellings of short texts
    const W: [&[u8]; 22] = [
        b"", b"a", b"b", b"aa", b"ab", b"ba", b"\\u0061", b"\\u0061a", b"\\u0062", b"a\\u0061", b"\\n", b"\\u000a", b"\\u000A", b"\\\\", b"\\u005c", b"\\/", b"/", b"\\\"", b"\\u0000", b"\\b", b"\\u0007", b"n",
    ];
    const X: [&str; 22] = [
        "é", "\\u00e9", "\\u00E9", "\u{80}", "\\u0080", "\u{7ff}", "\\u07ff", "\u{800}", "\u{ffff}", "\\uffff", "\u{10000}", "\\ud800\\udc00", "😀", "\\ud83d\\ude00", "\u{e000}", "\\ue000", "\u{d7ff}", "a\\n", "\\na", "a\\nb", "ab\\u00e9c", "\u{7f}",
    ];
    v.extend(W.iter().map(|x| x.to_vec()));
    v.extend(X.iter().map(|x| x.as_bytes().to_vec()));
    let n = v.len();
    for i in 0..n.min(24) {
        for j in 0..n {
            let mut w = v[i].clone();
            w.extend_from_slice(&v[j].clone());
            v.push(w);
        }
    }
    let m = if deep { v.len() } else { 500.min(v.len()) };
    for i in 0..m {
        for j in 0..m {
            if i < n || j < n || deep || (i * 7 + j * 3) % 11 == 0 {
                let mut b = v[i].clone();
                b.push(b'\n');
                b.extend_from_slice(&v[j]);
                o.put(&b);
            }
        }
    }
    // two differences that disagree, in long texts
    for n in [7usize, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40] {
        for i in 0..n {
            for j in i..n {
                for (x, y) in [("a", "c"), ("b", "é"), ("/", "z"), ("\\u0061", "z"), ("\u{e000}", "\u{10000}"), ("\\u0000", "\u{7f}")] {
                    let make = |p: &str, q: &str| -> String { (0..n).map(|k| if k == i { p } else if k == j { q } else { "b" }).collect() };
                    o.put(format!("{}\n{}", make(x, y), make(y, x)).as_bytes());
                    if i + j == n {
                        o.put(format!("{}\n{}", make(x, x), make(y, "b")).as_bytes());
                        o.put(format!("{}\n{}{x}", make(x, y), make(x, y)).as_bytes());
                    }
                }
            }
        }
    }
    // any single escape against any character's verbatim form is covered by: two spellings of the same text
    let mut r = Rng::new(seed ^ ((o.me as u64) << 32));
    for k in 0..if deep { 400_000 } else { 60_000 } {
        let cs: Vec<char> = (0..1 + r.below(5)).map(|_| loop {
            let c = match r.below(4) {
                0 => r.below(0x80),
                1 => r.below(0x800),
                2 => r.below(0x10000),
                _ => r.below(0x110000),
            };
            if let Some(c) = char::from_u32(c as u32) {
                break c;
            }
        }).collect();
        let spell = |r: &mut Rng, cs: &[char]| -> Vec<u8> {
            let mut o = vec![];
            let all = r.below(3);
            for c in cs {
                let mut u = [0u16; 2];
                let must = matches!(*c, '"' | '\\') || (*c as u32) < 0x20;
                if must || all == 0 || (all == 1 && r.one_in(2)) {
                    c.encode_utf16(&mut u).iter().for_each(|x| o.extend_from_slice(format!("\\u{x:04x}").as_bytes()));
                } else {
                    o.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
            }
            o
        };
        let mut ds = cs.clone();
        match k % 4 {
            0 => {}
            1 => {
                let i = r.below(ds.len());
                ds[i] = char::from_u32(ds[i] as u32 ^ (1 << r.below(20))).unwrap_or('q');
            }
            2 => ds.push(char::from(r.below(128) as u8)),
            _ => {
                ds.pop();
            }
        }
        let mut b = spell(&mut r, &cs);
        b.push(b'\n');
        b.extend_from_slice(&spell(&mut r, &ds));
        (o.f)(&b);
    }
}

fn check_of(p: &str) -> Check {
    match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06,
        "C07" => c07, "C08" => c08, "C09" => c09, "C10" => c10, "C11" => c11, "C12" => c12,
        "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => c17, "C18" => c18,
        _ => panic!("unknown property {p}"),
    }
}
fn domain(p: &str, o: &mut Out<'_>, deep: bool, seed: u64) {
    let slow = matches!(p, "C08" | "C09" | "C14" | "C15" | "C17" | "C18");
    let n = if deep { 400_000 } else if slow { 40_000 } else if matches!(p, "C01" | "C02" | "C03" | "C10" | "C13") { 300_000 } else { 160_000 };
    match p {
        "C05" => {
            for t in hint_texts() {
                for pre in ["", "a", "é", "\"", "\u{1}"] {
                    o.put(format!("{pre}{t}").as_bytes());
                    o.put(format!("{pre}{t}{pre}").as_bytes());
                }
            }
            texts(o, seed, deep)
        }
        "C06" => {
            for n in [127usize, 255, 256, 1024, 4096, 65_535, 65_536] {
                for (x, y) in [("", "a"), ("a", "b"), ("a", "\\u0061"), ("\\u0061", "é"), ("\\n", "\\u000a"), ("\\n", "\\u000b"), ("\\u00e9", "\\n")] {
                    for pre in ["", "\\u0061", "\\n"] {
                        let l = "a".repeat(n);
                        o.put(format!("{pre}{l}{x}\n{pre}{l}{y}").as_bytes());
                        o.put(format!("{pre}{l}{y}\n{pre}{l}{x}").as_bytes());
                        o.put(format!("{pre}{l}{x}\n{l}{y}").as_bytes());
                    }
                }
            }
            let v: Vec<String> = hint_texts().into_iter().filter(|t| t.len() < 3000).collect();
            for a in &v {
                for b in v.iter().map(|x| x.as_str()).chain(["", "a", "é", "\\n", "\\u0061"]) {
                    for (x, y) in [(a.as_str(), b), (b, a.as_str())] {
                        o.put(format!("{x}\n{y}").as_bytes());
                    }
                }
                o.put(format!("a{a}\n\\u0061{a}").as_bytes());
            }
            every_char(o, "", "", true, true);
            pairs(o, seed, deep)
        }
        "C04" => {
            for n in [127usize, 128, 254, 255, 256, 1000, 4095, 4096, 32_767, 65_530, 65_535, 65_536, 65_537, 131_072] {
                for (x, y) in [("\"", "\\u00e9b\""), ("\"", "\\ud83d\\ude00\\n\""), ("\"\\u0042", "\\\"\\u0061\""), ("\"é", "é\""), ("\"\\\\", "\"")] {
                    o.put(format!("{x}{}{y}", "a".repeat(n)).as_bytes());
                    o.put(format!("{x}{}{y}", "é".repeat(n / 2)).as_bytes());
                }
            }
            bodies(o, deep, b"\"", b"\"");
            bodies(o, false, b"{\"", b"\":\"x\\n\"}");
            runs(o, &[b"a", b"\\n", b"\xc3\xa9"], b"\"", b"\"");
            runs(o, &[b"a"], b"[\"\\\"", b"\\\\\"]");
            every_char(o, "\"", "\"", true, false);
            hinted(o, p);
            randoms(o, seed, n, false);
        }
        "C12" => {
            for (n, _) in near_hints() {
                for t in [format!("{n}"), format!("-{n}"), format!("{n}.{n}e{n}"), format!("1e{n}"), format!("1e-{n}"), "7".repeat(n.min(5000)), format!("1.{}", "3".repeat(n.min(5000))), format!("1E+{}", "0".repeat(n.min(5000)))] {
                    o.put(t.as_bytes());
                }
            }
            for t in &hints().1 {
                o.put(t);
            }
            numbers(o, deep, b"", b"");
            numbers(o, false, b"-", b"");
            for (x, y) in [("", ""), ("-1", "0"), ("1.", ""), ("1e", " "), ("0.0", "e1")] {
                runs(o, &[b"1234567890"], x.as_bytes(), y.as_bytes());
            }
            decimals(o, seed, n * 4);
            o.words(&[b"\"1\"", b"true", b"[1]", b"{}", b"null", b" "], 2, b"", b"");
        }
        "C07" | "C17" | "C14" => {
            wide(o, p != "C14");
            far(o);
            if p == "C14" {
                ordered(o);
            } else {
                long_inside(o, !slow);
            }
            nests(o, false);
            if p != "C14" {
                depths(o);
            }
            randoms(o, seed ^ 0x51, n / 8, false);
            hinted(o, p);
            docs(o, false);
            bodies_small(o);
            if p == "C07" {
                every_char(o, "{\"", "\":1}", true, false);
                runs(o, &[b"a"], b"[\"", b"\"]");
            }
            randoms(o, seed, n, false);
        }
        _ => {
            edits(o);
            nests(o, deep);
            if matches!(p, "C02" | "C08" | "C11") {
                depths(o);
            }
            if p == "C10" {
                let big = hints().0.iter().copied().filter(|n| (2001..=70_000).contains(n));
                for m in [254, 256, 511, 512, 1023, 1024, 4096, 32_767, 65_535].into_iter().chain(big) {
                    for n in [m, m + 1] {
                        o.put(format!("{}{}", "[".repeat(n), "]".repeat(n)).as_bytes());
                        o.put(format!("{}1{}", "{\"k\":".repeat(n), "}".repeat(n)).as_bytes());
                        o.put(format!("[{}{},[]]", "[".repeat(n - 1), "]".repeat(n - 1)).as_bytes());
                    }
                }
            }
            wide(o, p != "C11");
            far(o);
            if p != "C11" {
                long_inside(o, !slow);
            }
            raw_bytes(o);
            randoms(o, seed ^ 0x51, n / 8, true);
            hinted(o, p);
            if matches!(p, "C01" | "C03" | "C11" | "C13") {
                utf8_runs(o);
            }
            if matches!(p, "C01" | "C02" | "C03" | "C11" | "C13" | "C15") {
                bodies(o, false, b"\"", b"\"");
                o.words(&CHARS, 3, b"[\"", b"");
                numbers(o, false, b"", b"");
                numbers(o, false, b"[", b"]");
                runs(o, &[b"a", b"\xc3\xa9", b"\\n"], b"\"", b"\"");
                runs(o, &[b"1234567890"], b"[", b"]");
                runs(o, &[b" ", b"\n\t"], b"[", b"1]");
                runs(o, &[b" "], b"[1]", b"");
                every_char(o, "[\"", "\"]", true, false);
                every_char(o, "", "", false, false);
            }
            if p == "C11" {
                texts(o, seed, false);
            }
            docs(o, deep);
            randoms(o, seed, n, true);
            if deep && matches!(p, "C01" | "C02" | "C03" | "C11" | "C13" | "C15") {
                bodies(o, true, b"\"", b"\"");
            }
        }
    }
}
/// literals of the code under test that the tree the checks were written for does not have: sizes and texts worth trying
static HINTS: std::sync::OnceLock<(Vec<usize>, Vec<Vec<u8>>)> = std::sync::OnceLock::new();
fn hints() -> &'static (Vec<usize>, Vec<Vec<u8>>) {
    HINTS.get_or_init(Default::default)
}
/// sizes around a number, and whether deep nesting of that many levels is affordable
fn near_hints() -> Vec<(usize, bool)> {
    let mut v: Vec<usize> = hints().0.iter().flat_map(|n| [n.saturating_sub(1), *n, n + 1, n + 2, n * 2, n / 2]).filter(|n| *n <= 140_000).collect();
    v.sort_unstable();
    v.dedup();
    v.into_iter().map(|n| (n, n <= 2000)).collect()
}
/// texts made of the hints
fn hint_texts() -> Vec<String> {
    let mut v: Vec<String> = hints().1.iter().filter_map(|b| String::from_utf8(b.clone()).ok()).collect();
    for (n, _) in near_hints() {
        if let Some(c) = char::from_u32(n as u32) {
            v.push(c.to_string());
        }
        v.extend(["a", "é", "\\n", "\\u00e9"].iter().map(|u| u.repeat(n.min(70_000))));
    }
    v
}
fn hinted(o: &mut Out<'_>, p: &str) {
    let inside = |o: &mut Out<'_>, b: &[u8]| {
        for (x, y) in [("", ""), ("\"", "\""), ("[", "]"), ("[\"", "\"]"), ("{\"", "\":1}"), ("{\"a\":1,\"", "\":[]}"), ("{\"k\":\"", "\"}"), ("[[],\"a", "\\n\",1]"), (" ", " ")] {
            let mut c = x.as_bytes().to_vec();
            c.extend_from_slice(b);
            c.extend_from_slice(y.as_bytes());
            o.put(&c);
        }
    };
    for b in &hints().1 {
        inside(o, b);
        for t in TEMPLATES {
            for i in 0..=t.len() {
                let mut c = t.as_bytes().to_vec();
                c.splice(i..i, b.iter().copied());
                o.put(&c);
            }
        }
    }
    for (n, nest) in near_hints() {
        inside(o, n.to_string().as_bytes());
        inside(o, format!("-{n}.{n}e{n}").as_bytes());
        inside(o, format!("\\u{:04x}", n & 0xFFFF).as_bytes());
        if let Some(c) = char::from_u32(n as u32) {
            inside(o, c.to_string().as_bytes());
        }
        inside(o, &[n as u8]);
        // checks that try something at every step of the input are quadratic
        let m = if p == "C14" { n.min(200) } else if matches!(p, "C08" | "C09" | "C15" | "C17" | "C18") { n.min(1500) } else { n };
        for u in ["a", "é", "\\n", "\\u00e9", " ", "1", "😀", "\\ud83d\\ude00"] {
            inside(o, u.repeat(m.min(70_000)).as_bytes());
            o.put(format!("[1,\"{}\",x", u.repeat(m.min(70_000))).as_bytes());
        }
        for e in ["0", "\"\\n\"", "[]", "{\"a\":[]}", "[1,2]", "null "] {
            let mut b = vec![e; m.min(70_000)].join(",");
            for q in [format!("[{b}]"), format!("[[{b}],{{}}]"), format!("{{\"k\":[{b}],\"l\":1}}"), format!("[{b},]"), format!("[{b}")] {
                o.put(q.as_bytes());
            }
            b = (0..m.min(20_000)).map(|i| format!("\"k{i}\":{e}")).collect::<Vec<_>>().join(",");
            for q in [format!("{{{b}}}"), format!("[{{{b}}},1]"), format!("{{{b},}}"), format!("{{{b},\"k0\":7}}")] {
                o.put(q.as_bytes());
            }
        }
        if nest {
            for (x, y) in [("[", "]"), ("{\"k\":", "}"), ("[1,{\"k\":", "},2]"), ("[[],", ",{}]")] {
                for core in ["", "1", "{}", "[]", "\"a\"", "x"] {
                    o.put(format!("{}{core}{}", x.repeat(n), y.repeat(n)).as_bytes());
                    o.put(format!("[{}{core}{},1]", x.repeat(n), y.repeat(n)).as_bytes());
                }
            }
        }
    }
}
/// objects whose keys are in order, in reverse or all alike, with repetitions and different spellings
fn ordered(o: &mut Out<'_>) {
    let sizes: Vec<usize> = (2..=40).chain([50, 64, 65, 100, 128, 129]).chain(near_hints().iter().map(|x| x.0).filter(|n| (41..=200).contains(n))).collect();
    for n in sizes {
        for dup in [1usize, 2, 3, 5, n] {
            for style in 0..4 {
                let keys: Vec<String> = (0..n)
                    .map(|i| {
                        let j = if style == 1 { n - 1 - i } else { i } / dup;
                        match style {
                            2 if i % 3 == 1 => format!("k\\u{:04x}{:02}", 0x30 + j / 100, j % 100),
                            3 => format!("k{:03}{}", j, if i % 4 == 3 { "\\n" } else { "" }),
                            _ => format!("k{j:03}"),
                        }
                    })
                    .collect();
                o.put(format!("{{{}}}", keys.iter().enumerate().map(|(i, k)| format!("\"{k}\":{i}")).collect::<Vec<_>>().join(",")).as_bytes());
                if style == 0 {
                    o.put(format!("[{{{}}}]", keys.iter().enumerate().map(|(i, k)| format!("\"{k}\":\"v{i}\"")).collect::<Vec<_>>().join(",")).as_bytes());
                }
            }
        }
    }
}
/// long containers inside others: lengths around the limits of narrow integers
fn long_inside(o: &mut Out<'_>, trail: bool) {
    let sizes = [127usize, 128, 255, 256, 257, 32_767, 32_768, 65_535, 65_536, 65_537];
    for n in sizes.into_iter().chain(near_hints().iter().map(|x| x.0).filter(|n| *n > 1500)) {
        o.put(format!("[[{}],7]", vec!["0"; n].join(",")).as_bytes());
        if trail || n < 300 {
            o.put(format!("[{},]", vec!["0"; n].join(",")).as_bytes());
            o.put(format!("{{{},}}", vec!["\"\":0"; n].join(",")).as_bytes());
        }
        o.put(format!("{{\"a\":{{{}}},\"b\":[1,2]}}", (0..n).map(|i| format!("\"{i}\":0")).collect::<Vec<_>>().join(",")).as_bytes());
    }
}
/// every kind of value, and some that are none, far from the start
fn far(o: &mut Out<'_>) {
    let pads = [255usize, 256, 511, 1023, 4095, 4096, 32_767, 65_533, 65_534, 65_535, 65_536, 65_537, 131_071];
    for n in pads.into_iter().chain(hints().0.iter().copied().filter(|n| (64..=140_000).contains(n))) {
        let pad = " ".repeat(n);
        for x in ["true", "false", "null", "-0.5e1", "12", "\"a\"", "\"\\n\\u00e9\"", "{\"k\":[]}", "[true,{}]", "tru", "\"", "\"\\u00g0\"", "-", "}", "[1,]"] {
            o.put(format!("[{pad}{x}]").as_bytes());
            o.put(format!("[{pad} {x},{x}]").as_bytes());
            o.put(format!("{{\"a\":{pad}{x},\"b\":{x}}}").as_bytes());
        }
        o.put(&[b"[", pad.as_bytes(), b"\"\xff\"]"].concat());
        o.put(&[b"{", pad.as_bytes(), b"\"\xc3\xa9\":1,\"\xc3\":2}"].concat());
    }
}
/// containers with many members
fn wide(o: &mut Out<'_>, long: bool) {
    for n in [15usize, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600] {
        for style in 0..5 {
            let mut b: Vec<u8> = vec![if style == 1 || style == 3 { b'{' } else { b'[' }];
            for i in 0..n {
                if i > 0 {
                    b.push(b',');
                }
                match style {
                    0 => b.extend_from_slice(b"0"),
                    1 => b.extend_from_slice(format!("\"k{}\":[{}]", i % 300, i).as_bytes()),
                    2 => b.extend_from_slice(if i % 3 == 0 { b"[]" } else { b"{\"a\":{}}" }),
                    3 => b.extend_from_slice(format!("\"{}\": null", i).as_bytes()),
                    _ => b.extend_from_slice(b"\"\\u0041x\" "),
                }
            }
            let end = if style == 1 || style == 3 { b'}' } else { b']' };
            o.put(&[&b, &[end][..]].concat());
            for odd in [&[b',', end][..], &[b',', b' ', end, b' '], b",", b"", &[b',', b',', end], &[end, b','], &[end, end], &[end ^ 0x26]] {
                o.put(&[&b, odd].concat());
            }
        }
    }
    for n in [255usize, 256, 257, 65535, 65536, 65537] {
        if n > 1000 && !long {
            continue;
        }
        for unit in ["a", "\\n", "é", "\\u00e9", "7"] {
            let s = format!("[\"{}\",1]", unit.repeat(n));
            o.put(s.as_bytes());
        }
        o.put("1".repeat(n).as_bytes());
        o.put(format!("[{}1]", " ".repeat(n)).as_bytes());
    }
}
/// every character, verbatim or as an escape, a few neighbours at a time; with `other`, next to another spelling of it
fn every_char(o: &mut Out<'_>, pre: &str, suf: &str, escaped: bool, other: bool) {
    let spell = |cs: &[char], esc: u8| -> String {
        let mut t = String::new();
        for c in cs {
            let mut u = [0u16; 2];
            match esc {
                0 if !matches!(c, '"' | '\\' | '\0'..='\x1f') => t.push(*c),
                2 => c.encode_utf16(&mut u).iter().for_each(|x| t.push_str(&format!("\\u{x:04X}"))),
                _ => c.encode_utf16(&mut u).iter().for_each(|x| t.push_str(&format!("\\u{x:04x}"))),
            }
        }
        t
    };
    let mut at = 0u32;
    while at < 0x110000 {
        let n = if at < 0x3000 { 1 } else if at < 0x10000 { 4 } else { 32 };
        let cs: Vec<char> = (at..at + n).filter_map(char::from_u32).collect();
        if !cs.is_empty() {
            if other {
                for (x, y) in [(0, 1), (2, 0), (1, 2)] {
                    o.put(format!("{}\n{}", spell(&cs, x), spell(&cs, y)).as_bytes());
                }
            } else {
                o.put(format!("{pre}{}{suf}", spell(&cs, 0)).as_bytes());
                if escaped {
                    o.put(format!("{pre}{}{suf}", spell(&cs, 1 + (at / n % 2) as u8)).as_bytes());
                }
            }
        }
        at += n;
    }
}
/// the same for raw text
fn every_raw(o: &mut Out<'_>) {
    let mut at = 0u32;
    while at < 0x110000 {
        let n = if at < 0x3000 { 1 } else if at < 0x10000 { 4 } else { 32 };
        let t: String = (at..at + n).filter_map(char::from_u32).collect();
        o.put(t.as_bytes());
        o.put(format!("a{t} ").as_bytes());
        at += n;
    }
}
/// short runs of bytes around the boundaries of the UTF-8 encoding
fn utf8_runs(o: &mut Out<'_>) {
    const B: [&[u8]; 20] = [
        b"\x7f", b"\x80", b"\x8f", b"\x90", b"\x9f", b"\xa0", b"\xbf", b"\xc0", b"\xc1", b"\xc2", b"\xdf", b"\xe0", b"\xe1", b"\xed", b"\xef", b"\xf0", b"\xf1", b"\xf4", b"\xf5", b"\xff",
    ];
    o.words(&B, 4, b"\"", b"\"");
    o.words(&B, 2, b"[\"a\xc3\xa9", b"\"]");
    o.words(&B, 2, b"[\"\xe2\x82\xac\xf0\x9f\x98\x80", b"\"]");
    // wherever a string, or anything else, can be
    const RUNS: [&[u8]; 19] = [
        b"\xff", b"\x80", b"\xc3", b"\xc3\xa9", b"\xc0\x80", b"\xe2\x82", b"\xe2\x82\xac", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\xf0\x9f\x98\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80", b"\xc3\xc3\xa9", b"\xc3\xa9\xff", b"\xc3\xa9\xe2\x82",
        b"\xe2\x82\xac\x80", b"\xf8\x88\x80\x80\x80", b"\xef\xbb\xbf", b"\xfe",
    ];
    const PLACES: [(&[u8], &[u8]); 27] = [
        (b"{\"", b"\":1}"), (b"{ \"", b"\" :1}"), (b"{\"a\":1,\"", b"\":2}"), (b"{\"a\":1, \"", b"\":2,\"b\":3}"), (b"{\"", b"\":{},\"b\":2}"), (b"{\"a\":\"", b"\"}"), (b"{\"a\" : \"", b"\",\"b\":1}"), (b"{\"a\":1,\"b\":\"", b"\"}"), (b"[\"", b"\"]"),
        (b"[\"a\",\"", b"\"]"), (b"[1,\"", b"\",1]"), (b"[[\"", b"\"]]"), (b"[{\"", b"\":1}]"), (b"[{\"a\":\"", b"\"}]"), (b"{\"a\":{\"", b"\":1}}"), (b"{\"a\":[\"", b"\"]}"), (b" \"", b"\""), (b"\"", b"\" "), (b"\"", b""),
        (b"{\"", b""), (b"[", b"]"), (b"[1", b"]"), (b"[t", b"]"), (b"{", b"}"), (b"{\"a\"", b":1}"), (b"[1]", b""), (b"", b"1"),
    ];
    const LEADS: [&[u8]; 9] = [b"", b"a", b"ab", b"\xc3\xa9", b"\\n", b"\\u00e9", b"\\\"", b" ", b"abcdefgh"];
    for (pre, suf) in PLACES {
        for lead in LEADS {
            for tail in [&b""[..], b"a", b"\\n", b"\xc3\xa9"] {
                for run in RUNS {
                    o.put(&[pre, lead, run, tail, suf].concat());
                }
            }
        }
    }
    for b in 0..=255u8 {
        for (pre, suf) in PLACES {
            o.put(&[pre, &[b], suf].concat());
            o.put(&[pre, b"a", &[b], b"a", suf].concat());
            o.put(&[pre, b"\\", &[b], suf].concat());
        }
    }
}
fn bodies_small(o: &mut Out<'_>) {
    o.words(&CHARS, 3, b"[\"", b"\"]");
    o.words(&CHARS, 2, b"{\"", b"\":{\"\\u0061\":1,\"b\":2,\"a\":3}}");
}

// processor time of a thread, so that a slow machine is not taken for a loop without end
extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(thread: usize, clock: *mut i32) -> i32;
    fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
}
fn my_clock() -> i32 {
    let mut c = 0;
    unsafe { pthread_getcpuclockid(pthread_self(), &mut c) };
    c
}
fn cpu_secs(clock: i32) -> f64 {
    let mut t = [0i64; 2];
    if unsafe { clock_gettime(clock, &mut t) } == 0 {
        t[0] as f64 + t[1] as f64 / 1e9
    } else {
        0.0
    }
}
extern "C" {
    fn signal(n: i32, h: Option<extern "C" fn(i32)>) -> Option<extern "C" fn(i32)>;
    fn write(fd: i32, p: *const std::ffi::c_void, n: usize) -> isize;
    fn _exit(rc: i32) -> !;
}
thread_local! {
    /// what this thread is checking
    static CURRENT: std::cell::Cell<(*const u8, usize)> = const { std::cell::Cell::new((std::ptr::null(), 0)) };
}
/// the code under test ends the process (an abort cannot be caught): report the input, allocating nothing
extern "C" fn ended(n: i32) {
    static FIRST: AtomicBool = AtomicBool::new(true);
    while !FIRST.swap(false, Ordering::SeqCst) {
        std::thread::sleep(Duration::from_secs(60));
    }
    let (p, len) = CURRENT.with(|c| c.get());
    if p.is_null() {
        unsafe { _exit(128 + n) }
    }
    let b = unsafe { std::slice::from_raw_parts(p, len) };
    let put = |t: &[u8]| {
        unsafe { write(1, t.as_ptr().cast(), t.len()) };
    };
    put(b"{\"case_hex\":\"");
    for x in b {
        put(&[b"0123456789abcdef"[usize::from(x >> 4)], b"0123456789abcdef"[usize::from(x & 15)]]);
    }
    put(b"\",\"what\":\"the process is ended by signal ");
    put(&[b'0' + (n / 10) as u8, b'0' + (n % 10) as u8]);
    put(b"\"}\n");
    unsafe { _exit(1) }
}
fn guarded(f: Check, b: &[u8]) -> R {
    CURRENT.with(|c| c.set((b.as_ptr(), b.len())));
    match catch_unwind(AssertUnwindSafe(|| f(b))) {
        Ok(r) => r,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
        )),
    }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn report(p: &str, b: &[u8], m: &str) -> String {
    format!("{{\"property\":{},\"case_hex\":\"{}\",\"case\":{},\"what\":{}}}", js(p), hex(b), js(&show(b)), js(&m.chars().take(1500).collect::<String>()))
}
/// remove pieces while the property still fails
fn shrink(f: Check, b: &[u8], m: String) -> (Vec<u8>, String) {
    let (mut b, mut m) = (b.to_vec(), m);
    let end = Instant::now() + Duration::from_secs(5);
    let mut size = b.len().max(2) / 2;
    while size >= 1 {
        let mut i = 0;
        while i + size <= b.len() && Instant::now() < end {
            let mut c = b.clone();
            c.drain(i..i + size);
            match guarded(f, &c) {
                Err(w) => {
                    b = c;
                    m = w;
                }
                Ok(()) => i += 1,
            }
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    (b, m)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let p = a[1].clone();
    let arg = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    // `\b`: RFC 8259 says U+0008, this library (and its tests) say U+0007
    let b = justjson::JsonString::from_json("\"\\b\"").map(|j| j.decoded().collect::<String>());
    let known = b.as_deref() == Ok("\u{7}");
    if b.as_deref() == Ok("\u{8}") {
        oracle::BELL.store(8, Ordering::Relaxed);
    }
    let f = check_of(&p);
    if let Some(t) = arg("--hints").and_then(|h| std::fs::read_to_string(h).ok()) {
        let bytes = |h: &str| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>();
        let sizes = t.lines().filter_map(|l| l.strip_prefix("n ")?.parse().ok()).collect();
        let texts = t.lines().filter_map(|l| l.strip_prefix("t ")).map(bytes).collect();
        let _ = HINTS.set((sizes, texts));
    }
    if let Some(h) = arg("--case") {
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let r = std::thread::Builder::new().stack_size(1 << 29).spawn(move || guarded(f, &b)).unwrap().join().unwrap();
        match r {
            Ok(()) => println!("ok"),
            Err(m) => {
                println!("{}", m);
                std::process::exit(1);
            }
        }
        return;
    }
    let deep = arg("--tier").as_deref() == Some("thorough");
    let seed: u64 = arg("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = arg("--secs").and_then(|s| s.parse().ok()).unwrap_or(if deep { 600 } else { 60 });
    let trace = arg("--trace");
    for n in [4, 6, 8] {
        unsafe { signal(n, Some(ended)) };
    }
    let stop = AtomicBool::new(false);
    let evals = AtomicU64::new(0);
    let accepted = AtomicU64::new(0);
    let cut = AtomicUsize::new(0);
    let found: Mutex<Option<(Vec<u8>, String)>> = Mutex::new(None);
    let seen: Mutex<(u64, Vec<String>)> = Mutex::new((0, vec![]));
    let now: Vec<Mutex<(u64, Vec<u8>)>> = (0..THREADS).map(|_| Mutex::new((0, vec![]))).collect();
    let clocks: Vec<Mutex<Option<i32>>> = (0..THREADS).map(|_| Mutex::new(None)).collect();
    let done = AtomicUsize::new(0);
    let start = Instant::now();
    std::thread::scope(|s| {
        for me in 0..THREADS {
            let (stop, evals, found, now, done, seen, p, accepted, cut, trace, clocks) = (&stop, &evals, &found, &now, &done, &seen, &p, &accepted, &cut, &trace, &clocks);
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn_scoped(s, move || {
                    *clocks[me].lock().unwrap() = Some(my_clock());
                    let mut mine = 0u64;
                    let mut trace = trace.as_ref().map(|t| std::fs::File::create(format!("{t}.{me}")).unwrap());
                    let mut distinct: HashSet<u64> = HashSet::new();
                    let mut samples = vec![];
                    let mut go = |b: &[u8]| {
                        if stop.load(Ordering::Relaxed) {
                            return;
                        }
                        mine += 1;
                        if mine % 64 == 0 && start.elapsed().as_secs() > secs {
                            cut.fetch_add(1, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                            return;
                        }
                        {
                            let mut n = now[me].lock().unwrap();
                            n.0 += 1;
                            n.1.clear();
                            n.1.extend_from_slice(b);
                        }
                        if let Some(f) = trace.as_mut() {
                            use std::io::{Seek, SeekFrom, Write};
                            let mut m = (b.len() as u64).to_le_bytes().to_vec();
                            m.extend_from_slice(b);
                            let _ = f.seek(SeekFrom::Start(0)).and_then(|_| f.write_all(&m));
                        }
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        b.hash(&mut h);
                        if b.len() > 1 && distinct.len() < 4_000_000 {
                            distinct.insert(h.finish());
                        }
                        if samples.len() < 2 && b.len() > 6 && mine % 9973 == 0 {
                            samples.push(show(b));
                        }
                        if let Err(m) = guarded(f, b) {
                            let mut g = found.lock().unwrap();
                            if g.as_ref().map_or(true, |(x, _)| b.len() < x.len()) {
                                *g = Some((b.to_vec(), m));
                            }
                            stop.store(true, Ordering::Relaxed);
                        }
                    };
                    let mut o = Out { me, n: 0, f: &mut go };
                    domain(p, &mut o, deep, seed);
                    *clocks[me].lock().unwrap() = None;
                    evals.fetch_add(mine, Ordering::Relaxed);
                    let _ = accepted;
                    let mut s = seen.lock().unwrap();
                    s.0 += distinct.len() as u64;
                    s.1.extend(samples);
                    done.fetch_add(1, Ordering::Relaxed);
                })
                .unwrap();
        }
        // a case that does not end
        let mut last: Vec<(u64, f64)> = vec![(0, 0.0); THREADS];
        while done.load(Ordering::Relaxed) < THREADS {
            std::thread::sleep(Duration::from_millis(20));
            for (k, l) in last.iter_mut().enumerate() {
                let c = clocks[k].lock().unwrap();
                let t = match *c {
                    Some(c) => cpu_secs(c),
                    None => continue,
                };
                let n = now[k].lock().unwrap();
                if n.0 != l.0 {
                    *l = (n.0, t);
                } else if n.0 > 0 && t - l.1 > 25.0 + n.1.len() as f64 / 100.0 {
                    println!("{}", report(&p, &n.1, "no result within 25 s of processor time"));
                    std::process::exit(1);
                }
            }
        }
    });
    let g = found.into_inner().unwrap();
    if let Some((b, m)) = g {
        let (b, m) = std::thread::Builder::new().stack_size(1 << 28).spawn(move || shrink(f, &b, m)).unwrap().join().unwrap();
        println!("{}", report(&p, &b, &m));
        std::process::exit(1);
    }
    let s = seen.into_inner().unwrap();
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct\":{},\"cut_short\":{},\"backspace_is_bell\":{},\"secs\":{:.1},\"samples\":[{}]}}",
        js(&p),
        evals.load(Ordering::Relaxed),
        s.0,
        cut.load(Ordering::Relaxed) > 0,
        known,
        start.elapsed().as_secs_f64(),
        s.1.iter().take(4).map(|x| js(x)).collect::<Vec<_>>().join(",")
    );
}
