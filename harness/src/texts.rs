//! Input texts of every kind, shared by several checks.
use crate::fw::Rng;
use crate::model::*;
use crate::props::c05::{mutate, tok_text, TOK};
use crate::render::*;

pub fn opts(r: &mut Rng) -> GenOpts {
    GenOpts { anchors: !r.chance(1, 4), tags: !r.chance(1, 4), core_tags: r.bool(), blocks: true, multiline: true, e_handle: r.chance(1, 8) }
}
pub fn valid_doc(r: &mut Rng) -> String {
    match r.below(5) {
        0 => {
            let m = gen_m(r, &GenCfg::default());
            serde_yaml::to_string(&to_val(&m)).unwrap_or_default()
        }
        _ => {
            let o = opts(r);
            let fuel = r.range(1, 25);
            let depth = r.range(0, 4);
            gen_doc(r, depth, fuel, o).text
        }
    }
}
pub fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 14);
    let mut s = String::new();
    for _ in 0..n {
        match r.below(8) {
            0 => s.push_str(&gen_string(r)),
            1 => s.push_str(*r.pick(&["&", "*", "!", "!!", "%", "@", "`", "\t", "\r\n", "\u{feff}", "\u{85}", "\u{0}", "<<: ", "\\", "%YAML 1.1\n", "%TAG ! !x\n", "!<", "\"\\x", "\"\\u12", "''", "? ", "-", ":"])),
            _ => s.push_str(*r.pick(TOK)),
        }
    }
    s
}
/// Any text, mostly interesting.
pub fn text(r: &mut Rng) -> String {
    match r.below(12) {
        0..=4 => valid_doc(r),
        5..=6 => {
            let t = valid_doc(r);
            mutate(r, &t)
        }
        7 => tok_text(r.next() % 60_000_000),
        8 => soup(r),
        9 => {
            let n = r.range(2, 4);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*r.pick(&["---\n", "--- ", "...\n---\n", ""]));
                let d = valid_doc(r);
                s.push_str(&d);
            }
            s
        }
        10 => gen_string(r),
        _ => {
            let t = valid_doc(r);
            let n = t.chars().count();
            t.chars().take(r.below(n + 1)).collect()
        }
    }
}
/// Any bytes.
pub fn bytes(r: &mut Rng) -> Vec<u8> {
    let mut b = text(r).into_bytes();
    match r.below(8) {
        0 => {
            for _ in 0..r.range(1, 3) {
                if b.is_empty() {
                    b.push(0xff);
                }
                let i = r.below(b.len());
                b[i] = r.next() as u8;
            }
        }
        1 => {
            let i = r.below(b.len() + 1);
            const BAD: &[&[u8]] = &[b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\xf0\x9f", b"\x80", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\x00", b"\x7f", b"\xc2", b"\xfe"];
            b.splice(i..i, r.pick(BAD).iter().copied());
        }
        2 => {
            let n = r.below(b.len() + 1);
            b.truncate(n);
        }
        3 if r.chance(1, 4) => {
            // UTF-16
            let s = String::from_utf8_lossy(&b).into_owned();
            let le = r.bool();
            let mut o: Vec<u8> = if le { vec![0xff, 0xfe] } else { vec![0xfe, 0xff] };
            for u in s.encode_utf16() {
                o.extend(if le { u.to_le_bytes() } else { u.to_be_bytes() });
            }
            b = o;
        }
        4 if r.chance(1, 4) => {
            let n = r.range(1, 30);
            b = (0..n).map(|_| r.next() as u8).collect();
        }
        _ => {}
    }
    b
}
