//! Workload dictionary: literals found in the code under test (as fuzzers do),
//! plus fixed hostile values. Only feeds the generators, never a verdict.
use std::sync::OnceLock;

pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<u128>,
}

pub const HOSTILE: &[&str] = &[
    "", " ", "~", "null", "Null", "NULL", "nULL", "true", "True", "TRUE", "tRUE", "false", "False", "FALSE", "yes", "no", "on", "off", "y", "n", "Y", "N",
    "0", "-0", "+0", "00", "007", "-007", "+0127", "08", "1", "-1", "+1", "0x", "0x1F", "-0x1f", "+0xFf", "0o17", "-0o7", "0b101", "-0b1", "0x+1", "0b-1", "0xg", "1_000",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
    "1.", ".5", "5.", "-.5", "+.5", "1e3", "1E-3", "1e+3", "1e400", "-1e400", "1e-400", ".", "..", "-.", "+", "-", "--", "+-1", "-+1", "++1", "e5", ".e5", "0.1", "00.5", "-0.0", "1.0", "1e", "1e+",
    ".inf", "-.inf", "+.inf", ".Inf", ".INF", "-.INF", ".iNf", ".nan", ".NaN", ".NAN", "-.nan", "+.nan", "nan", "inf", "infinity", "NaN", "-inf", "+infinity",
    "<<", "=", "!", "!!", "!foo", "!!int", "!<x>", "&", "&a", "*", "*a", "#", "# c", "a #b", "a# b", "%", "%YAML 1.2", "@", "`", "`x", "|", "|+", "|-", ">", ">-", "?", "? a", "?a", ":", ": a", ":a", "a:", "a: b", "a:b", ",", "a,b", "[", "]", "[]", "{", "}", "{}", "{a: b}", "[a, b]",
    "- a", "-a", "---", "--- a", "---a", "...", "... a", "'", "''", "'a'", "\"", "\"a\"", "it's", "say \"x\"", "\\", "\\n", "a\\b",
    " a", "a ", " a ", "\ta", "a\t", "\t", "  ", "a  b",
    "\n", "\n\n", "a\n", "\na", "a\nb", "a\n\nb", "a\nb\n", "a\n\n", " a\nb", "a\n b", "\n a", "a\n ", "\r", "\r\n", "a\rb", "a\r\nb", "\u{85}", "a\u{85}b", "\u{2028}", "\u{2029}", "a\u{2028}b\n", "\t\n", " \n", "#\n", "- a\n- b", "a: b\nc: d", "---\n", "...\n", "a\n---\nb", "a\n...\nb\n",
    "\0", "\u{1}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\u{a0}", "\u{ad}", "\u{feff}", "\u{feff}a", "a\u{feff}", "\u{fffd}", "\u{fffe}", "\u{ffff}", "\u{10000}", "\u{1f600}", "\u{10ffff}", "\u{d7ff}", "\u{e000}", "\u{e9}", "e\u{301}", "日本語", "héllo", "Ω", "\u{200b}", "\u{202e}abc",
    "2001-01-01", "12:30:45", "1:2", "0.0.0.0", "http://a/b?c#d", "C:\\x", "a-b_c.d/e", "key", "value", "name", "serde", "tag:yaml.org,2002:int",
];

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut strings: Vec<String> = Vec::new();
        let mut ints: Vec<u128> = Vec::new();
        let root = std::env::var("REPO_SRC").unwrap_or_else(|_| "/repo/src".into());
        let mut stack = vec![std::path::PathBuf::from(root)];
        if crate::fw::small() {
            // reading the sources takes the interpreter too long
            stack.clear();
            strings.extend(["-.inf", "key", "<<"].map(String::from));
            ints.extend([127u128, 1 << 63]);
        }
        let mut files = Vec::new();
        while let Some(p) = stack.pop() {
            if let Ok(rd) = std::fs::read_dir(&p) {
                for e in rd.flatten() {
                    let p = e.path();
                    if p.is_dir() {
                        stack.push(p);
                    } else if p.extension().map_or(false, |e| e == "rs") {
                        files.push(p);
                    }
                }
            }
        }
        files.sort();
        for f in files {
            if let Ok(s) = std::fs::read_to_string(&f) {
                mine(&s, &mut strings, &mut ints);
            }
        }
        strings.sort();
        strings.dedup();
        ints.sort();
        ints.dedup();
        Dict { strings, ints }
    })
}

fn mine(src: &str, strings: &mut Vec<String>, ints: &mut Vec<u128>) {
    let b: Vec<char> = src.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '/' && b.get(i + 1) == Some(&'/') {
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
        } else if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' && i + 1 < b.len() {
                    i += 1;
                    match b[i] {
                        'n' => s.push('\n'),
                        't' => s.push('\t'),
                        'r' => s.push('\r'),
                        '0' => s.push('\0'),
                        'x' => {
                            let h: String = b[i + 1..(i + 3).min(b.len())].iter().collect();
                            if let Ok(v) = u32::from_str_radix(&h, 16) {
                                s.push(char::from_u32(v).unwrap_or('?'));
                                i += 2;
                            }
                        }
                        'u' => {
                            let mut h = String::new();
                            let mut j = i + 2;
                            while j < b.len() && b[j] != '}' {
                                h.push(b[j]);
                                j += 1;
                            }
                            if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                s.push(ch);
                                i = j;
                            }
                        }
                        '\n' => {}
                        c => s.push(c),
                    }
                } else {
                    s.push(b[i]);
                }
                i += 1;
            }
            i += 1;
            if s.len() <= 40 && !s.contains("{}") {
                strings.push(s);
            }
        } else if c == '\'' {
            // char literal or lifetime
            if i + 2 < b.len() && b[i + 1] != '\\' && b[i + 2] == '\'' {
                strings.push(b[i + 1].to_string());
                i += 3;
            } else if i + 3 < b.len() && b[i + 1] == '\\' {
                let s = match b[i + 2] {
                    'n' => "\n",
                    't' => "\t",
                    'r' => "\r",
                    '0' => "\0",
                    '\\' => "\\",
                    '\'' => "'",
                    _ => "",
                };
                strings.push(s.to_string());
                if b[i + 2] == 'u' {
                    let mut h = String::new();
                    let mut j = i + 4;
                    while j < b.len() && b[j] != '}' && j < i + 12 {
                        h.push(b[j]);
                        j += 1;
                    }
                    if let Some(ch) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                        strings.push(ch.to_string());
                    }
                }
                i += 4;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(b[i - 1].is_alphanumeric() || b[i - 1] == '_')) {
            let mut t = String::new();
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == '_') {
                if b[i] != '_' {
                    t.push(b[i]);
                }
                i += 1;
            }
            let mut t2 = t.as_str();
            for suf in ["usize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                if let Some(x) = t2.strip_suffix(suf) {
                    t2 = x;
                    break;
                }
            }
            let v = if let Some(h) = t2.strip_prefix("0x") {
                u128::from_str_radix(h, 16).ok()
            } else {
                t2.parse().ok()
            };
            if let Some(v) = v {
                ints.push(v);
            }
        } else {
            i += 1;
        }
    }
}
