//! Documents with a known node graph, rendered in random styles.
use crate::fw::Rng;
use crate::model::M;
use crate::resolve::{scalar_ref, Res};
use std::collections::HashSet;
use std::fmt::Write as _;

#[derive(Clone, Debug)]
pub enum Nk {
    Plain(String),
    Single(String),
    Double(String),
    Literal(String),
    Folded(String),
    Empty,
    Alias(String),
    Seq(bool, Vec<Nd>),
    Map(bool, Vec<(Nd, Nd)>),
}
#[derive(Clone, Debug)]
pub struct Nd {
    pub anchor: Option<String>,
    pub tag: Option<String>,
    pub k: Nk,
}

pub struct GenOpts {
    pub anchors: bool,
    pub tags: bool,
    pub core_tags: bool,
    pub blocks: bool,
    pub multiline: bool,
    pub e_handle: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { anchors: true, tags: true, core_tags: true, blocks: true, multiline: true, e_handle: false }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub o: GenOpts,
    /// anchors in order of their nodes' start; None while the node is open
    pub env: Vec<(String, Option<M>)>,
    pub fuel: usize,
    pub msize: usize,
}

const WORDS: &[&str] = &["a", "b", "key", "value", "x1", "foo", "bar", "é", "日本", "naïve", "0", "1", "-1", "42", "true", "null", "~", "3.5", "1e3", "0x1f", "no", "Z", "name", "a.b", "w/o", "x-y", "_", "1_0", "007", ".5", "-.inf", ".nan", "a=b", "t!", "q?", "i*j", "k&l", "c|d", "e>f", "%", "u@v", "100%", "18446744073709551615", "-9223372036854775808", "False", "<<", "null null"];

pub fn plain_text(r: &mut Rng) -> String {
    let n = match r.below(8) {
        0 => 2,
        1 => 3,
        2 => r.range(1, 12),
        _ => 1,
    };
    loop {
        let mut s = String::new();
        for i in 0..n {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(*r.pick(WORDS));
            if r.chance(1, 6) {
                let _ = write!(s, "{}", r.below(1000));
            }
        }
        let c = s.chars().next().unwrap();
        if !"%@`!&*|>?=".contains(c) || c == '=' {
            if !s.starts_with("- ") && !s.starts_with("? ") {
                return s;
            }
        }
    }
}

pub fn quoted_text(r: &mut Rng) -> String {
    match r.below(4) {
        0 => plain_text(r),
        1 => {
            let n = r.below(8);
            (0..n).map(|_| *r.pick(&[' ', 'a', '\'', '"', '\\', ':', '#', '-', ',', '[', '{', '}', ']', '&', '*', '!', 'é', '日', '😀', '~', '%', '1', '.'])).collect()
        }
        2 => {
            let mut s = plain_text(r);
            s.push_str(*r.pick(&[": x", " #c", ",", "]", " ", "''", "\\"]));
            s
        }
        _ => String::new(),
    }
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, o: GenOpts, fuel: usize) -> Gen<'a> {
        Gen { r, o, env: Vec::new(), fuel, msize: 0 }
    }
    fn anchor_name(&mut self) -> String {
        (*self.r.pick(&["a", "b", "c", "anchor", "x-1", "A_2", "n0"])).to_string()
    }
    fn tag(&mut self, scalar: bool) -> String {
        if self.o.core_tags && self.r.chance(1, 3) {
            return if scalar { (*self.r.pick(&["!!str", "!!int", "!!float", "!!bool", "!!null", "!!str", "!!binary"])).to_string() } else { (*self.r.pick(&["!!seq", "!!map", "!!set", "!<tag:example.com,2000:x>"])).to_string() };
        }
        if self.o.e_handle && self.r.chance(1, 3) {
            return (*self.r.pick(&["!e!one", "!e!two"])).to_string();
        }
        (*self.r.pick(&["!t", "!Tag", "!a/b", "!x-y.z", "!<!verbatim>", "!caf%C3%A9", "!int", "!1"])).to_string()
    }
    pub fn resolved_tag(t: &str) -> String {
        if let Some(s) = t.strip_prefix("!!") {
            format!("tag:yaml.org,2002:{s}")
        } else if let Some(s) = t.strip_prefix("!e!") {
            format!("!ext-{s}")
        } else if let Some(s) = t.strip_prefix("!<") {
            s.trim_end_matches('>').to_string()
        } else {
            t.replace("%C3%A9", "é")
        }
    }

    /// A node and its value. `flow`: inside a flow collection; `key`: must fit on one line.
    pub fn node(&mut self, depth: usize, flow: bool, key: bool) -> (Nd, M) {
        loop {
            let save = self.env.len();
            let savems = self.msize;
            if let Some(x) = self.try_node(depth, flow, key) {
                return x;
            }
            self.env.truncate(save);
            self.msize = savems;
        }
    }
    fn try_node(&mut self, depth: usize, flow: bool, key: bool) -> Option<(Nd, M)> {
        self.fuel = self.fuel.saturating_sub(1);
        // alias
        if self.o.anchors && self.r.chance(1, 6) {
            let mut names: Vec<&str> = self.env.iter().map(|e| &e.0[..]).collect();
            names.sort();
            names.dedup();
            if !names.is_empty() {
                let n = self.r.pick(&names).to_string();
                if let Some((_, Some(m))) = self.env.iter().rev().find(|e| e.0 == n) {
                    let m = m.clone();
                    self.msize += m.size();
                    if self.msize < 5000 {
                        return Some((Nd { anchor: None, tag: None, k: Nk::Alias(n) }, m));
                    }
                }
            }
        }
        let slot = if self.o.anchors && self.r.chance(1, 5) {
            let a = self.anchor_name();
            self.env.push((a.clone(), None));
            Some((a, self.env.len() - 1))
        } else {
            None
        };
        let scalar = depth == 0 || self.fuel == 0 || self.r.chance(if key { 4 } else { 3 }, 6);
        let tag = if self.o.tags && self.r.chance(1, 8) { Some(self.tag(scalar)) } else { None };
        let rt = tag.as_ref().map(|t| Self::resolved_tag(t));
        self.msize += 1;
        let (k, m) = if scalar {
            let (k, plain, text) = match self.r.below(12) {
                0 if !key => (Nk::Empty, true, String::new()),
                1 | 2 => {
                    let t = quoted_text(self.r);
                    (Nk::Single(t.clone()), false, t)
                }
                3 | 4 => {
                    let mut t = quoted_text(self.r);
                    if self.r.chance(1, 3) {
                        t.push_str(*self.r.pick(&["\n", "\t", "\u{1}", "\u{85}", "\u{2028}", "\r\n", "\0", "\u{7f}", "\u{feff}"]));
                        t.push_str(&plain_text(self.r));
                    }
                    (Nk::Double(t.clone()), false, t)
                }
                5 if !flow && !key && self.o.blocks => {
                    let t = self.block_text();
                    (Nk::Literal(t.clone()), false, t)
                }
                6 if !flow && !key && self.o.blocks => {
                    let t = plain_text(self.r) + *self.r.pick(&["", "\n", "\n\n"]);
                    (Nk::Folded(t.clone()), false, t)
                }
                _ => {
                    let t = plain_text(self.r);
                    if key && t.len() > 60 {
                        return None;
                    }
                    (Nk::Plain(t.clone()), true, t)
                }
            };
            match scalar_ref(rt.as_deref(), plain, &text) {
                Res::Val(m) => (k, m),
                _ => return None,
            }
        } else {
            let n = match self.r.below(6) {
                0 => 0,
                1 | 2 => 1,
                3 => 2,
                _ => self.r.range(1, 5),
            };
            let f = flow || key || n == 0 || self.r.chance(1, 3);
            if self.r.bool() {
                let mut v = Vec::new();
                let mut ms = Vec::new();
                for _ in 0..n {
                    let (c, m) = self.node(depth - 1, f, key);
                    v.push(c);
                    ms.push(m);
                }
                (Nk::Seq(f, v), M::Seq(ms))
            } else {
                let mut v = Vec::new();
                let mut ms = Vec::new();
                let mut seen = HashSet::new();
                for _ in 0..n {
                    let save = self.env.len();
                    // most keys are simple scalars, some are composite (explicit form)
                    let simple = key || !self.r.chance(1, 5);
                    let kd = if self.r.chance(1, 6) { 1 } else { 0 };
                    let (kn, km) = if simple { self.node(kd, f, true) } else { self.node((depth - 1).min(2), f, false) };
                    if !seen.insert(km.canon()) {
                        self.env.truncate(save);
                        continue;
                    }
                    let (vn, vm) = self.node(depth - 1, f, key);
                    v.push((kn, vn));
                    ms.push((km, vm));
                }
                let f = f || v.is_empty();
                (Nk::Map(f, v), M::Map(ms))
            }
        };
        let m = match (&rt, m) {
            (Some(t), m) if t.starts_with('!') && !matches!(k, Nk::Plain(_) | Nk::Single(_) | Nk::Double(_) | Nk::Literal(_) | Nk::Folded(_) | Nk::Empty) => M::Tag(t[1..].to_string(), Box::new(m)),
            (_, m) => m,
        };
        let anchor = slot.map(|(a, i)| {
            self.env[i].1 = Some(m.clone());
            a
        });
        Some((Nd { anchor, tag, k }, m))
    }
    fn block_text(&mut self) -> String {
        let n = self.r.below(4);
        let mut s = String::new();
        for _ in 0..n {
            match self.r.below(6) {
                0 => {}
                1 => {
                    s.push_str("  ");
                    s.push_str(&plain_text(self.r));
                }
                2 => s.push_str(*self.r.pick(&["# not a comment", "- x", "k: v", "---", "...", "'q", "\"", "&a *b !c"])),
                _ => s.push_str(&plain_text(self.r)),
            }
            s.push('\n');
        }
        s.push_str(&plain_text(self.r));
        s.push_str(*self.r.pick(&["", "\n", "\n", "\n\n", "\n\n\n"]));
        s
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Pos {
    Root,
    Dash,
    Colon,
    Quest,
}

pub struct Rend<'a> {
    pub r: &'a mut Rng,
    pub out: String,
    pub comments: bool,
    pub multiline: bool,
}

impl<'a> Rend<'a> {
    pub fn new(r: &'a mut Rng) -> Rend<'a> {
        let comments = r.bool();
        let multiline = r.bool();
        Rend { r, out: String::new(), comments, multiline }
    }
    fn col(&self) -> usize {
        match self.out.rfind('\n') {
            Some(i) => self.out[i + 1..].chars().count(),
            None => self.out.chars().count(),
        }
    }
    fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    /// End the current line, maybe with a comment, maybe with blank or comment lines after it.
    fn eol(&mut self, comment_ok: bool) {
        if comment_ok && self.comments && self.r.chance(1, 5) {
            self.out.push_str(*self.r.pick(&[" # comment", "  # - not: {an [item", " #", "   #&a *b !c é"]));
        } else if comment_ok && self.r.chance(1, 12) {
            self.out.push(' ');
        }
        self.out.push('\n');
        if comment_ok && self.comments && self.r.chance(1, 8) {
            self.out.push_str(*self.r.pick(&["\n", "# full line\n", "   # indented comment\n", "  \n", "\n\n"]));
        }
    }
    fn props(&mut self, n: &Nd) -> String {
        match (&n.anchor, &n.tag) {
            (Some(a), Some(t)) => {
                if self.r.bool() {
                    format!("&{a} {t}")
                } else {
                    format!("{t} &{a}")
                }
            }
            (Some(a), None) => format!("&{a}"),
            (None, Some(t)) => t.clone(),
            _ => String::new(),
        }
    }
    fn sp(&mut self) -> &'static str {
        if self.r.chance(1, 8) {
            "  "
        } else {
            " "
        }
    }

    /// A scalar's text; `cont`: indentation of continuation lines, None when it must fit one line.
    fn scalar(&mut self, k: &Nk, cont: Option<usize>) {
        match k {
            Nk::Plain(t) => {
                let words: Vec<&str> = t.split(' ').collect();
                for (i, w) in words.iter().enumerate() {
                    if i > 0 {
                        match cont {
                            Some(ind) if self.multiline && self.r.chance(1, 4) && !w.starts_with(['-', '?', '<', '#', '%', '.']) && *w != "~" && *w != "=" => {
                                self.out.push('\n');
                                self.pad(ind);
                            }
                            _ => self.out.push(' '),
                        }
                    }
                    self.out.push_str(w);
                }
            }
            Nk::Single(t) => {
                self.out.push('\'');
                let cs: Vec<char> = t.chars().collect();
                for (i, c) in cs.iter().enumerate() {
                    match (c, cont) {
                        ('\'', _) => self.out.push_str("''"),
                        (' ', Some(ind)) if self.multiline && i > 0 && i + 1 < cs.len() && cs[i - 1] != ' ' && cs[i + 1] != ' ' && self.r.chance(1, 4) => {
                            self.out.push('\n');
                            self.pad(ind.max(1));
                        }
                        _ => self.out.push(*c),
                    }
                }
                self.out.push('\'');
            }
            Nk::Double(t) => {
                self.out.push('"');
                let cs: Vec<char> = t.chars().collect();
                for (i, &c) in cs.iter().enumerate() {
                    if let (Some(ind), true) = (cont, self.multiline) {
                        if self.r.chance(1, 30) {
                            // escaped line break
                            self.out.push_str("\\\n");
                            self.pad(ind.max(1));
                            if c == ' ' {
                                self.out.push_str("\\ ");
                                continue;
                            }
                        } else if c == ' ' && i > 0 && i + 1 < cs.len() && !" \n\t".contains(cs[i - 1]) && !" \n\t".contains(cs[i + 1]) && self.r.chance(1, 6) && !self.out.ends_with(' ') {
                            self.out.push('\n');
                            self.pad(ind.max(1));
                            continue;
                        }
                    }
                    let esc = match c {
                        '"' => Some("\\\""),
                        '\\' => Some("\\\\"),
                        '\n' => Some("\\n"),
                        '\t' => Some("\\t"),
                        '\r' => Some("\\r"),
                        '\0' => Some("\\0"),
                        '\u{85}' => Some("\\N"),
                        '\u{2028}' => Some("\\L"),
                        '\u{1}' => Some("\\x01"),
                        '\u{7f}' => Some("\\x7F"),
                        '\u{feff}' => Some("\\uFEFF"),
                        '/' if self.r.chance(1, 3) => Some("\\/"),
                        _ => None,
                    };
                    match esc {
                        Some(e) => self.out.push_str(e),
                        None if self.r.chance(1, 15) => {
                            let u = c as u32;
                            let f = self.r.below(3);
                            if u < 0x100 && f == 0 {
                                let _ = write!(self.out, "\\x{u:02x}");
                            } else if u < 0x10000 && f <= 1 {
                                let _ = write!(self.out, "\\u{u:04X}");
                            } else {
                                let _ = write!(self.out, "\\U{u:08x}");
                            }
                        }
                        None => self.out.push(c),
                    }
                }
                self.out.push('"');
            }
            _ => unreachable!(),
        }
    }

    fn value(&mut self, n: &Nd, indent: i32, pos: Pos, after: bool) {
        // after: something precedes on this line (an indicator)
        let lead = if after { self.sp() } else { "" };
        let props = self.props(n);
        match &n.k {
            Nk::Alias(a) => {
                self.out.push_str(lead);
                let _ = write!(self.out, "*{a}");
                self.eol(true);
            }
            Nk::Empty => {
                if !props.is_empty() {
                    self.out.push_str(lead);
                    self.out.push_str(&props);
                } else if !after {
                    self.out.push('~');
                }
                self.eol(true);
            }
            Nk::Plain(_) | Nk::Single(_) | Nk::Double(_) => {
                self.out.push_str(lead);
                if !props.is_empty() {
                    self.out.push_str(&props);
                    self.out.push(' ');
                } else if after && pos != Pos::Root && self.multiline && self.r.chance(1, 20) {
                    // value on its own line
                    self.eol(true);
                    self.pad((indent + 1) as usize + 1);
                }
                let cont = (indent + 1) as usize + 1 + self.r.below(3);
                let at_start = pos == Pos::Root && !after;
                // at the very start of an implicit document keep one line
                self.scalar(&n.k, if at_start { None } else { Some(cont) });
                self.eol(true);
            }
            Nk::Literal(t) | Nk::Folded(t) => {
                self.out.push_str(lead);
                if !props.is_empty() {
                    self.out.push_str(&props);
                    self.out.push(' ');
                }
                let lit = matches!(n.k, Nk::Literal(_));
                self.out.push(if lit { '|' } else { '>' });
                let body = t.trim_end_matches('\n');
                let trailing = t.len() - body.len();
                let first_space = body.split('\n').find(|l| !l.is_empty()).map_or(false, |l| l.starts_with(' ')) || body.starts_with('\n');
                let ind = self.r.range(1, 4);
                let chomp = match trailing {
                    0 => "-",
                    1 => "",
                    _ => "+",
                };
                let base = if indent < 0 { 0 } else { indent as usize };
                // the indentation indicator is relative to the parent
                let explicit = first_space || body.is_empty() || self.r.chance(1, 5);
                if explicit {
                    if self.r.bool() {
                        let _ = write!(self.out, "{ind}{chomp}");
                    } else {
                        let _ = write!(self.out, "{chomp}{ind}");
                    }
                } else {
                    self.out.push_str(chomp);
                }
                if self.comments && self.r.chance(1, 5) {
                    self.out.push_str(" # header");
                }
                self.out.push('\n');
                let col = base + ind;
                if lit {
                    for l in body.split('\n') {
                        if !l.is_empty() {
                            self.pad(col);
                            self.out.push_str(l);
                        }
                        self.out.push('\n');
                    }
                } else {
                    self.pad(col);
                    let words: Vec<&str> = body.split(' ').collect();
                    for (i, w) in words.iter().enumerate() {
                        if i > 0 {
                            if self.r.chance(1, 3) {
                                self.out.push('\n');
                                self.pad(col);
                            } else {
                                self.out.push(' ');
                            }
                        }
                        self.out.push_str(w);
                    }
                    self.out.push('\n');
                }
                for _ in 1..trailing {
                    self.out.push('\n');
                }
            }
            Nk::Seq(true, _) | Nk::Map(true, _) => {
                self.out.push_str(lead);
                if !props.is_empty() {
                    self.out.push_str(&props);
                    self.out.push(' ');
                }
                self.flow(n, (indent + 1) as usize + 1, false);
                self.eol(true);
            }
            Nk::Seq(false, items) => {
                let new = self.open_block(&props, indent, pos, after, lead, true);
                let first_inline = self.col() == new && !self.out.ends_with('\n') && new > 0;
                for (i, it) in items.iter().enumerate() {
                    if !(i == 0 && first_inline) {
                        self.pad(new);
                    }
                    self.out.push('-');
                    self.value(it, new as i32, Pos::Dash, true);
                }
            }
            Nk::Map(false, items) => {
                let new = self.open_block(&props, indent, pos, after, lead, false);
                let first_inline = self.col() == new && !self.out.ends_with('\n') && new > 0;
                for (i, (k, v)) in items.iter().enumerate() {
                    if !(i == 0 && first_inline) {
                        self.pad(new);
                    }
                    if self.simple_key(k) && !self.r.chance(1, 10) {
                        self.key_text(k);
                        if matches!(k.k, Nk::Alias(_)) || self.r.chance(1, 10) {
                            self.out.push(' ');
                        }
                        self.out.push(':');
                        self.value(v, new as i32, Pos::Colon, true);
                    } else {
                        self.out.push('?');
                        self.value(k, new as i32, Pos::Quest, true);
                        if matches!(v.k, Nk::Empty) && v.anchor.is_none() && v.tag.is_none() && self.r.bool() {
                            continue;
                        }
                        self.pad(new);
                        self.out.push(':');
                        self.value(v, new as i32, Pos::Quest, true);
                    }
                }
            }
        }
    }
    /// Start a block collection; returns its indentation. Afterwards either at
    /// a line start or inline at exactly that column.
    fn open_block(&mut self, props: &str, indent: i32, pos: Pos, after: bool, lead: &str, seq: bool) -> usize {
        if !after && props.is_empty() {
            // root, at a line start
            return if self.r.chance(1, 8) { self.root_indent() } else { 0 };
        }
        if props.is_empty() && (pos == Pos::Dash || pos == Pos::Quest) && self.r.bool() {
            self.out.push_str(lead);
            return self.col();
        }
        if !props.is_empty() {
            self.out.push_str(lead);
            self.out.push_str(props);
        }
        self.eol(true);
        if pos == Pos::Root {
            return self.r.below(2);
        }
        if seq && pos == Pos::Colon && self.r.bool() {
            return indent as usize;
        }
        (indent + 1) as usize + self.r.below(3)
    }
    fn root_indent(&mut self) -> usize {
        let n = self.r.below(3);
        n
    }
    fn simple_key(&self, k: &Nd) -> bool {
        match &k.k {
            Nk::Empty | Nk::Literal(_) | Nk::Folded(_) => false,
            Nk::Seq(false, _) | Nk::Map(false, _) => false,
            Nk::Seq(true, v) => v.iter().all(|x| self.simple_key(x) || matches!(x.k, Nk::Empty)),
            Nk::Map(true, v) => v.iter().all(|(a, b)| self.simple_key(a) && (self.simple_key(b) || matches!(b.k, Nk::Empty))),
            Nk::Plain(s) | Nk::Single(s) | Nk::Double(s) => s.len() < 80,
            Nk::Alias(_) => true,
        }
    }
    fn key_text(&mut self, k: &Nd) {
        let p = self.props(k);
        if !p.is_empty() {
            self.out.push_str(&p);
            self.out.push(' ');
        }
        match &k.k {
            Nk::Alias(a) => {
                let _ = write!(self.out, "*{a}");
            }
            Nk::Seq(..) | Nk::Map(..) => self.flow(&Nd { anchor: None, tag: None, k: k.k.clone() }, 0, true),
            s => self.scalar(s, None),
        }
    }
    fn sep(&mut self, ind: usize, single: bool) {
        if !single && self.multiline && self.r.chance(1, 4) {
            if self.comments && self.r.chance(1, 3) {
                self.out.push_str(" # c, ]}");
            }
            self.out.push('\n');
            self.pad(ind);
        } else if self.r.bool() {
            self.out.push(' ');
        }
    }
    /// A flow node without its own properties for containers passed by `value`.
    fn flow(&mut self, n: &Nd, ind: usize, single: bool) {
        match &n.k {
            Nk::Seq(_, v) => {
                self.out.push('[');
                for (i, x) in v.iter().enumerate() {
                    self.sep(ind, single);
                    self.flow_item(x, ind, single);
                    self.sep(ind, single);
                    // an empty last element needs its comma
                    if i + 1 < v.len() || self.r.chance(1, 6) {
                        self.out.push(',');
                    }
                }
                self.sep(ind, single);
                self.out.push(']');
            }
            Nk::Map(_, v) => {
                self.out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    self.sep(ind, single);
                    let simple = self.simple_key(k);
                    if simple && (single || !self.r.chance(1, 8)) {
                        self.key_text(k);
                        if matches!(x.k, Nk::Empty) && x.anchor.is_none() && x.tag.is_none() && self.r.bool() {
                            self.out.push(' ');
                        } else {
                            if matches!(k.k, Nk::Alias(_)) {
                                self.out.push(' ');
                            }
                            self.out.push(':');
                            self.out.push(' ');
                            self.flow_item(x, ind, single);
                        }
                    } else {
                        self.out.push_str("? ");
                        self.flow_item(k, ind, single);
                        self.out.push_str(" : ");
                        self.flow_item(x, ind, single);
                    }
                    self.sep(ind, single);
                    if i + 1 < v.len() || self.r.chance(1, 6) {
                        self.out.push(',');
                    }
                }
                self.sep(ind, single);
                self.out.push('}');
            }
            _ => unreachable!(),
        }
    }
    fn flow_item(&mut self, n: &Nd, ind: usize, single: bool) {
        let p = self.props(n);
        if !p.is_empty() {
            self.out.push_str(&p);
            self.out.push(' ');
        }
        match &n.k {
            Nk::Alias(a) => {
                let _ = write!(self.out, "*{a} ");
            }
            Nk::Empty => {
                if p.is_empty() {
                    self.out.push_str("~ ");
                }
            }
            Nk::Seq(..) | Nk::Map(..) => self.flow(n, ind, single),
            s => self.scalar(s, if single { None } else { Some(ind) }),
        }
    }

    /// One document body. `start`: write an explicit `---`.
    pub fn document(&mut self, n: &Nd, start: bool) {
        if start {
            self.out.push_str("---");
        }
        self.value(n, -1, Pos::Root, start);
    }
}

pub struct Doc {
    pub text: String,
    pub m: M,
    pub nd: Nd,
}

/// A whole single-document text with its intended value.
pub fn gen_doc(r: &mut Rng, depth: usize, fuel: usize, o: GenOpts) -> Doc {
    let e = o.e_handle;
    let mut g = Gen::new(r, o, fuel);
    let (nd, m) = g.node(depth, false, false);
    let mut rr = r.clone();
    r.next();
    let mut rd = Rend::new(&mut rr);
    let start = e || rd.r.bool();
    if e {
        rd.out.push_str("%TAG !e! !ext-\n");
    }
    if !e && rd.r.chance(1, 10) {
        rd.out.push_str("# leading comment\n");
    }
    let yamldir = start && rd.r.chance(1, 6);
    if yamldir {
        rd.out.push_str(*rd.r.pick(&["%YAML 1.1\n", "%YAML 1.2\n"]));
    }
    rd.document(&nd, start);
    if rd.r.chance(1, 5) {
        rd.out.push_str("...\n");
    }
    let mut text = rd.out;
    match r.below(12) {
        0 => text = text.replace('\n', "\r\n"),
        1 => text = text.replace('\n', "\r"),
        2 if !yamldir && !e => text.insert(0, '\u{feff}'),
        3 => {
            // no final newline
            if !text.ends_with("\n\n") && !has_block_scalar(&nd) {
                text.truncate(text.trim_end_matches('\n').len());
            }
        }
        _ => {}
    }
    Doc { text, m, nd }
}
fn has_block_scalar(n: &Nd) -> bool {
    match &n.k {
        Nk::Literal(_) | Nk::Folded(_) => true,
        Nk::Seq(_, v) => v.iter().any(has_block_scalar),
        Nk::Map(_, v) => v.iter().any(|(k, v)| has_block_scalar(k) || has_block_scalar(v)),
        _ => false,
    }
}
