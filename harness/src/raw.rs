//! Raw libyaml events (the parser dependency used directly) and an
//! independent composer from events to model values.
use crate::model::M;
use crate::resolve::{scalar_ref, Res};
use std::collections::{HashMap, HashSet};
use std::mem::MaybeUninit;
use unsafe_libyaml as sys;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Mk {
    pub index: usize,
    pub line: usize,
    pub column: usize,
}
fn mk(m: &sys::yaml_mark_t) -> Mk {
    Mk { index: m.index as usize, line: m.line as usize, column: m.column as usize }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}
#[derive(Clone, Debug)]
pub enum Ev {
    DocStart,
    DocEnd,
    Alias(Vec<u8>),
    Scalar { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>>, value: Vec<u8>, style: Style },
    SeqStart { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>> },
    SeqEnd,
    MapStart { anchor: Option<Vec<u8>>, tag: Option<Vec<u8>> },
    MapEnd,
}
#[derive(Clone, Debug)]
pub struct E {
    pub ev: Ev,
    pub start: Mk,
    pub end: Mk,
}
#[derive(Clone, Debug)]
pub struct RawErr {
    pub problem: String,
    pub mark: Mk,
    pub offset: usize,
    pub reader: bool,
}
pub struct Raw {
    pub events: Vec<E>,
    pub err: Option<RawErr>,
}

unsafe fn cstr(p: *const u8) -> Option<Vec<u8>> {
    if p.is_null() {
        return None;
    }
    Some(std::ffi::CStr::from_ptr(p as *const _).to_bytes().to_vec())
}

/// A leading byte order mark is no content; offsets stay those of the whole input.
pub fn parse(input: &[u8]) -> Raw {
    let bom = if input.starts_with(b"\xEF\xBB\xBF") { 3 } else { 0 };
    let mut r = parse_content(&input[bom..]);
    for e in &mut r.events {
        e.start.index += bom;
        e.end.index += bom;
    }
    if let Some(e) = &mut r.err {
        e.mark.index += bom;
        e.offset += bom;
    }
    r
}
fn parse_content(input: &[u8]) -> Raw {
    let mut out = Raw { events: Vec::new(), err: None };
    unsafe {
        let mut p = Box::new(MaybeUninit::<sys::yaml_parser_t>::uninit());
        let p = p.as_mut_ptr();
        assert!(sys::yaml_parser_initialize(p).ok);
        sys::yaml_parser_set_encoding(p, sys::YAML_UTF8_ENCODING);
        sys::yaml_parser_set_input_string(p, input.as_ptr(), input.len() as u64);
        loop {
            let mut e = MaybeUninit::<sys::yaml_event_t>::uninit();
            if sys::yaml_parser_parse(p, e.as_mut_ptr()).fail {
                out.err = Some(RawErr {
                    problem: cstr((*p).problem as *const u8).map(|v| String::from_utf8_lossy(&v).into_owned()).unwrap_or_default(),
                    mark: mk(&(*p).problem_mark),
                    offset: (*p).problem_offset as usize,
                    reader: (*p).error == sys::YAML_READER_ERROR,
                });
                break;
            }
            let ev = e.as_mut_ptr();
            let d = &(*ev).data;
            let k = match (*ev).type_ {
                sys::YAML_DOCUMENT_START_EVENT => Some(Ev::DocStart),
                sys::YAML_DOCUMENT_END_EVENT => Some(Ev::DocEnd),
                sys::YAML_ALIAS_EVENT => Some(Ev::Alias(cstr(d.alias.anchor).unwrap())),
                sys::YAML_SCALAR_EVENT => Some(Ev::Scalar {
                    anchor: cstr(d.scalar.anchor),
                    tag: cstr(d.scalar.tag),
                    value: std::slice::from_raw_parts(d.scalar.value, d.scalar.length as usize).to_vec(),
                    style: match d.scalar.style {
                        sys::YAML_PLAIN_SCALAR_STYLE => Style::Plain,
                        sys::YAML_SINGLE_QUOTED_SCALAR_STYLE => Style::Single,
                        sys::YAML_DOUBLE_QUOTED_SCALAR_STYLE => Style::Double,
                        sys::YAML_LITERAL_SCALAR_STYLE => Style::Literal,
                        _ => Style::Folded,
                    },
                }),
                sys::YAML_SEQUENCE_START_EVENT => Some(Ev::SeqStart { anchor: cstr(d.sequence_start.anchor), tag: cstr(d.sequence_start.tag) }),
                sys::YAML_SEQUENCE_END_EVENT => Some(Ev::SeqEnd),
                sys::YAML_MAPPING_START_EVENT => Some(Ev::MapStart { anchor: cstr(d.mapping_start.anchor), tag: cstr(d.mapping_start.tag) }),
                sys::YAML_MAPPING_END_EVENT => Some(Ev::MapEnd),
                _ => None,
            };
            let end = (*ev).type_ == sys::YAML_STREAM_END_EVENT;
            if let Some(k) = k {
                out.events.push(E { ev: k, start: mk(&(*ev).start_mark), end: mk(&(*ev).end_mark) });
            }
            sys::yaml_event_delete(ev);
            if end {
                break;
            }
        }
        sys::yaml_parser_delete(p);
    }
    out
}

/// One document's events (without document start/end).
pub struct RawDoc {
    pub events: Vec<E>,
    /// The stream error cut this document short.
    pub cut: bool,
    pub start: Mk,
}
pub struct Docs {
    pub docs: Vec<RawDoc>,
    pub err: Option<RawErr>,
}
pub fn docs(input: &[u8]) -> Docs {
    let raw = parse(input);
    let mut docs = Vec::new();
    let mut cur: Option<RawDoc> = None;
    for e in raw.events {
        match e.ev {
            Ev::DocStart => cur = Some(RawDoc { events: Vec::new(), cut: false, start: e.start }),
            Ev::DocEnd => docs.push(cur.take().unwrap()),
            _ => cur.as_mut().unwrap().events.push(e),
        }
    }
    if raw.err.is_some() {
        if let Some(mut d) = cur {
            d.cut = true;
            docs.push(d);
        }
    }
    Docs { docs, err: raw.err }
}

/// For each alias event: the index of the node event it stands for.
/// Err(i): alias event i has no preceding anchor.
pub fn alias_targets(evs: &[E]) -> Result<HashMap<usize, usize>, usize> {
    let mut anchors: HashMap<&[u8], usize> = HashMap::new();
    let mut out = HashMap::new();
    for (i, e) in evs.iter().enumerate() {
        match &e.ev {
            Ev::Alias(a) => match anchors.get(&a[..]) {
                Some(t) => {
                    out.insert(i, *t);
                }
                None => return Err(i),
            },
            Ev::Scalar { anchor: Some(a), .. } | Ev::SeqStart { anchor: Some(a), .. } | Ev::MapStart { anchor: Some(a), .. } => {
                anchors.insert(a, i);
            }
            _ => {}
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
pub enum Out {
    Val(M),
    /// An error is required, with the reason.
    Err(&'static str),
    /// The rules leave this open.
    Unspec(&'static str),
}

struct Composer<'a> {
    evs: &'a [E],
    targets: HashMap<usize, usize>,
    jumps: usize,
    max_jumps: usize,
    fuel: usize,
}

pub const MAX_DEPTH: usize = 128;

/// Compose one document.
pub fn compose(evs: &[E]) -> Out {
    let targets = match alias_targets(evs) {
        Ok(t) => t,
        Err(_) => return Out::Err("unknown anchor"),
    };
    let mut c = Composer { evs, targets, jumps: 0, max_jumps: evs.len() * 200, fuel: 3_000_000 };
    let mut pos = 0;
    let r = c.node(&mut pos, 0);
    let jumps = c.jumps;
    match r {
        Out::Val(_) if jumps > evs.len() * 50 => Out::Unspec("near the repetition limit"),
        r => r,
    }
}

fn tag_str(t: &Option<Vec<u8>>) -> Result<Option<&str>, ()> {
    match t {
        None => Ok(None),
        Some(b) => std::str::from_utf8(b).map(Some).map_err(|_| ()),
    }
}

impl<'a> Composer<'a> {
    fn node(&mut self, pos: &mut usize, depth: usize) -> Out {
        if self.fuel == 0 {
            return Out::Unspec("composition too large");
        }
        self.fuel -= 1;
        let evs = self.evs;
        let i = *pos;
        *pos += 1;
        match &evs[i].ev {
            Ev::Alias(_) => {
                self.jumps += 1;
                if self.jumps > self.max_jumps {
                    return Out::Err("repetition limit");
                }
                let mut p = self.targets[&i];
                self.node(&mut p, depth)
            }
            Ev::Scalar { tag, value, style, .. } => {
                let t = match tag_str(tag) {
                    Ok(t) => t,
                    Err(()) => return Out::Unspec("tag not UTF-8"),
                };
                let v = match std::str::from_utf8(value) {
                    Ok(v) => v,
                    Err(_) => return Out::Unspec("value not UTF-8"),
                };
                match scalar_ref(t, *style == Style::Plain, v) {
                    Res::Val(m) => Out::Val(m),
                    Res::Err => Out::Err("core tag"),
                    Res::Unspec => Out::Unspec("scalar"),
                }
            }
            Ev::SeqStart { tag, .. } => {
                if depth >= MAX_DEPTH {
                    return Out::Err("recursion limit");
                }
                let mut v = Vec::new();
                loop {
                    if matches!(evs[*pos].ev, Ev::SeqEnd) {
                        *pos += 1;
                        break;
                    }
                    match self.node(pos, depth + 1) {
                        Out::Val(m) => v.push(m),
                        r => return r,
                    }
                }
                wrap(tag, M::Seq(v))
            }
            Ev::MapStart { tag, .. } => {
                if depth >= MAX_DEPTH {
                    return Out::Err("recursion limit");
                }
                let mut v = Vec::new();
                let mut seen = HashSet::new();
                loop {
                    if matches!(evs[*pos].ev, Ev::MapEnd) {
                        *pos += 1;
                        break;
                    }
                    let k = match self.node(pos, depth + 1) {
                        Out::Val(m) => m,
                        r => return r,
                    };
                    if !seen.insert(k.canon()) {
                        // the rest of the document is not read any more
                        return Out::Err("duplicate key");
                    }
                    match self.node(pos, depth + 1) {
                        Out::Val(m) => v.push((k, m)),
                        r => return r,
                    }
                }
                wrap(tag, M::Map(v))
            }
            _ => unreachable!(),
        }
    }
}

fn wrap(tag: &Option<Vec<u8>>, m: M) -> Out {
    match tag_str(tag) {
        Err(()) => Out::Unspec("tag not UTF-8"),
        Ok(Some("!")) => Out::Unspec("non-specific tag"),
        Ok(Some(t)) if t.starts_with("!!") => Out::Unspec("tag"),
        Ok(Some(t)) if t.starts_with('!') => Out::Val(M::Tag(t[1..].to_string(), Box::new(m))),
        _ => Out::Val(m),
    }
}

/// Outcome of a whole stream read as one value.
pub fn single(input: &[u8]) -> Out {
    let d = docs(input);
    if d.err.is_some() {
        return Out::Err("syntax");
    }
    match d.docs.len() {
        0 => Out::Val(M::Null),
        1 => compose(&d.docs[0].events),
        _ => Out::Err("more than one document"),
    }
}
