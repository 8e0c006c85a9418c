//! C17: histories of indexed reads and writes against a model tree.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::props::c14::{fixed_keys, respell};
use serde_yaml::Value;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "random histories of up to 40 indexed operations on random trees (tagged, null and scalar nodes, keys of every kind): chains of reads, writes, takes and in-place changes by text, value and integer index in every form the index type allows, present, absent, out of bounds and of the wrong kind; after each operation the whole tree, the value read and whether the operation panicked are compared with a model; every node kind times every index kind exhaustively; non-trivial = distinct (tree, history)",
        assumptions: &["writing by key into a tagged null may insert or panic, but nothing else"],
        subs: vec![exhaustive("kinds", |_| kinds_count(), kinds), random("history", 8, history), random("reads", 3, reads)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

#[derive(Clone, Debug)]
enum Ix {
    U(usize),
    S(String),
    V(M),
}
fn untag(mut m: &M) -> &M {
    while let M::Tag(_, x) = m {
        m = x;
    }
    m
}
fn key_of(ix: &Ix) -> M {
    match ix {
        Ix::U(u) => M::Int(*u as i128),
        Ix::S(s) => M::s(s),
        Ix::V(m) => m.clone(),
    }
}
fn get<'a>(m: &'a M, ix: &Ix) -> Option<&'a M> {
    match (untag(m), ix) {
        (M::Seq(v), Ix::U(u)) => v.get(*u),
        (M::Map(v), ix) => {
            let k = key_of(ix).canon();
            v.iter().find(|(l, _)| l.canon() == k).map(|(_, x)| x)
        }
        _ => None,
    }
}
fn get_mut<'a>(m: &'a mut M, ix: &Ix) -> Option<&'a mut M> {
    match (m, ix) {
        (M::Tag(_, x), ix) => get_mut(x, ix),
        (M::Seq(v), Ix::U(u)) => v.get_mut(*u),
        (M::Map(v), ix) => {
            let k = key_of(ix).canon();
            v.iter_mut().find(|(l, _)| l.canon() == k).map(|(_, x)| x)
        }
        _ => None,
    }
}
enum Slot<'a> {
    At(&'a mut M),
    Panics,
    /// a tagged null addressed by key
    Open,
}
fn slot<'a>(m: &'a mut M, ix: &Ix) -> Slot<'a> {
    if matches!(m, M::Null) && !matches!(ix, Ix::U(_)) {
        *m = M::Map(vec![]);
    } else if matches!(untag(m), M::Null) && !matches!(ix, Ix::U(_)) {
        return Slot::Open;
    }
    match (m, ix) {
        (M::Tag(_, x), ix) => slot(x, ix),
        (M::Seq(v), Ix::U(u)) => v.get_mut(*u).map_or(Slot::Panics, Slot::At),
        (M::Map(v), ix) => {
            let k = key_of(ix);
            let c = k.canon();
            let i = match v.iter().position(|(l, _)| l.canon() == c) {
                Some(i) => i,
                None => {
                    v.push((k, M::Null));
                    v.len() - 1
                }
            };
            Slot::At(&mut v[i].1)
        }
        _ => Slot::Panics,
    }
}

/// Read by every form of the index; all must agree.
fn read<'a>(c: &mut Case, v: &'a Value, ix: &Ix) -> Result<Option<&'a Value>, Fail> {
    let mut forms: Vec<(&str, Option<&'a Value>)> = vec![];
    let mut brackets: Vec<(&str, &'a Value)> = vec![];
    match ix {
        Ix::U(u) => {
            forms.push(("usize", v.get(*u)));
            forms.push(("&usize", v.get(u)));
            forms.push(("&&usize", v.get(&u)));
            brackets.push(("usize", &v[*u]));
            brackets.push(("&usize", &v[u]));
        }
        Ix::S(s) => {
            forms.push(("str", v.get(s.as_str())));
            forms.push(("&&str", v.get(&s.as_str())));
            forms.push(("String", v.get(s.clone())));
            forms.push(("&String", v.get(s)));
            forms.push(("Value", v.get(Value::from(s.as_str()))));
            forms.push(("&Value", v.get(&Value::from(s.as_str()))));
            brackets.push(("str", &v[s.as_str()]));
            brackets.push(("String", &v[s.clone()]));
            brackets.push(("&Value", &v[&Value::String(s.clone())]));
        }
        Ix::V(m) => {
            let k = to_val(m);
            let k2 = to_val(&respell(&mut c.rng, m));
            forms.push(("&Value", v.get(&k)));
            forms.push(("respelled Value", v.get(&k2)));
            brackets.push(("&Value", &v[&k]));
            forms.push(("Value", v.get(k.clone())));
            brackets.push(("Value", &v[k]));
            if let M::S(s) = m {
                forms.push(("str", v.get(s.as_str())));
            }
        }
    }
    let first = forms[0].1;
    for (name, f) in &forms {
        ensure!(f.map(|x| x as *const Value) == first.map(|x| x as *const Value), "forms", "index {ix:?} as {name} finds {f:?}, as {} {first:?} in {v:?}", forms[0].0);
    }
    for (name, b) in &brackets {
        match first {
            Some(x) => ensure!(std::ptr::eq(*b, x), "brackets", "[{ix:?}] as {name} gives {b:?} instead of {x:?}"),
            None => ensure!(matches!(b, Value::Null), "brackets-null", "[{ix:?}] as {name} gives {b:?} though nothing is there, in {v:?}"),
        }
    }
    c.evn("reads", (forms.len() + brackets.len()) as u64);
    Ok(first)
}
fn read_checked<'a>(c: &mut Case, v: &'a Value, m: &M, ix: &Ix) -> Result<Option<&'a Value>, Fail> {
    let got = match guarded(|| read(c, v, ix)) {
        Ok(g) => g?,
        Err(p) => return fail("read-panic", format!("reading [{ix:?}] of {v:?} panicked: {p}")),
    };
    let want = get(m, ix);
    match (got, want) {
        (None, None) => c.ev("absent"),
        (Some(g), Some(w)) if from_val(g).same(w) => c.ev("present"),
        _ => return fail("read", format!("[{ix:?}] of {v:?} is {got:?} instead of {want:?}")),
    }
    Ok(got)
}
/// The place written to by an index, in one of its forms.
fn write_slot<'a>(r: &mut Rng, v: &'a mut Value, ix: &Ix) -> &'a mut Value {
    match ix {
        Ix::U(u) => {
            if r.bool() {
                &mut v[*u]
            } else {
                &mut v[u]
            }
        }
        Ix::S(s) => match r.below(5) {
            0 => &mut v[s.as_str()],
            1 => &mut v[s.clone()],
            2 => &mut v[s],
            3 => &mut v[&s.as_str()],
            _ => &mut v[Value::from(s.as_str())],
        },
        Ix::V(m) => {
            let k = to_val(m);
            if r.bool() {
                &mut v[&k]
            } else {
                &mut v[k]
            }
        }
    }
}
fn get_mut_form<'a>(r: &mut Rng, v: &'a mut Value, ix: &Ix) -> Option<&'a mut Value> {
    match ix {
        Ix::U(u) => {
            if r.bool() {
                v.get_mut(*u)
            } else {
                v.get_mut(u)
            }
        }
        Ix::S(s) => match r.below(4) {
            0 => v.get_mut(s.as_str()),
            1 => v.get_mut(s.clone()),
            2 => v.get_mut(&s),
            _ => v.get_mut(Value::from(s.as_str())),
        },
        Ix::V(m) => {
            let k = to_val(m);
            if r.bool() {
                v.get_mut(&k)
            } else {
                v.get_mut(k)
            }
        }
    }
}

fn any_ix(r: &mut Rng, m: &M) -> Ix {
    // mostly an entry that exists
    let absent = |r: &mut Rng| match r.below(8) {
        0 => Ix::U(*r.pick(&[0, 1, 2, usize::MAX, usize::MAX - 1, 1 << 32, 1 << 63])),
        1 => Ix::U(r.below(6)),
        2 => Ix::V(r.pick(&fixed_keys()).clone()),
        3 => Ix::S(gen_string(r)),
        4 => Ix::V(gen_scalar(r)),
        _ => Ix::S((*r.pick(&["a", "b", "x", "", "0", "1", "null", "<<", "!t", "key"])).to_string()),
    };
    match untag(m) {
        M::Seq(v) => match r.below(8) {
            0 => absent(r),
            1 => Ix::U(v.len()),
            2 if !v.is_empty() => Ix::V(M::Int(r.below(v.len()) as i128)),
            _ if !v.is_empty() => Ix::U(r.below(v.len())),
            _ => Ix::U(0),
        },
        M::Map(v) if !v.is_empty() && r.chance(3, 4) => match &r.pick(v).0 {
            M::S(s) if r.chance(3, 4) => Ix::S(s.clone()),
            M::Int(i) if *i >= 0 && r.chance(3, 4) => Ix::U(*i as usize),
            M::Tag(_, x) if r.chance(1, 4) => Ix::V((**x).clone()),
            m => Ix::V(respell(r, m)),
        },
        _ => absent(r),
    }
}
fn chain(r: &mut Rng, m: &M) -> Vec<Ix> {
    let mut out = vec![];
    let mut at = Some(m);
    for _ in 0..r.range(1, 4) {
        let null = M::Null;
        let ix = any_ix(r, at.unwrap_or(&null));
        at = at.and_then(|m| get(m, &ix));
        out.push(ix);
        if r.chance(1, 3) {
            break;
        }
    }
    out
}
/// Random tree with few but colliding keys.
fn tree(r: &mut Rng, depth: usize, fuel: &mut usize) -> M {
    *fuel = fuel.saturating_sub(1);
    if depth == 0 || *fuel == 0 {
        return match r.below(5) {
            0 | 1 => M::Null,
            _ => gen_scalar(r),
        };
    }
    match r.below(12) {
        0 => M::Null,
        1 => gen_scalar(r),
        2 => M::Tag(gen_tag(r), Box::new(tree(r, depth - 1, fuel))),
        3..=5 => M::Seq((0..r.below(5)).map(|_| tree(r, depth - 1, fuel)).collect()),
        _ => {
            let mut v: Vec<(M, M)> = vec![];
            let f = fixed_keys();
            for _ in 0..r.below(6) {
                let k = match r.below(5) {
                    0 => r.pick(&f).clone(),
                    1 => M::Int(r.below(4) as i128),
                    2 => M::S(gen_string(r)),
                    _ => M::s(*r.pick(&["a", "b", "x", "0", "1", "null"])),
                };
                if v.iter().all(|(l, _)| l.canon() != k.canon()) {
                    v.push((k, tree(r, depth - 1, fuel)));
                }
            }
            M::Map(v)
        }
    }
}
/// Perform one write of `new` at `v[ix]`; model and tree must agree after.
fn write_checked(c: &mut Case, v: &mut Value, m: &mut M, path: &[Ix], new: &M, hist: &str) -> Result<bool, Fail> {
    let mut r = c.rng.clone();
    let before = m.clone();
    // the model
    let mut open = None;
    let mut panics = None;
    {
        let mut at = &mut *m;
        for (i, ix) in path.iter().enumerate() {
            match slot(at, ix) {
                Slot::At(x) => at = x,
                Slot::Panics => {
                    panics = Some(i);
                    break;
                }
                Slot::Open => {
                    open = Some(i);
                    break;
                }
            }
            if i + 1 == path.len() {
                *at = new.clone();
                break;
            }
        }
    }
    let nv = to_val(new);
    let res = guarded(|| {
        let mut at = &mut *v;
        for ix in path {
            at = write_slot(&mut r, at, ix);
        }
        *at = nv;
    });
    c.rng = r;
    let ctx = || format!("write at {path:?} of {before:?}{hist}");
    let got = from_val(v);
    if let Some(i) = open {
        if res.is_err() {
            ensure!(got.same(m), "panic-modified", "{} panicked and left {got:?}, {}", ctx(), diff(&got, m));
        } else {
            // it may insert under the tag: only that node may differ
            let mut at = &mut *m;
            for ix in &path[..i] {
                at = get_mut(at, ix).unwrap();
            }
            let mut gat = Some(&got);
            for ix in &path[..i] {
                gat = gat.and_then(|g| get(g, ix));
            }
            match gat {
                Some(g) => *at = g.clone(),
                None => return fail("open-lost", format!("{} lost the node: {got:?}", ctx())),
            }
            ensure!(got.same(m), "open-elsewhere", "{} changed something else: {got:?}, {}", ctx(), diff(&got, m));
        }
        c.ev("writes into tagged null");
        return Ok(false);
    }
    match (panics, &res) {
        (None, Err(p)) => return fail("write-panic", format!("{} panicked: {p}", ctx())),
        (Some(i), Ok(())) => return fail("write-accepted", format!("{} should have panicked at index {i}; now {got:?}", ctx())),
        (Some(_), Err(_)) => {
            ensure!(got.same(m), "panic-modified", "{} panicked and left {got:?}, {}", ctx(), diff(&got, m));
            c.ev("writes refused");
        }
        (None, Ok(())) => {
            ensure!(got.same(m), "write", "{} gave {got:?}, {}", ctx(), diff(&got, m));
            c.ev("writes");
        }
    }
    Ok(panics.is_none())
}
fn history(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut fuel = r.range(4, 40);
    let depth = r.range(1, 5);
    let mut m = tree(&mut r, depth, &mut fuel);
    let mut v = to_val(&m);
    let start = m.clone();
    let n = *r.pick(&[1, 5, 12, 40]);
    let mut log: Vec<String> = vec![];
    for _ in 0..n {
        let path = chain(&mut r, &m);
        let op = r.below(10);
        c.rng = Rng::new(r.next());
        let hist = || format!("\nafter {log:?}\nfrom {start:?}");
        match op {
            0..=2 => {
                // chained reading with brackets
                let mut at = Some(&m);
                let mut vt = Some(&v);
                for ix in &path {
                    let (Some(a), Some(b)) = (at, vt) else { break };
                    vt = read_checked(c, b, a, ix)?;
                    at = get(a, ix);
                }
            }
            3..=6 => {
                let mut f = 6;
                let new = tree(&mut r, 2, &mut f);
                write_checked(c, &mut v, &mut m, &path, &new, &hist())?;
            }
            7 => {
                // get_mut
                let mut f = 4;
                let new = tree(&mut r, 2, &mut f);
                let mut at = Some(&mut m);
                for ix in &path {
                    at = at.and_then(|a| get_mut(a, ix));
                }
                let found = at.is_some();
                if let Some(a) = at {
                    *a = new.clone();
                }
                let nv = to_val(&new);
                let res = guarded(|| {
                    let mut at = Some(&mut v);
                    for ix in &path {
                        at = at.and_then(|a| get_mut_form(&mut r, a, ix));
                    }
                    match at {
                        Some(a) => {
                            *a = nv;
                            true
                        }
                        None => false,
                    }
                });
                ensure!(res == Ok(found), "get-mut", "get_mut at {path:?} says {res:?}, expected {found}{}", hist());
                c.ev(if found { "get_mut present" } else { "get_mut absent" });
            }
            8 => {
                // take what is there, leaving null
                if let [ix] = &path[..] {
                    if let Some(x) = get_mut(&mut m, ix) {
                        let want = std::mem::replace(x, M::Null);
                        let got = guarded(|| std::mem::take(write_slot(&mut r, &mut v, ix)));
                        ensure!(matches!(&got, Ok(g) if from_val(g).same(&want)), "take", "taking [{ix:?}] gives {got:?} instead of {want:?}{}", hist());
                        c.ev("takes");
                    }
                }
            }
            _ => {
                // through the containers' own interfaces
                let shape = m.clone();
                if let (Some(map), M::Map(e)) = (v.as_mapping_mut(), untag(&shape)) {
                    if let Some((k, x)) = e.first() {
                        let got = guarded(|| map[to_val(k)].clone());
                        ensure!(matches!(&got, Ok(g) if from_val(g).same(x)), "mapping-index", "mapping[{k:?}] is {got:?}{}", hist());
                        if let M::S(s) = k {
                            let got = guarded(|| (map[s.as_str()].clone(), map[s].clone()));
                            ensure!(matches!(&got, Ok((g, h)) if from_val(g).same(x) && g == h), "mapping-index", "mapping[{k:?}] is {got:?}{}", hist());
                            let got = guarded(|| map[s.as_str()] = Value::from(5));
                            ensure!(got.is_ok(), "mapping-index-mut", "mapping[{k:?}] = … panicked {got:?}{}", hist());
                            *get_mut(&mut m, &Ix::S(s.clone())).unwrap() = M::Int(5);
                        }
                    }
                    let missing = "a key that is not there";
                    ensure!(guarded(|| map[missing].clone()).is_err() && guarded(|| map[missing] = Value::Null).is_err(), "mapping-missing", "indexing a mapping by a missing key did not panic{}", hist());
                    c.ev("mapping brackets");
                }
            }
        }
        let got = from_val(&v);
        ensure!(got.same(&m), "tree", "after operation {op} at {path:?}: {}\nis {got:?}{}", diff(&got, &m), hist());
        log.push(format!("{op}{path:?}"));
    }
    c.nontrivial(&(start.canon(), log.join(" ")));
    c.sample(|| format!("{start:?} {log:?}"));
    Ok(())
}
/// Many reads of one tree.
fn reads(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let mut fuel = 30;
    let m = match r.below(3) {
        0 => gen_m(&mut r, &GenCfg { nested_tags: true, ..GenCfg::default() }),
        _ => tree(&mut r, 5, &mut fuel),
    };
    let v = to_val(&m);
    for _ in 0..12 {
        let path = chain(&mut r, &m);
        let (mut at, mut vt) = (&m, &v);
        for ix in &path {
            let Some(next) = read_checked(c, vt, at, ix)? else { break };
            vt = next;
            at = get(at, ix).unwrap();
        }
    }
    ensure!(from_val(&v).same(&m), "read-modified", "reading changed {m:?} to {v:?}");
    c.rng = r;
    c.nontrivial(&m.canon());
    Ok(())
}

fn nodes() -> Vec<M> {
    let base = vec![
        M::Null,
        M::Bool(true),
        M::Int(0),
        M::F(0.0),
        M::s(""),
        M::s("abc"),
        M::Seq(vec![]),
        M::Seq(vec![M::Int(5), M::Null]),
        M::Map(vec![]),
        M::Map(vec![(M::s("0"), M::Int(1)), (M::Int(0), M::Int(2)), (M::F(0.0), M::Int(3)), (M::Null, M::Int(4)), (M::s(""), M::Int(5))]),
        M::Map(vec![(M::s("a"), M::Null)]),
    ];
    let mut v = base.clone();
    for b in &base {
        v.push(M::Tag("t".into(), Box::new(b.clone())));
        v.push(M::Tag("t".into(), Box::new(M::Tag("u".into(), Box::new(b.clone())))));
    }
    v
}
fn indexes() -> Vec<Ix> {
    let mut v = vec![Ix::U(0), Ix::U(1), Ix::U(2), Ix::U(usize::MAX), Ix::S("".into()), Ix::S("0".into()), Ix::S("a".into()), Ix::S("t".into())];
    v.extend(fixed_keys().into_iter().map(Ix::V));
    v
}
fn kinds_count() -> u64 {
    (nodes().len() * indexes().len() * 3) as u64
}
fn kinds(c: &mut Case, i: u64) -> R {
    let (ns, xs) = (nodes(), indexes());
    let i = i as usize;
    let (node, ix, form) = (&ns[i % ns.len()], &xs[i / ns.len() % xs.len()], i / ns.len() / xs.len());
    let v = to_val(node);
    c.rng = Rng::new(i as u64);
    read_checked(c, &v, node, ix)?;
    for new in [M::Int(77), M::Null] {
        let mut m = node.clone();
        let mut w = v.clone();
        write_checked(c, &mut w, &mut m, std::slice::from_ref(ix), &new, "")?;
        // and one level up
        let (mut m, path) = match form {
            0 => (M::Seq(vec![node.clone()]), Ix::U(0)),
            1 => (M::Map(vec![(M::s("k"), node.clone())]), Ix::S("k".into())),
            _ => (M::Tag("o".into(), Box::new(M::Map(vec![(M::Int(3), node.clone())]))), Ix::U(3)),
        };
        let mut w = to_val(&m);
        write_checked(c, &mut w, &mut m, &[path.clone(), ix.clone()], &new, "")?;
        // below: the entry is written through
        let mut w = to_val(&m);
        write_checked(c, &mut w, &mut m, &[path, ix.clone(), Ix::S("deeper".into()), Ix::S("still".into())], &new, "")?;
    }
    c.nontrivial(&("kinds", i));
    Ok(())
}
