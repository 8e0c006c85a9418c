//! C16: merge keys against a reference implementation.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use crate::props::c14::respell;
use serde_yaml::Value;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "random trees with '<<' at any depth (in mappings, sequences, tagged values, merged mappings, inside mapping keys) over a small pool of colliding keys, as values and as documents with anchors and aliases, long chains and wide lists; every small tree over two keys; the result is compared with a recursive reference (mappings that merged nothing must also keep their order), errors demanded exactly where the reference has one, a second application must change nothing; non-trivial = distinct trees with at least one merge",
        assumptions: &["the order of entries in a mapping that merged something is left open"],
        subs: vec![exhaustive("small", |_| small_count(), small), random("trees", 6, trees), random("documents", 3, documents), random("chains", 1, chains)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 64,
    }
}

fn is_merge(k: &M) -> bool {
    matches!(k, M::S(s) if s == "<<")
}
/// Entries of a mapping with everything it merges, first wins.
fn flat(v: &[(M, M)], out: &mut Vec<(M, M)>, seen: &mut HashMap<String, ()>) -> Result<(), String> {
    let mut merge = None;
    for (k, x) in v {
        if is_merge(k) {
            merge = Some(x);
        } else if seen.insert(k.canon(), ()).is_none() {
            out.push((k.clone(), x.clone()));
        }
    }
    match merge {
        None => Ok(()),
        Some(M::Map(m)) => flat(m, out, seen),
        Some(M::Seq(v)) => {
            for x in v {
                match x {
                    M::Map(m) => flat(m, out, seen)?,
                    x => return Err(format!("element {x:?}")),
                }
            }
            Ok(())
        }
        Some(x) => Err(format!("{x:?}")),
    }
}
pub fn reference(m: &M) -> Result<M, String> {
    Ok(match m {
        M::Map(v) => {
            let mut out = vec![];
            flat(v, &mut out, &mut HashMap::new())?;
            M::Map(out.into_iter().map(|(k, x)| Ok((k, reference(&x)?))).collect::<Result<_, String>>()?)
        }
        M::Seq(v) => M::Seq(v.iter().map(reference).collect::<Result<_, String>>()?),
        M::Tag(t, x) => M::Tag(t.clone(), Box::new(reference(x)?)),
        m => m.clone(),
    })
}
fn merges(m: &M) -> usize {
    match m {
        M::Map(v) => v.iter().map(|(k, x)| is_merge(k) as usize + merges(x)).sum(),
        M::Seq(v) => v.iter().map(merges).sum(),
        M::Tag(_, x) => merges(x),
        _ => 0,
    }
}
/// Equal leaves, tags, sequences and keys; `order`: for each mapping, whether
/// the original had nothing to merge there is decided by the caller through
/// `kept`, a set of canonical entry lists that must appear in order.
fn agree(got: &M, want: &M, path: &mut String) -> Result<(), String> {
    match (got, want) {
        (M::Map(a), M::Map(b)) => {
            if a.len() != b.len() {
                return Err(format!("at {path}: {} entries instead of {}: {got:?} instead of {want:?}", a.len(), b.len()));
            }
            let at: BTreeMap<String, &(M, M)> = a.iter().map(|e| (e.0.canon(), e)).collect();
            for (k, x) in b {
                let Some((k2, y)) = at.get(&k.canon()) else { return Err(format!("at {path}: key {k:?} is missing from {got:?}")) };
                if !k2.same(k) {
                    return Err(format!("at {path}: key {k2:?} instead of {k:?}"));
                }
                let n = path.len();
                let _ = write!(path, ".{k:?}");
                agree(y, x, path)?;
                path.truncate(n);
            }
            Ok(())
        }
        (M::Seq(a), M::Seq(b)) if a.len() == b.len() => {
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                let n = path.len();
                let _ = write!(path, "[{i}]");
                agree(x, y, path)?;
                path.truncate(n);
            }
            Ok(())
        }
        (M::Tag(t, x), M::Tag(u, y)) if t == u => agree(x, y, path),
        (a, b) if a.same(b) => Ok(()),
        _ => Err(format!("at {path}: {got:?} instead of {want:?}")),
    }
}
/// Mappings of the original that had no '<<' and were not merged into another
/// keep their order: walk the original and the result together.
fn order(orig: &M, got: &M) -> Result<(), String> {
    match (orig, got) {
        (M::Map(a), M::Map(b)) => {
            if a.iter().any(|(k, _)| is_merge(k)) {
                for (k, x) in a {
                    if let Some((_, y)) = b.iter().find(|(l, _)| l.canon() == k.canon()) {
                        order(x, y)?;
                    }
                }
                return Ok(());
            }
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if !k.same(l) {
                    return Err(format!("the order of {orig:?} changed: {got:?}"));
                }
                order(x, y)?;
            }
            Ok(())
        }
        (M::Seq(a), M::Seq(b)) => a.iter().zip(b).try_for_each(|(x, y)| order(x, y)),
        (M::Tag(_, x), M::Tag(_, y)) => order(x, y),
        _ => Ok(()),
    }
}
fn check(c: &mut Case, v: Value, m: &M) -> R {
    let mut v = v;
    let want = reference(m);
    let res = match guarded(|| {
        let mut w = v.clone();
        let r = w.apply_merge();
        (r, w)
    }) {
        Ok(x) => x,
        Err(p) => return fail("panic", format!("merging {m:?} panicked: {p}")),
    };
    let (res, w) = res;
    match (want, res) {
        (Ok(want), Ok(())) => {
            let got = from_val(&w);
            if let Err(e) = agree(&got, &want, &mut String::new()) {
                return fail("result", format!("merging {m:?}\ngives {got:?}\n{e}"));
            }
            ensure!(merges(&got) == 0, "left", "a '<<' is left in {got:?} from {m:?}");
            if let Err(e) = order(m, &got) {
                return fail("order", format!("merging {m:?}\n{e}"));
            }
            let mut again = w.clone();
            match again.apply_merge() {
                Ok(()) => {
                    let g2 = from_val(&again);
                    ensure!(g2.same(&got), "idempotent", "a second merge changes {got:?} to {g2:?}");
                }
                Err(e) => return fail("idempotent-error", format!("a second merge of {got:?} fails: {e}")),
            }
            // in place on the original as well
            ensure!(v.apply_merge().is_ok() && v == w, "deterministic", "the same merge twice gives {v:?} and {w:?}");
            c.ev(if merges(m) > 0 { "merged" } else { "nothing to merge" });
        }
        (Err(e), Err(x)) => {
            let s = x.to_string();
            ensure!(!s.is_empty() && x.location().is_none(), "error", "odd error {s:?}");
            ensure!(s.contains("merg"), "error-text", "the error of a bad merge ({e}) says {s:?}");
            c.ev("errors");
        }
        (Err(e), Ok(())) => return fail("accepted", format!("{m:?}\nwith a bad merge ({e}) was accepted and became {w:?}")),
        (Ok(_), Err(x)) => return fail("refused", format!("merging {m:?}\nfailed: {x}")),
    }
    if merges(m) > 0 {
        c.nontrivial(&m.canon());
    }
    Ok(())
}

fn key(r: &mut Rng) -> M {
    match r.below(14) {
        0 => M::F(if r.bool() { 0.0 } else { -0.0 }),
        1 => M::Int(r.below(3) as i128),
        2 => M::F(f64::NAN),
        3 => M::Null,
        4 => M::Seq(vec![M::Map(vec![(M::s("<<"), M::Map(vec![(M::s("a"), M::Int(1))]))])]),
        5 => M::Map(vec![(M::s("<<"), M::Int(1)), (M::s("b"), M::Null)]),
        6 => M::Tag("t".into(), Box::new(M::s("<<"))),
        7 => M::s(*r.pick(&["<", "<<<", "<< ", "!<<"])),
        _ => M::s(*r.pick(&["a", "b", "c", "d"])),
    }
}
fn mapping(r: &mut Rng, depth: usize, fuel: &mut usize, bad: u32) -> M {
    let n = r.below(5);
    let mut v: Vec<(M, M)> = vec![];
    for _ in 0..n {
        let k = key(r);
        if v.iter().all(|(l, _)| l.canon() != k.canon()) {
            v.push((k, node(r, depth, fuel, bad)));
        }
    }
    if r.chance(3, 5) {
        let x = merge_value(r, depth, fuel, bad);
        let at = r.below(v.len() + 1);
        v.insert(at, (M::s("<<"), x));
    }
    M::Map(v)
}
fn merge_value(r: &mut Rng, depth: usize, fuel: &mut usize, bad: u32) -> M {
    *fuel = fuel.saturating_sub(1);
    let deeper = depth > 0 && *fuel > 0;
    let d = depth.saturating_sub(1);
    if r.chance(bad, 1000) {
        return match r.below(7) {
            0 => M::Null,
            1 => M::s("x"),
            2 => M::Tag("t".into(), Box::new(mapping(r, d, fuel, 0))),
            3 => M::Seq(vec![mapping(r, d, fuel, 0), M::Seq(vec![mapping(r, d, fuel, 0)])]),
            4 => M::Seq(vec![M::Int(1)]),
            5 => M::Seq(vec![mapping(r, d, fuel, 0), M::Tag("t".into(), Box::new(mapping(r, d, fuel, 0)))]),
            _ => M::Bool(true),
        };
    }
    if !deeper {
        return if r.bool() { M::Map(vec![]) } else { M::Seq(vec![]) };
    }
    if r.chance(2, 5) {
        let n = r.below(4);
        M::Seq((0..n).map(|_| mapping(r, d, fuel, bad)).collect())
    } else {
        mapping(r, d, fuel, bad)
    }
}
fn node(r: &mut Rng, depth: usize, fuel: &mut usize, bad: u32) -> M {
    *fuel = fuel.saturating_sub(1);
    if depth == 0 || *fuel == 0 || r.chance(1, 3) {
        return match r.below(6) {
            0 => M::Null,
            1 => M::s("<<"),
            2 => M::Seq(vec![]),
            3 => gen_scalar(r),
            _ => M::Int(r.below(1000) as i128),
        };
    }
    match r.below(6) {
        0 => M::Tag(gen_tag(r), Box::new(node(r, depth - 1, fuel, bad))),
        1 => M::Seq((0..r.below(4)).map(|_| node(r, depth - 1, fuel, bad)).collect()),
        _ => mapping(r, depth - 1, fuel, bad),
    }
}
fn trees(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let depth = r.range(1, 7);
    let mut fuel = r.range(3, 80);
    let bad = *r.pick(&[0, 0, 0, 30, 200]);
    let m = match r.below(8) {
        0 => node(r, depth, &mut fuel, bad),
        1 => gen_m(r, &GenCfg { nested_tags: true, merge_keys: true, ..GenCfg::default() }),
        _ => mapping(r, depth, &mut fuel, bad),
    };
    c.sample(|| format!("{m:?}"));
    check(c, to_val(&m), &m)?;
    if r.chance(1, 4) {
        // the same tree in another spelling and order gives an equal result
        let n = respell(r, &m);
        if reference(&m).is_ok() {
            check(c, to_val(&n), &n)?;
        }
    }
    Ok(())
}

/// Documents with anchored mappings merged through aliases.
fn documents(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = r.range(1, 6);
    let mut text = String::new();
    let mut defs: Vec<M> = vec![];
    let mut top: Vec<(M, M)> = vec![];
    for i in 0..n {
        let indent = "  ";
        let mut entries: Vec<(M, M)> = vec![];
        let mut body = String::new();
        let keys = r.below(4);
        let merge_at = r.below(keys + 1);
        let has_merge = !defs.is_empty() && r.chance(3, 4);
        for j in 0..=keys {
            if j == merge_at && has_merge {
                let spelled = *r.pick(&["<<", "<<", "\"<<\"", "'<<'"]);
                match r.below(4) {
                    0 | 1 => {
                        let k = r.below(defs.len());
                        let _ = write!(body, "{indent}{spelled}: *m{k}\n");
                        entries.push((M::s("<<"), defs[k].clone()));
                    }
                    2 => {
                        let ks: Vec<usize> = (0..r.below(4)).map(|_| r.below(defs.len())).collect();
                        let l: Vec<String> = ks.iter().map(|k| format!("*m{k} ")).collect();
                        let _ = write!(body, "{indent}{spelled}: [{}]\n", l.join(", "));
                        entries.push((M::s("<<"), M::Seq(ks.iter().map(|k| defs[*k].clone()).collect())));
                    }
                    _ => {
                        let k = r.below(defs.len());
                        let _ = write!(body, "{indent}{spelled}:\n{indent}  - {{x: {i}, <<: *m{k} }}\n{indent}  - *m{k}\n");
                        entries.push((M::s("<<"), M::Seq(vec![M::Map(vec![(M::s("x"), M::Int(i as i128)), (M::s("<<"), defs[k].clone())]), defs[k].clone()])));
                    }
                }
            }
            if j == keys {
                break;
            }
            let k = format!("{}{}", r.pick(&["k", "l"]), r.below(4));
            if entries.iter().any(|(x, _)| matches!(x, M::S(s) if *s == k)) {
                continue;
            }
            match r.below(4) {
                0 if !defs.is_empty() => {
                    let d = r.below(defs.len());
                    let _ = write!(body, "{indent}{k}: *m{d}\n");
                    entries.push((M::s(&k), defs[d].clone()));
                }
                1 if !defs.is_empty() => {
                    let d = r.below(defs.len());
                    let _ = write!(body, "{indent}{k}: !tag [{{<<: *m{d} , own: 1}}, *m{d} ]\n");
                    entries.push((M::s(&k), M::Tag("tag".into(), Box::new(M::Seq(vec![M::Map(vec![(M::s("<<"), defs[d].clone()), (M::s("own"), M::Int(1))]), defs[d].clone()])))));
                }
                _ => {
                    let x = (i * 100 + j) as i128;
                    let _ = write!(body, "{indent}{k}: {x}\n");
                    entries.push((M::s(&k), M::Int(x)));
                }
            }
        }
        if entries.is_empty() {
            let _ = write!(text, "n{i}: &m{i} {{}}\n");
        } else {
            let _ = write!(text, "n{i}: &m{i}\n{body}");
        }
        let m = M::Map(entries);
        defs.push(m.clone());
        top.push((M::s(&format!("n{i}")), m));
    }
    let m = M::Map(top);
    let v: Value = match serde_yaml::from_str(&text) {
        Ok(v) => v,
        Err(e) => return fail("document", format!("{e} in\n{text}")),
    };
    let read = from_val(&v);
    ensure!(read.same(&m), "document-read", "{}\nfrom\n{text}", diff(&read, &m));
    c.sample(|| text.clone());
    check(c, v, &m)
}

fn chains(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = gen_len(r, 400).max(1);
    let m = match r.below(3) {
        // a chain of '<<' under '<<'
        0 => {
            let mut m = M::Map(vec![(M::s("k"), M::Int(0))]);
            for i in 0..n {
                let e = (M::s("<<"), if r.chance(1, 4) { M::Seq(vec![M::Map(vec![(M::s("k"), M::s("list"))]), m]) } else { m });
                let mut v = vec![(M::s(&format!("k{}", r.below(n))), M::Int(i as i128))];
                v.insert(r.below(2), e);
                m = M::Map(v);
            }
            m
        }
        // a wide list
        1 => M::Map(vec![
            (M::s("own"), M::Int(1)),
            (M::s("<<"), M::Seq((0..n).map(|i| M::Map(vec![(M::s(&format!("k{}", r.below(n))), M::Int(i as i128)), (M::s("<<"), M::Map(vec![(M::s(&format!("k{}", r.below(n))), M::Int(-(i as i128)))]))])).collect())),
        ]),
        // nested values, each with its own merge
        _ => {
            let mut m = M::Int(1);
            for i in 0..n {
                m = match r.below(4) {
                    0 => M::Seq(vec![m, M::Null]),
                    1 => M::Tag("t".into(), Box::new(m)),
                    2 => M::Map(vec![(M::s("<<"), M::Map(vec![(M::s("a"), m), (M::s("b"), M::Int(i as i128))])), (M::s("b"), M::Null)]),
                    _ => M::Map(vec![(M::s("a"), m), (M::s("<<"), M::Seq(vec![M::Map(vec![(M::s("a"), M::Int(9))])]))]),
                };
            }
            m
        }
    };
    check(c, to_val(&m), &m)?;
    c.ev("chains");
    Ok(())
}

// every small tree: value of a mapping with keys a, b, << over a tiny grammar
fn small_count() -> u64 {
    // merge value (6^2 choices nested) x a x b x position x wrapper
    14 * 14 * 4 * 4 * 3 * 4
}
fn small(c: &mut Case, mut i: u64) -> R {
    let mut take = |n: u64| {
        let k = i % n;
        i /= n;
        k
    };
    let (x, y, a, b, pos, wrap) = (take(14), take(14), take(4), take(4), take(3), take(4));
    let (sa, sb) = (M::s("a"), M::s("b"));
    let g = |k: u64, inner: M| -> M {
        match k {
            0 => M::Map(vec![]),
            1 => M::Map(vec![(sa.clone(), M::Int(10))]),
            2 => M::Map(vec![(sb.clone(), M::Int(11)), (sa.clone(), M::Int(12))]),
            3 => M::Map(vec![(M::s("<<"), inner)]),
            4 => M::Map(vec![(sa.clone(), M::Int(13)), (M::s("<<"), inner)]),
            5 => M::Map(vec![(M::s("<<"), inner), (sb.clone(), M::Int(14))]),
            6 => M::Seq(vec![]),
            7 => M::Seq(vec![M::Map(vec![(sa.clone(), M::Int(15))]), inner]),
            8 => M::Seq(vec![inner, M::Map(vec![(sa.clone(), M::Int(16)), (sb.clone(), M::Int(17))])]),
            9 => M::Seq(vec![M::Map(vec![(M::s("<<"), inner), (sa.clone(), M::Int(18))]), M::Map(vec![(sb.clone(), M::Int(19))])]),
            10 => M::Map(vec![(sa.clone(), M::Map(vec![(M::s("<<"), inner), (sb.clone(), M::Int(20))]))]),
            11 => M::s("x"),
            12 => M::Tag("t".into(), Box::new(inner)),
            _ => M::Null,
        }
    };
    let v = g(x, g(y, M::Map(vec![(sa.clone(), M::Int(30)), (sb.clone(), M::Int(31))])));
    let own = |k: u64, n: i128| match k {
        0 => None,
        1 => Some(M::Int(n)),
        2 => Some(M::Map(vec![(M::s("<<"), M::Map(vec![(M::s("a"), M::Int(n))]))])),
        _ => Some(M::Seq(vec![M::Map(vec![(M::s("<<"), M::Seq(vec![])), (M::s("b"), M::Int(n))])])),
    };
    let mut e: Vec<(M, M)> = vec![];
    if let Some(m) = own(a, 1) {
        e.push((sa.clone(), m));
    }
    if let Some(m) = own(b, 2) {
        e.push((sb.clone(), m));
    }
    let pos = (pos as usize).min(e.len());
    e.insert(pos, (M::s("<<"), v));
    let m = M::Map(e);
    let m = match wrap {
        0 => m,
        1 => M::Seq(vec![M::Int(1), m]),
        2 => M::Tag("w".into(), Box::new(m)),
        _ => M::Map(vec![(M::s("o"), m)]),
    };
    check(c, to_val(&m), &m)
}
