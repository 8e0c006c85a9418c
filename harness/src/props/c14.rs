//! C14: a mapping behaves as an insertion-ordered map under any history.
use crate::ensure;
use crate::fw::*;
use crate::model::*;
use serde::de::value::MapDeserializer;
use serde::Deserialize;
use serde_yaml::mapping::Entry;
use serde_yaml::{Mapping, Value};
use std::collections::HashMap;

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "random histories of up to 60 operations (large ones up to 3000 keys) over a pool of keys of all kinds with equal keys in different spellings (signed zeros, NaN patterns, mappings in different entry order, tagged and plain strings), every public operation of Mapping and its entries and iterators; after every operation contents, order, every lookup form for every pool key, length and capacity are compared with a list; equality, order and hash against shuffled copies; repeated keys refused on reading; non-trivial = distinct (history, contents)",
        assumptions: &["an empty history of the key type's own mutation: keys are never changed in place"],
        subs: vec![random("history", 8, history), random("large", 1, large), random("orders", 3, orders), random("repeated", 2, repeated)],
        quick_secs: 20.0,
        thorough_secs: 300.0,
        stack_mb: 16,
    }
}

struct L {
    v: Vec<(M, M)>,
    at: HashMap<String, usize>,
}
impl L {
    fn new() -> L {
        L { v: vec![], at: HashMap::new() }
    }
    fn reindex(&mut self) {
        self.at = self.v.iter().enumerate().map(|(i, (k, _))| (k.canon(), i)).collect();
    }
    fn pos(&self, k: &M) -> Option<usize> {
        self.at.get(&k.canon()).copied()
    }
    fn insert(&mut self, k: &M, v: &M) -> Option<M> {
        match self.pos(k) {
            Some(i) => Some(std::mem::replace(&mut self.v[i].1, v.clone())),
            None => {
                self.at.insert(k.canon(), self.v.len());
                self.v.push((k.clone(), v.clone()));
                None
            }
        }
    }
    fn swap_remove(&mut self, k: &M) -> Option<(M, M)> {
        let i = self.pos(k)?;
        let e = self.v.swap_remove(i);
        self.at.remove(&e.0.canon());
        if i < self.v.len() {
            self.at.insert(self.v[i].0.canon(), i);
        }
        Some(e)
    }
    fn shift_remove(&mut self, k: &M) -> Option<(M, M)> {
        let i = self.pos(k)?;
        let e = self.v.remove(i);
        self.reindex();
        Some(e)
    }
}
fn same_o(a: &Option<Value>, b: &Option<M>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => from_val(a).same(b),
        _ => false,
    }
}
fn same_e(a: &Option<(Value, Value)>, b: &Option<(M, M)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some((k, v)), Some((l, w))) => from_val(k).same(l) && from_val(v).same(w),
        _ => false,
    }
}

/// The same key in another spelling, where there is one.
pub fn respell(r: &mut Rng, m: &M) -> M {
    match m {
        M::F(f) if *f == 0.0 => M::F(-*f),
        M::F(f) if f.is_nan() => M::F(f64::from_bits(if r.bool() { 0x7ff8_0000_0000_0001 } else { 0xfff8_0000_0000_0000 })),
        M::Map(v) => {
            let mut v: Vec<(M, M)> = v.iter().map(|(k, x)| (respell(r, k), respell(r, x))).collect();
            for i in (1..v.len()).rev() {
                let j = r.below(i + 1);
                v.swap(i, j);
            }
            M::Map(v)
        }
        M::Seq(v) => M::Seq(v.iter().map(|x| respell(r, x)).collect()),
        M::Tag(t, x) => M::Tag(t.clone(), Box::new(respell(r, x))),
        m => m.clone(),
    }
}
pub fn fixed_keys() -> Vec<M> {
    vec![
        M::Null,
        M::Bool(true),
        M::Bool(false),
        M::Int(0),
        M::Int(1),
        M::Int(-1),
        M::Int(i64::MIN as i128),
        M::Int(i64::MAX as i128),
        M::Int(u64::MAX as i128),
        M::Int(i64::MAX as i128 + 1),
        M::F(0.0),
        M::F(1.0),
        M::F(-1.0),
        M::F(f64::NAN),
        M::F(f64::INFINITY),
        M::F(f64::NEG_INFINITY),
        M::F(1.8446744073709552e19),
        M::s(""),
        M::s("1"),
        M::s("1.0"),
        M::s("true"),
        M::s("null"),
        M::s("~"),
        M::s("a"),
        M::s("A"),
        M::s("a "),
        M::s("!a"),
        M::s("\u{e9}"),
        M::s("e\u{301}"),
        M::s("<<"),
        M::s("a\0"),
        M::Seq(vec![]),
        M::Seq(vec![M::s("a")]),
        M::Seq(vec![M::Map(vec![(M::s("x"), M::Int(1)), (M::s("y"), M::F(0.0))])]),
        M::Map(vec![]),
        M::Map(vec![(M::s("a"), M::Int(1)), (M::s("b"), M::Int(2)), (M::F(0.0), M::F(f64::NAN))]),
        M::Map(vec![(M::Map(vec![(M::Int(1), M::Null), (M::Int(2), M::Null)]), M::Int(1))]),
        M::Tag("a".into(), Box::new(M::s("a"))),
        M::Tag("a".into(), Box::new(M::Null)),
        M::Tag("b".into(), Box::new(M::Map(vec![(M::s("p"), M::Int(1)), (M::s("q"), M::Int(2))]))),
        M::Tag("a".into(), Box::new(M::Tag("b".into(), Box::new(M::s("a"))))),
    ]
}
fn pool(r: &mut Rng) -> Vec<M> {
    let f = fixed_keys();
    let n = r.range(2, 14);
    let mut p: Vec<M> = (0..n)
        .map(|_| match r.below(5) {
            0 => gen_m_at(r, &GenCfg { nested_tags: true, ..GenCfg::default() }, 2, &mut 6, false),
            1 => M::S(gen_string(r)),
            _ => r.pick(&f).clone(),
        })
        .collect();
    // near relatives of a string key
    if let Some(M::S(s)) = p.iter().find(|m| matches!(m, M::S(_))).cloned() {
        p.push(M::S(format!("{s}x")));
        p.push(M::Tag("t".into(), Box::new(M::S(s))));
    }
    p
}

macro_rules! by {
    // call a method with the key in one of its forms
    ($r:expr, $k:expr, $kv:expr, |$i:ident| $e:expr) => {
        match ($k, $r.below(6)) {
            (M::S(s), 0) => {
                let $i: &str = s;
                $e
            }
            (M::S(s), 1) => {
                let $i: String = s.clone();
                $e
            }
            (M::S(s), 2) => {
                let $i: &String = s;
                $e
            }
            (M::S(s), 3) => {
                let t: &str = s;
                let $i: &&str = &t;
                $e
            }
            (_, 4) => {
                let $i: Value = $kv.clone();
                $e
            }
            _ => {
                let $i: &Value = &$kv;
                $e
            }
        }
    };
}

/// Everything observable agrees with the list.
fn audit(c: &mut Case, m: &Mapping, l: &L, probes: &[M], what: &dyn Fn() -> String) -> R {
    ensure!(m.len() == l.v.len() && m.is_empty() == l.v.is_empty(), "length", "length {} and is_empty {}, expected {}\n{}", m.len(), m.is_empty(), l.v.len(), what());
    ensure!(m.capacity() >= m.len(), "capacity", "capacity {} below length {}\n{}", m.capacity(), m.len(), what());
    let mut n = 0;
    for (i, (k, v)) in m.iter().enumerate() {
        let ok = l.v.get(i).is_some_and(|(a, b)| from_val(k).same(a) && from_val(v).same(b));
        ensure!(ok, "contents", "entry {i} is {k:?}: {v:?}, expected {:?}\n{}", l.v.get(i), what());
        n += 1;
    }
    ensure!(n == l.v.len(), "iteration", "iteration visits {n} of {} entries\n{}", l.v.len(), what());
    for p in probes {
        let kv = to_val(p);
        let want = l.pos(p).map(|i| l.v[i].1.clone());
        let got = m.get(&kv);
        ensure!(same_o(&got.cloned(), &want), "lookup", "get({kv:?}) gives {got:?}, expected {want:?}\n{}", what());
        ensure!(m.contains_key(&kv) == want.is_some(), "contains", "contains_key({kv:?}) is {}\n{}", m.contains_key(&kv), what());
        if let M::S(s) = p {
            let a = m.get(s.as_str()).map(|v| v as *const Value);
            let b = m.get(s).map(|v| v as *const Value);
            let d = got.map(|v| v as *const Value);
            ensure!(a == d && b == d, "string-lookup", "lookup of {s:?} by string slice, by string and by value differ\n{}", what());
            ensure!(m.contains_key(s.as_str()) == want.is_some() && m.contains_key(s) == want.is_some(), "string-contains", "contains_key of {s:?} by string differs\n{}", what());
        }
        c.ev("lookups");
    }
    Ok(())
}

fn history(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let keys = pool(r);
    let mut l = L::new();
    let mut m = if r.bool() { Mapping::new() } else { Mapping::with_capacity(r.below(40)) };
    let steps = r.range(1, 60);
    let mut log: Vec<String> = vec![];
    for step in 0..steps {
        let k = respell_or(r, &keys);
        let kv = to_val(&k);
        let v = if r.chance(1, 4) { r.pick(&keys).clone() } else { M::Int(step as i128) };
        let vv = to_val(&v);
        let op = r.below(30);
        log.push(format!("{op}:{k:?}"));
        let what = || format!("step {step} (operation {op}, key {k:?}, value {v:?}) of {log:?}");
        match op {
            0..=5 => {
                let got = m.insert(kv, vv);
                let want = l.insert(&k, &v);
                ensure!(same_o(&got, &want), "insert", "insert returned {got:?}, expected {want:?}\n{}", what());
                c.ev("insert");
            }
            6 => {
                let got = by!(r, &k, kv, |i| m.remove(i));
                let want = l.swap_remove(&k).map(|e| e.1);
                ensure!(same_o(&got, &want), "remove", "remove returned {got:?}, expected {want:?}\n{}", what());
                c.ev("remove");
            }
            7 => {
                let got = by!(r, &k, kv, |i| m.remove_entry(i));
                let want = l.swap_remove(&k);
                ensure!(same_e(&got, &want), "remove", "remove_entry returned {got:?}, expected {want:?}\n{}", what());
                c.ev("remove");
            }
            8 => {
                let got = by!(r, &k, kv, |i| m.swap_remove(i));
                let want = l.swap_remove(&k).map(|e| e.1);
                ensure!(same_o(&got, &want), "remove", "swap_remove returned {got:?}, expected {want:?}\n{}", what());
                c.ev("remove");
            }
            9 => {
                let got = by!(r, &k, kv, |i| m.swap_remove_entry(i));
                let want = l.swap_remove(&k);
                ensure!(same_e(&got, &want), "remove", "swap_remove_entry returned {got:?}, expected {want:?}\n{}", what());
                c.ev("remove");
            }
            10 => {
                let got = by!(r, &k, kv, |i| m.shift_remove(i));
                let want = l.shift_remove(&k).map(|e| e.1);
                ensure!(same_o(&got, &want), "remove", "shift_remove returned {got:?}, expected {want:?}\n{}", what());
                c.ev("shift_remove");
            }
            11 => {
                let got = by!(r, &k, kv, |i| m.shift_remove_entry(i));
                let want = l.shift_remove(&k);
                ensure!(same_e(&got, &want), "remove", "shift_remove_entry returned {got:?}, expected {want:?}\n{}", what());
                c.ev("shift_remove");
            }
            12 => {
                let want = l.pos(&k);
                let got = by!(r, &k, kv, |i| m.get_mut(i).map(|x| std::mem::replace(x, vv)));
                let w = want.map(|i| std::mem::replace(&mut l.v[i].1, v.clone()));
                ensure!(same_o(&got, &w), "get_mut", "get_mut reached {got:?}, expected {w:?}\n{}", what());
                c.ev("get_mut");
            }
            13 => {
                // brackets: panic exactly on an absent key
                let want = l.pos(&k).map(|i| l.v[i].1.clone());
                let got = guarded(|| by!(r, &k, kv, |i| m[i].clone())).ok();
                ensure!(same_o(&got, &want), "index", "indexing gives {got:?}, expected {want:?}\n{}", what());
                let got = guarded(|| by!(r, &k, kv, |i| std::mem::replace(&mut m[i], vv))).ok();
                ensure!(same_o(&got, &want), "index-mut", "mutable indexing reached {got:?}, expected {want:?}\n{}", what());
                if let Some(i) = l.pos(&k) {
                    l.v[i].1 = v.clone();
                }
                c.ev("brackets");
            }
            14..=19 => entry(c, r, &mut m, &mut l, &k, &v, &what)?,
            20 => {
                let mask = r.next();
                let bump = r.bool();
                let mut seen = vec![];
                let mut i = 0;
                m.retain(|k, v| {
                    seen.push((k.clone(), v.clone()));
                    if bump {
                        *v = Value::from(i as u64);
                    }
                    let keep = mask >> (i % 64) & 1 == 1;
                    i += 1;
                    keep
                });
                ensure!(seen.len() == l.v.len() && seen.iter().zip(&l.v).all(|((a, b), (k, v))| from_val(a).same(k) && from_val(b).same(v)), "retain-visit", "retain visited {seen:?}\n{}", what());
                let mut i = 0;
                l.v.retain_mut(|(_, v)| {
                    if bump {
                        *v = M::Int(i as i128);
                    }
                    let keep = mask >> (i % 64) & 1 == 1;
                    i += 1;
                    keep
                });
                l.reindex();
                c.ev("retain");
            }
            21 => {
                let n = r.range(0, 5);
                let more: Vec<(M, M)> = (0..n).map(|i| (respell_or(r, &keys), M::Int(1000 + i as i128))).collect();
                m.extend(more.iter().map(|(k, v)| (to_val(k), to_val(v))));
                for (k, v) in &more {
                    l.insert(k, v);
                }
                c.ev("extend");
            }
            22 if r.chance(1, 6) => {
                m.clear();
                l = L::new();
                c.ev("clear");
            }
            23 => {
                match r.below(3) {
                    0 => m.shrink_to_fit(),
                    1 => {
                        let n = r.below(100);
                        m.reserve(n);
                        ensure!(m.capacity() >= m.len() + n, "reserve", "capacity {} after reserving {n} at length {}\n{}", m.capacity(), m.len(), what());
                    }
                    _ => {
                        let n = r.below(100);
                        let w = Mapping::with_capacity(n);
                        ensure!(w.capacity() >= n && w.is_empty(), "with_capacity", "capacity {} of {n}\n{}", w.capacity(), what());
                    }
                }
                c.ev("capacity");
            }
            24 => {
                let twin = m.clone();
                ensure!(twin == m && hash_of(&twin) == hash_of(&m), "clone", "a clone differs\n{}", what());
                // the clone is independent
                let mut gone = std::mem::replace(&mut m, twin);
                gone.clear();
                c.ev("clone");
            }
            25 => {
                m = m.into_iter().collect();
                c.ev("collect");
            }
            26 => iterators(c, r, &mut m, &mut l, &what)?,
            27 => {
                let v = Value::Mapping(m);
                let back = v.as_mapping().cloned();
                let Value::Mapping(x) = v else { unreachable!() };
                ensure!(back.as_ref() == Some(&x), "as_mapping", "as_mapping differs\n{}", what());
                m = x;
            }
            28 if !keys.iter().any(|k| k.has_tag()) => {
                // through text: order and contents survive
                let t = serde_yaml::to_string(&m).map_err(|e| Fail { sig: "text".into(), msg: format!("{e}\n{}", what()) })?;
                m = serde_yaml::from_str(&t).map_err(|e| Fail { sig: "text".into(), msg: format!("{e}\n{}", what()) })?;
                c.ev("through text");
            }
            _ => {
                let mut n = Mapping::default();
                for (k, v) in &m {
                    n.insert(k.clone(), v.clone());
                }
                ensure!(n == m, "rebuilt", "a rebuilt mapping differs\n{}", what());
                m = n;
            }
        }
        audit(c, &m, &l, &keys, &what)?;
        c.ev("operations");
    }
    let canon: Vec<String> = l.v.iter().map(|(k, v)| k.canon() + &v.canon()).collect();
    c.nontrivial(&(log.len(), canon, &log));
    c.sample(|| format!("{log:?}"));
    Ok(())
}
fn respell_or(r: &mut Rng, keys: &[M]) -> M {
    let k = r.pick(keys).clone();
    if r.chance(1, 3) {
        respell(r, &k)
    } else {
        k
    }
}

fn entry(c: &mut Case, r: &mut Rng, m: &mut Mapping, l: &mut L, k: &M, v: &M, what: &dyn Fn() -> String) -> R {
    let at = l.pos(k);
    let kv = to_val(k);
    let vv = to_val(v);
    let how = r.below(8);
    c.ev(if at.is_some() { "occupied entries" } else { "vacant entries" });
    let e = m.entry(kv.clone());
    // the key shown is the stored one, or the one given
    let want_key = at.map_or(k, |i| &l.v[i].0);
    let kk = from_val(e.key());
    ensure!(kk.canon() == k.canon() && (at.is_some() || kk.same(want_key)), "entry-key", "entry key is {kk:?}\n{}", what());
    match how {
        0 => {
            let got = e.or_insert(vv);
            let want = at.map_or(v, |i| &l.v[i].1);
            ensure!(from_val(got).same(want), "or_insert", "or_insert gives {got:?}, expected {want:?}\n{}", what());
            *got = Value::from("touched");
            match at {
                Some(i) => l.v[i].1 = M::s("touched"),
                None => {
                    l.insert(k, &M::s("touched"));
                }
            }
        }
        1 => {
            let mut called = 0;
            let got = e.or_insert_with(|| {
                called += 1;
                vv
            });
            let want = at.map_or(v, |i| &l.v[i].1);
            ensure!(from_val(got).same(want), "or_insert_with", "or_insert_with gives {got:?}, expected {want:?}\n{}", what());
            ensure!(called == at.is_none() as i32, "or_insert_with-call", "the default was made {called} times\n{}", what());
            if at.is_none() {
                l.insert(k, v);
            }
        }
        2 | 3 => {
            let mut called = vec![];
            let e = e.and_modify(|x| {
                called.push(x.clone());
                *x = Value::from("modified");
            });
            let want: Vec<M> = at.map(|i| l.v[i].1.clone()).into_iter().collect();
            ensure!(called.len() == want.len() && called.iter().zip(&want).all(|(a, b)| from_val(a).same(b)), "and_modify", "and_modify saw {called:?}, expected {want:?}\n{}", what());
            if let Some(i) = at {
                l.v[i].1 = M::s("modified");
            }
            if how == 3 {
                let got = e.or_insert(vv);
                let want = at.map_or(v.clone(), |_| M::s("modified"));
                ensure!(from_val(got).same(&want), "and_modify-or_insert", "gives {got:?}, expected {want:?}\n{}", what());
                if at.is_none() {
                    l.insert(k, v);
                }
            }
        }
        _ => match e {
            Entry::Occupied(mut o) => {
                let Some(i) = at else { return fail("entry-kind", format!("occupied entry for an absent key\n{}", what())) };
                ensure!(from_val(o.key()).canon() == k.canon(), "entry-key", "occupied key is {:?}\n{}", o.key(), what());
                ensure!(from_val(o.get()).same(&l.v[i].1) && from_val(o.get_mut()).same(&l.v[i].1), "entry-get", "get gives {:?}\n{}", o.get(), what());
                match how {
                    4 => {
                        let old = o.insert(vv);
                        ensure!(from_val(&old).same(&l.v[i].1), "entry-insert", "insert returned {old:?}\n{}", what());
                        l.v[i].1 = v.clone();
                        ensure!(from_val(o.get()).same(v), "entry-insert-get", "after insert, get gives {:?}\n{}", o.get(), what());
                    }
                    5 => {
                        let x = o.into_mut();
                        ensure!(from_val(x).same(&l.v[i].1), "entry-into_mut", "into_mut gives {x:?}\n{}", what());
                        *x = vv;
                        l.v[i].1 = v.clone();
                    }
                    6 => {
                        let old = o.remove();
                        let want = l.swap_remove(k).unwrap();
                        ensure!(from_val(&old).same(&want.1), "entry-remove", "remove returned {old:?}\n{}", what());
                    }
                    _ => {
                        let old = o.remove_entry();
                        let want = l.swap_remove(k);
                        ensure!(same_e(&Some(old.clone()), &want), "entry-remove", "remove_entry returned {old:?}, expected {want:?}\n{}", what());
                    }
                }
            }
            Entry::Vacant(e) => {
                ensure!(at.is_none(), "entry-kind", "vacant entry for a present key\n{}", what());
                ensure!(from_val(e.key()).same(k), "entry-key", "vacant key is {:?}\n{}", e.key(), what());
                if how < 6 {
                    let x = e.insert(vv);
                    ensure!(from_val(x).same(v), "vacant-insert", "insert gives {x:?}\n{}", what());
                    l.insert(k, v);
                } else if how == 6 {
                    let x = e.into_key();
                    ensure!(from_val(&x).same(k), "into_key", "into_key gives {x:?}\n{}", what());
                }
            }
        },
    }
    Ok(())
}

fn iterators(c: &mut Case, r: &mut Rng, m: &mut Mapping, l: &mut L, what: &dyn Fn() -> String) -> R {
    fn walk<T>(it: impl ExactSizeIterator<Item = T>, n: usize, stop: usize, what: &dyn Fn() -> String) -> Result<Vec<T>, Fail> {
        let mut it = it;
        let mut out = vec![];
        loop {
            let left = n - out.len();
            ensure!(it.len() == left && it.size_hint() == (left, Some(left)), "size_hint", "an iterator with {left} items left says {} and {:?}\n{}", it.len(), it.size_hint(), what());
            if out.len() == stop {
                break;
            }
            match it.next() {
                Some(x) => out.push(x),
                None => break,
            }
            ensure!(out.len() <= n, "iterator-long", "an iterator over {n} entries yields more\n{}", what());
        }
        Ok(out)
    }
    let n = l.v.len();
    let stop = if r.bool() { usize::MAX } else { r.below(n + 1) };
    let k = stop.min(n);
    let ok = |got: Vec<Value>, key: bool| got.len() == k && got.iter().zip(&l.v).all(|(g, e)| from_val(g).same(if key { &e.0 } else { &e.1 }));
    let name;
    let good = match r.below(10) {
        0 => {
            name = "iter";
            let x = walk(m.iter(), n, stop, what)?;
            ok(x.iter().map(|e| e.0.clone()).collect(), true) && ok(x.iter().map(|e| e.1.clone()).collect(), false)
        }
        1 => {
            name = "for over a reference";
            let x = walk((&*m).into_iter(), n, stop, what)?;
            ok(x.iter().map(|e| e.0.clone()).collect(), true) && ok(x.iter().map(|e| e.1.clone()).collect(), false)
        }
        2 => {
            name = "iter_mut";
            let x = walk(m.iter_mut(), n, stop, what)?;
            let g = ok(x.iter().map(|e| e.0.clone()).collect(), true) && ok(x.iter().map(|e| e.1.clone()).collect(), false);
            for (i, (_, v)) in x.into_iter().enumerate() {
                *v = Value::from(i as u64);
                l.v[i].1 = M::Int(i as i128);
            }
            g
        }
        3 => {
            name = "for over a mutable reference";
            let x = walk((&mut *m).into_iter(), n, stop, what)?;
            let g = ok(x.iter().map(|e| e.0.clone()).collect(), true) && ok(x.iter().map(|e| e.1.clone()).collect(), false);
            for (i, (_, v)) in x.into_iter().enumerate() {
                *v = Value::from(-(i as i64) - 1);
                l.v[i].1 = M::Int(-(i as i128) - 1);
            }
            g
        }
        4 => {
            name = "keys";
            ok(walk(m.keys(), n, stop, what)?.into_iter().cloned().collect(), true)
        }
        5 => {
            name = "values";
            ok(walk(m.values(), n, stop, what)?.into_iter().cloned().collect(), false)
        }
        6 => {
            name = "values_mut";
            let x = walk(m.values_mut(), n, stop, what)?;
            let g = ok(x.iter().map(|e| (**e).clone()).collect(), false);
            for (i, v) in x.into_iter().enumerate() {
                *v = Value::from(i as u64);
                l.v[i].1 = M::Int(i as i128);
            }
            g
        }
        7 => {
            name = "into_keys";
            ok(walk(m.clone().into_keys(), n, stop, what)?, true)
        }
        8 => {
            name = "into_values";
            ok(walk(m.clone().into_values(), n, stop, what)?, false)
        }
        _ => {
            name = "into_iter";
            let x = walk(m.clone().into_iter(), n, stop, what)?;
            ok(x.iter().map(|e| e.0.clone()).collect(), true) && ok(x.iter().map(|e| e.1.clone()).collect(), false)
        }
    };
    ensure!(good, "iterator", "{name} does not visit the entries in order\n{}", what());
    c.ev("iterators walked");
    Ok(())
}

fn large(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let n = r.range(100, if c.thorough { 3000 } else { 800 });
    let mut l = L::new();
    let mut m = Mapping::new();
    let key = |r: &mut Rng| match r.below(5) {
        0 => M::Int(r.below(n) as i128 - n as i128 / 2),
        1 => M::F(r.below(60) as f64 / 8.0),
        2 => M::Seq(vec![M::Int(r.below(n) as i128)]),
        _ => M::S(format!("k{}", r.below(n))),
    };
    for i in 0..n * 2 {
        let k = key(r);
        let kv = to_val(&k);
        let v = M::Int(i as i128);
        match r.below(8) {
            0 => {
                let a = by!(r, &k, kv, |i| m.swap_remove(i));
                let b = l.swap_remove(&k).map(|e| e.1);
                ensure!(same_o(&a, &b), "large-remove", "swap_remove({k:?}) returned {a:?}, expected {b:?}");
            }
            1 if i % 8 == 0 => {
                let a = by!(r, &k, kv, |i| m.shift_remove(i));
                let b = l.shift_remove(&k).map(|e| e.1);
                ensure!(same_o(&a, &b), "large-remove", "shift_remove({k:?}) returned {a:?}, expected {b:?}");
            }
            _ => {
                let a = m.insert(kv, to_val(&v));
                let b = l.insert(&k, &v);
                ensure!(same_o(&a, &b), "large-insert", "insert({k:?}) returned {a:?}, expected {b:?}");
            }
        }
    }
    let probes: Vec<M> = (0..200).map(|_| key(r)).collect();
    audit(c, &m, &l, &probes, &|| format!("large mapping of {} entries", l.v.len()))?;
    // the same entries, arrived in another order
    let mut v: Vec<(Value, Value)> = m.clone().into_iter().collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    let other: Mapping = v.iter().cloned().collect();
    ensure!(m == other && other == m && hash_of(&m) == hash_of(&other), "large-equal", "{} entries in another order: equal {}, hashes {:x} {:x}", m.len(), m == other, hash_of(&m), hash_of(&other));
    ensure!(m.partial_cmp(&other) == Some(std::cmp::Ordering::Equal), "large-cmp", "{} entries in another order compare as {:?}", m.len(), m.partial_cmp(&other));
    if let Some((k, _)) = v.pop() {
        let mut less: Mapping = v.into_iter().collect();
        ensure!(less != m && m != less, "large-equal", "equal without {k:?}");
        less.insert(k.clone(), Value::from("another value"));
        ensure!(less != m && m != less && m.partial_cmp(&less) != Some(std::cmp::Ordering::Equal), "large-equal", "equal with another value for {k:?}");
    }
    c.evn("operations", n as u64 * 2);
    c.nontrivial(&(n, l.v.len(), c.idx));
    Ok(())
}

/// Same entries in another order and spelling: equal, same hash, ordered as
/// equal; one entry changed: different.
fn orders(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let cfg = GenCfg { nested_tags: true, ..GenCfg::default() };
    let wide = r.chance(1, 40);
    let n = if wide { r.range(20, 400) } else { r.range(0, 7) };
    let mut seen = std::collections::HashSet::new();
    let f = fixed_keys();
    let mut v: Vec<(M, M)> = vec![];
    for _ in 0..n {
        let k = if wide && !r.chance(1, 9) {
            let i = r.below(n * 2) as i128;
            match r.below(5) {
                0 => M::Int(i - n as i128),
                1 => M::F(i as f64 / 4.0),
                2 => M::S(format!("k{i}")),
                3 => M::Seq(vec![M::Int(i)]),
                _ => M::Tag(format!("t{i}"), Box::new(M::Null)),
            }
        } else if r.bool() {
            r.pick(&f).clone()
        } else {
            gen_m_at(r, &cfg, 3, &mut 8, false)
        };
        if seen.insert(k.canon()) {
            let x = if r.bool() { r.pick(&f).clone() } else { gen_m_at(r, &cfg, 3, &mut 8, false) };
            v.push((k, x));
        }
    }
    let a = M::Map(v.clone());
    let b = respell(r, &a);
    let get = |m: &M| match to_val(m) {
        Value::Mapping(m) => m,
        _ => unreachable!(),
    };
    let (ma, mb) = (get(&a), get(&b));
    let ctx = || format!("{ma:?}\nand\n{mb:?}");
    ensure!(ma == mb && mb == ma, "order-equal", "mappings with the same entries differ\n{}", ctx());
    ensure!(hash_of(&ma) == hash_of(&mb), "order-hash", "mappings with the same entries hash differently\n{}", ctx());
    let (x, y) = (ma.partial_cmp(&mb), mb.partial_cmp(&ma));
    ensure!(x == Some(std::cmp::Ordering::Equal) && y == x, "order-cmp", "mappings with the same entries compare as {x:?} and {y:?}\n{}", ctx());
    let (va, vb) = (Value::Mapping(ma.clone()), Value::Mapping(mb.clone()));
    ensure!(va == vb && hash_of(&va) == hash_of(&vb), "order-value", "as values they differ\n{}", ctx());
    c.ev("equal pairs");
    // as a key of another mapping, either finds the entry
    let mut outer = Mapping::new();
    outer.insert(va, Value::from(1));
    ensure!(outer.contains_key(&vb) && outer.insert(vb, Value::from(2)) == Some(Value::from(1)) && outer.len() == 1, "order-key", "one is not found under the other\n{}", ctx());
    if !v.is_empty() {
        // one entry changed or gone
        let i = r.below(v.len());
        let mut w = v.clone();
        let how = r.below(3);
        match how {
            0 => {
                w.remove(i);
            }
            1 => w[i].1 = M::Seq(vec![w[i].1.clone()]),
            _ => w[i].0 = M::Seq(vec![w[i].0.clone(), M::s("other")]),
        }
        if M::Map(w.clone()).canon() != a.canon() {
            let shuffled = respell(r, &M::Map(w));
            let mw = get(&shuffled);
            ensure!(ma != mw && mw != ma, "order-unequal", "different mappings are equal (change {how} of entry {i})\n{ma:?}\nand\n{mw:?}");
            ensure!(ma.partial_cmp(&mw) != Some(std::cmp::Ordering::Equal), "order-unequal-cmp", "different mappings compare as equal\n{ma:?}\nand\n{mw:?}");
            c.ev("different pairs");
        }
    }
    c.nontrivial(&a.canon());
    Ok(())
}

/// Reading a mapping with a repeated key fails.
fn repeated(c: &mut Case) -> R {
    let mut r = c.rng.clone();
    let r = &mut r;
    let keys = pool(r);
    let n = r.range(1, 6);
    let mut v: Vec<(M, M)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for i in 0..n {
        let k = r.pick(&keys).clone();
        if seen.insert(k.canon()) {
            v.push((k, M::Int(i as i128)));
        }
    }
    let good = v.clone();
    let i = r.below(v.len());
    let twin = respell(r, &v[i].0);
    let j = r.range(i + 1, v.len());
    v.insert(j, (twin.clone(), M::s("again")));
    let ctx = || format!("entries {v:?}");
    // from a stream of entries
    let read = |v: &[(M, M)]| Mapping::deserialize(MapDeserializer::<_, serde_yaml::Error>::new(v.iter().map(|(k, x)| (to_val(k), to_val(x)))));
    match read(&good) {
        Ok(m) => ensure!(m.len() == good.len(), "read-length", "{} entries from {}\n{}", m.len(), good.len(), ctx()),
        Err(e) => return fail("read-good", format!("distinct keys refused: {e}\n{}", ctx())),
    }
    match read(&v) {
        Ok(m) => return fail("repeated-accepted", format!("a repeated key {twin:?} was accepted: {m:?}\n{}", ctx())),
        Err(e) => ensure!(e.to_string().contains("duplicate entry"), "repeated-message", "the error is {e}\n{}", ctx()),
    }
    match Value::deserialize(MapDeserializer::<_, serde_yaml::Error>::new(v.iter().map(|(k, x)| (to_val(k), to_val(x))))) {
        Ok(m) => return fail("repeated-value", format!("a repeated key {twin:?} was accepted by an untyped value: {m:?}\n{}", ctx())),
        Err(_) => c.ev("repeated keys refused (stream)"),
    }
    // from text
    if !v.iter().any(|(k, _)| k.has_tag()) {
        let mut text = String::from("{");
        for (k, x) in &v {
            let (Some(k), Some(x)) = (crate::props::c12::flow_text(k), crate::props::c12::flow_text(x)) else { return Ok(()) };
            text.push_str(&format!("? {k} : {x}, "));
        }
        text.push('}');
        if !matches!(crate::raw::single(text.as_bytes()), crate::raw::Out::Err("duplicate key")) {
            c.ev("spelling not usable");
            return Ok(());
        }
        let res = serde_yaml::from_str::<Mapping>(&text);
        ensure!(res.is_err(), "repeated-text", "{text:?} was accepted: {res:?}");
        let res = serde_yaml::from_str::<Value>(&text);
        ensure!(res.is_err(), "repeated-text-value", "{text:?} was accepted as a value: {res:?}");
        c.ev("repeated keys refused (text)");
    }
    c.nontrivial(&format!("{v:?}"));
    Ok(())
}
