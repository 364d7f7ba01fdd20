//! Every function below is true for every argument. The models of the standard library are checked against them.
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn rev(a: u32, b: u32) -> bool {
    let v = vec![a, b, 3];
    let w: Vec<u32> = v.iter().rev().copied().collect();
    w == vec![3, b, a]
}
pub fn step_by(n: u64) -> bool {
    let v: Vec<usize> = (0..7).step_by(3).collect();
    let w: Vec<usize> = vec![1usize, 2, 3, 4].into_iter().step_by(2).collect();
    let _ = n;
    v == vec![0, 3, 6] && w == vec![1, 3]
}
pub fn skip_while(a: u32) -> bool {
    let v: Vec<u32> = vec![1, 2, 5, 1, a].into_iter().skip_while(|x| *x < 4).collect();
    v == vec![5, 1, a]
}
pub fn flat(a: u32, b: u32) -> bool {
    let v: Vec<u32> = vec![vec![a, 1], vec![], vec![b]].into_iter().flatten().collect();
    let w: Vec<u32> = [a, b].iter().flat_map(|x| [*x, 7]).collect();
    v == vec![a, 1, b] && w == vec![a, 7, b, 7]
}
pub fn scan(a: u8) -> bool {
    let v: Vec<u32> = [1u32, 2, 3].iter().scan(a as u32, |s, x| { *s += x; Some(*s) }).collect();
    v == vec![a as u32 + 1, a as u32 + 3, a as u32 + 6]
}
pub fn peek(a: u32) -> bool {
    let mut it = vec![a, 2].into_iter().peekable();
    let p = it.peek().copied();
    let x = it.next();
    let y = it.next();
    p == Some(a) && x == Some(a) && y == Some(2) && it.peek().is_none() && it.next().is_none()
}
pub fn chunks(a: u8, b: u8) -> bool {
    let v = [a, b, 1, 2, 3];
    let c: Vec<usize> = v.chunks(2).map(|x| x.len()).collect();
    let s: Vec<u8> = v.chunks_exact(2).map(|x| x[1]).collect();
    let w = v.windows(2).count();
    c == vec![2, 2, 1] && s == vec![b, 2] && w == 4
}
pub fn part(a: u32) -> bool {
    let (x, y): (Vec<u32>, Vec<u32>) = vec![1, 2, 3, 4].into_iter().partition(|x| x % 2 == 0);
    let (p, q): (Vec<u32>, Vec<u32>) = vec![(a, 1), (2, a)].into_iter().unzip();
    x == vec![2, 4] && y == vec![1, 3] && p == vec![a, 2] && q == vec![1, a]
}
pub fn reduce() -> bool {
    let v = vec![3u32, 1, 2, 1];
    let m = v.iter().copied().reduce(|a, b| a + b);
    let k = v.iter().enumerate().min_by_key(|x| *x.1).map(|x| x.0);
    let l = v.iter().enumerate().max_by_key(|x| 10 - *x.1).map(|x| x.0);
    let n = v.iter().enumerate().max_by(|a, b| a.1.cmp(b.1)).map(|x| x.0);
    m == Some(7) && k == Some(1) && l == Some(3) && n == Some(0)
}
pub fn product(a: u8) -> bool {
    [2u64, a as u64].iter().product::<u64>() == 2 * a as u64
}
pub fn vecs(a: u32, b: u32) -> bool {
    let mut v = vec![a, b, 3];
    v.insert(1, 9);
    let r = v.remove(0);
    let ok1 = r == a && v == vec![9, b, 3];
    let t = v.split_off(1);
    let ok2 = v == vec![9] && t == vec![b, 3];
    let mut w = vec![1u32, 2, 3, 4];
    w.retain(|x| *x != 2);
    let d: Vec<u32> = w.drain(1..).collect();
    ok1 && ok2 && w == vec![1] && d == vec![3, 4]
}
pub fn swap_remove() -> bool {
    let mut w = vec![1u32, 2, 3, 4];
    let x = w.swap_remove(1);
    x == 2 && w == vec![1, 4, 3]
}
pub fn slices(a: u32, b: u32) -> bool {
    let v = [a, b, 3];
    let Some((f, r)) = v.split_first() else { return false };
    *f == a && r.len() == 2 && r[0] == b && v.starts_with(&[a]) && !v[2..].starts_with(&[3, 4])
}
pub fn maps(a: u32, b: u32) -> bool {
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    m.extend([(1, a), (2, b)]);
    *m.entry(1).or_insert(0) = 5;
    m.entry(3).or_insert(b);
    m.entry(2).and_modify(|x| *x = 7).or_default();
    let r = m.remove(&3);
    m.get(&1) == Some(&5) && m.get(&2) == Some(&7) && r == Some(b) && !m.contains_key(&3) && m.get(&9).is_none()
}
pub fn hmaps(a: u32) -> bool {
    let mut m: HashMap<u32, Vec<u32>> = HashMap::with_capacity(4);
    m.entry(1).or_default().push(a);
    m.entry(1).or_insert_with(Vec::new).push(2);
    m[&1] == vec![a, 2]
}
pub fn extend_ref(a: u32) -> bool {
    let src = vec![(1u32, a), (2, 3)];
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    m.extend(src.iter().cloned());
    let s: BTreeMap<u32, u32> = src.into_iter().collect();
    m.get(&1) == Some(&a) && s.get(&2) == Some(&3)
}
pub fn entry_match(a: u32) -> bool {
    use std::collections::btree_map::Entry;
    let mut m: BTreeMap<u32, u32> = BTreeMap::new();
    for k in [1u32, 1, 2] {
        match m.entry(k) {
            Entry::Occupied(mut o) => { *o.get_mut() += 1; }
            Entry::Vacant(v) => { v.insert(a); }
        }
    }
    a == u32::MAX || m[&1] == a + 1 && m[&2] == a
}
pub fn ranges(a: u32) -> bool {
    !(3..9).contains(&a) || (a >= 3 && a <= 8 && (3..=8).contains(&a) && (3..).contains(&a))
}
pub fn array(a: u32, b: u32) -> bool {
    let m = [a, b].map(|x| (x, 1u32));
    let f: [u32; 3] = std::array::from_fn(|i| i as u32 * 2);
    m[0] == (a, 1) && m[1].0 == b && f == [0, 2, 4]
}
pub fn join() -> bool {
    let v = vec!["a", "b"];
    v.join("/") == "a/b" && v.concat() == "ab" && vec![vec![1u8], vec![2]].concat() == vec![1, 2]
}
pub fn cow(x: bool) -> bool {
    let c: Cow<'static, str> = if x { Cow::Borrowed("ab") } else { Cow::Owned(String::from("cd")) };
    let n = c.len();
    let s = c.into_owned();
    n == 2 && s.len() == 2 && (s == "ab") == x
}
pub fn succ() -> bool {
    let v: Vec<u32> = std::iter::successors(Some(1u32), |x| if *x < 8 { Some(x * 2) } else { None }).collect();
    let mut k = 0;
    let w: Vec<u32> = std::iter::from_fn(|| { k += 1; if k < 4 { Some(k) } else { None } }).collect();
    v == vec![1, 2, 4, 8] && w == vec![1, 2, 3]
}
pub fn sorted() -> bool {
    let mut v = vec![3u32, 1, 2];
    v.sort();
    let mut w = vec![(1u32, 5u32), (0, 5), (2, 1)];
    w.sort_by_key(|x| x.1);
    v == vec![1, 2, 3] && w == vec![(2, 1), (1, 5), (0, 5)]
}
pub fn inspect(a: u32) -> bool {
    let mut n = 0u32;
    let v: Vec<u32> = vec![a, 2].into_iter().inspect(|_| n += 1).collect();
    n == 2 && v.len() == 2
}
pub fn refs(a: u64, b: u64) -> bool {
    a > 1000 || b > 1000 || (&a + &b == a + b && &a * 2 == a + a)
}
pub fn ints(a: u32) -> bool {
    a > 1000 || (a.div_ceil(1) == a && a.saturating_sub(5000) == 0 && a.checked_add(1) == Some(a + 1) && (a as u64).abs_diff(0) == a as u64)
}
pub fn sets(a: u32) -> bool {
    let mut s = BTreeSet::new();
    let x = s.insert(a);
    let y = s.insert(a);
    x && !y && s.contains(&a)
}
pub fn opts(a: Option<u32>) -> bool {
    a.is_none() || (a.filter(|x| *x == *x).is_some() && a.zip(Some(1)).is_some() && a.xor(None).is_some() && a.iter().count() == 1 && a.or(Some(3)) == a && a.unwrap_or_default() == a.unwrap())
}
pub fn results(a: Result<u32, u8>) -> bool {
    a.is_err() || (a.ok().is_some() && a.is_ok_and(|_| true) && a.and_then(|x| if x == x { Ok(1) } else { Err(0u8) }) == Ok(1) && a.iter().count() == 1 && a.unwrap_or(4) == a.unwrap())
}
pub fn take_replace(a: u32) -> bool {
    let mut o = Some(a);
    let t = o.take();
    let r = o.replace(3);
    let g = *o.get_or_insert(9);
    let mut p: Option<u32> = None;
    *p.get_or_insert_with(|| a) = 4;
    t == Some(a) && r.is_none() && g == 3 && o == Some(3) && p == Some(4)
}
pub fn bools(x: bool) -> bool {
    x.then(|| 3).is_some() == x && x.then_some(1) == if x { Some(1) } else { None }
}
pub fn loops(a: u8) -> bool {
    let mut v = Vec::new();
    let mut i = 0u32;
    while let Some(n) = (i < 3).then_some(i) {
        if n == 1 { i += 1; continue; }
        v.push(n + a as u32);
        i += 1;
    }
    let l = loop { if i > 5 { break i; } i += 1; };
    v == vec![a as u32, a as u32 + 2] && l == 6
}
pub fn last_first(a: u32) -> bool {
    let v = vec![a, 2];
    v.first() == Some(&a) && v.last() == Some(&2) && v.get(5).is_none() && v.iter().position(|x| *x == 2).is_some() && v.iter().any(|x| *x == 2)
}
pub fn strings(x: bool) -> bool {
    let mut s = String::new();
    s.push_str("ab");
    s.push('c');
    let t = if x { s.clone() + "d" } else { s.clone() };
    s == "abc" && s.len() == 3 && t.len() == if x { 4 } else { 3 } && s.starts_with("ab") && s.strip_prefix("ab") == Some("c")
}
pub fn i1(a: u32) -> bool { a > 1000 || a.div_ceil(1) == a }
pub fn i2(a: u32) -> bool { a > 1000 || a.saturating_sub(5000) == 0 }
pub fn i3(a: u32) -> bool { a > 1000 || a.checked_add(1) == Some(a + 1) }
pub fn i4(a: u32) -> bool { a > 1000 || (a as u64).abs_diff(0) == a as u64 }
pub fn r1(a: Result<u32, u8>) -> bool { a.is_err() || a.ok().is_some() }
pub fn r2(a: Result<u32, u8>) -> bool { a.is_err() || a.is_ok_and(|_| true) }
pub fn r3(a: Result<u32, u8>) -> bool { a.is_err() || a.and_then(|x| if x == x { Ok(1) } else { Err(0u8) }) == Ok(1) }
pub fn sk1() -> bool { let v: Vec<u32> = vec![1, 2, 5, 1].into_iter().skip_while(|x| *x < 4).collect(); v.len() == 2 }
pub fn sk2() -> bool { let v: Vec<u32> = vec![1, 2, 5, 1].into_iter().skip_while(|x| *x < 4).collect(); v[0] == 5 }
pub fn s1() -> bool { let mut s = String::new(); s.push_str("ab"); s.push('c'); s == "abc" }
pub fn s2(x: bool) -> bool { let s = String::from("abc"); let t = if x { s.clone() + "d" } else { s.clone() }; t.len() == if x { 4 } else { 3 } }
pub fn s3() -> bool { let s = String::from("abc"); s.strip_prefix("ab") == Some("c") }
pub fn s4() -> bool { let s = String::from("abc"); s.starts_with("ab") && !s.contains("x") && s.ends_with('c') }
pub fn s5() -> bool { let mut s = String::new(); s.push_str("ab"); s == "ab" }
pub fn s6() -> bool { let s = String::from("abc"); s.starts_with("ab") }
pub fn s7() -> bool { let s = String::from("abc"); s.ends_with('c') }
pub fn flat_opt(a: Option<u32>, b: u32) -> bool {
    let v = [a, Some(b), None];
    let n = v.iter().flatten().count();
    let w: Vec<u32> = v.into_iter().flatten().collect();
    n == w.len() && *w.last().unwrap() == b && v.iter().flatten().any(|x| *x == b) && (n == 2) == a.is_some()
}
