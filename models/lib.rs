// Behavioural models of the std / itertools combinators that the analysed code uses.
// They are compiled with the same driver and inlined by the abstract interpreter, so that
// a combinator chain and the equivalent hand-written match/loop get the same abstract meaning.
#![allow(dead_code, clippy::all)]
#![feature(try_trait_v2)]
use std::ops::ControlFlow;

// ---------------------------------------------------------------- Option
pub fn option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn option__unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, d: F) -> T {
    match o { Some(x) => x, None => d() }
}
pub fn option__unwrap_or_default<T: Default>(o: Option<T>) -> T {
    match o { Some(x) => x, None => T::default() }
}
pub fn option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => p }
}
pub fn option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o { Some(_) => p, None => None }
}
pub fn option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, e: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e()) }
}
pub fn option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("GK unwrap") } }
pub fn option__expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => panic!("GK expect") } }
pub fn option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> {
    match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn option__take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn option__insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    *o = Some(v);
    match o { Some(x) => x, None => loop {} }
}
pub fn option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if let None = o { *o = Some(f()); }
    match o { Some(x) => x, None => loop {} }
}
pub fn option__get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if let None = o { *o = Some(v); }
    match o { Some(x) => x, None => loop {} }
}
pub fn option__branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) }
}
pub fn option__from_residual<T>(_r: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    if let Some(x) = &o { f(x) }
    o
}
// ---------------------------------------------------------------- Result
pub fn result__map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn result__map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> {
    match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn result__map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
    match r { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn result__or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(r: Result<T, E>, f: F) -> Result<T, U> {
    match r { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, d: F) -> T {
    match o { Ok(x) => x, Err(e) => d(e) }
}
pub fn result__unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn result__is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("GK unwrap") } }
pub fn result__expect<T, E>(o: Result<T, E>, _m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!("GK expect") } }
pub fn result__branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> {
    match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) }
}
pub fn result__from_residual<T, E, F: From<E>>(r: Result<std::convert::Infallible, E>) -> Result<T, F> {
    match r { Err(e) => Err(From::from(e)), Ok(_) => loop {} }
}
pub fn result__inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> {
    if let Err(x) = &o { f(x) }
    o
}
// ---------------------------------------------------------------- bool
pub fn bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool__then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }
// ---------------------------------------------------------------- adaptor `next`s
pub fn adnext__map<T, I: Iterator<Item = T>, U, F: FnMut(T) -> U>(i: &mut I, mut f: F) -> Option<U> {
    match i.next() { Some(x) => Some(f(x)), None => None }
}
pub fn adnext__filter<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(i: &mut I, mut f: F) -> Option<T> {
    loop {
        match i.next() {
            Some(x) => if f(&x) { return Some(x); },
            None => return None,
        }
    }
}
pub fn adnext__filter_map<T, I: Iterator<Item = T>, U, F: FnMut(T) -> Option<U>>(i: &mut I, mut f: F) -> Option<U> {
    loop {
        match i.next() {
            Some(x) => if let Some(y) = f(x) { return Some(y); },
            None => return None,
        }
    }
}
pub fn adnext__flat_map<T, I: Iterator<Item = T>, U: IntoIterator, F: FnMut(T) -> U>(i: &mut I, mut f: F) -> Option<U::Item> {
    loop {
        match i.next() {
            Some(x) => {
                let mut j = f(x).into_iter();
                if let Some(y) = any_item(&mut j) { return Some(y); }
            }
            None => return None,
        }
    }
}
pub fn adnext__flat_map_cur<T, I: Iterator<Item = T>, U: IntoIterator, F: FnMut(T) -> U>(i: &mut I, mut f: F, cur: &mut Option<U::IntoIter>) -> Option<U::Item> {
    loop {
        if let Some(j) = cur {
            if let Some(y) = any_item(j) { return Some(y); }
            *cur = None;
        }
        match i.next() {
            Some(x) => { *cur = Some(f(x).into_iter()); }
            None => return None,
        }
    }
}
pub fn adnext__flatten_cur<T: IntoIterator, I: Iterator<Item = T>>(i: &mut I, cur: &mut Option<T::IntoIter>) -> Option<T::Item> {
    loop {
        if let Some(j) = cur {
            if let Some(y) = any_item(j) { return Some(y); }
            *cur = None;
        }
        match i.next() {
            Some(x) => { *cur = Some(x.into_iter()); }
            None => return None,
        }
    }
}
pub fn adnext__flatten<T: IntoIterator, I: Iterator<Item = T>>(i: &mut I) -> Option<T::Item> {
    loop {
        match i.next() {
            Some(x) => {
                let mut j = x.into_iter();
                if let Some(y) = any_item(&mut j) { return Some(y); }
            }
            None => return None,
        }
    }
}
pub fn adnext__inspect<T, I: Iterator<Item = T>, F: FnMut(&T)>(i: &mut I, mut f: F) -> Option<T> {
    match i.next() { Some(x) => { f(&x); Some(x) } None => None }
}
pub fn adnext__map_while<T, I: Iterator<Item = T>, U, F: FnMut(T) -> Option<U>>(i: &mut I, mut f: F) -> Option<U> {
    match i.next() { Some(x) => f(x), None => None }
}
pub fn adnext__take_while<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(i: &mut I, mut f: F) -> Option<T> {
    match i.next() { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
// ---------------------------------------------------------------- iterator consumers
pub fn iter__for_each<T, I: Iterator<Item = T>, F: FnMut(T)>(mut i: I, mut f: F) {
    while let Some(x) = i.next() { f(x) }
}
pub fn iter__try_for_each<T, E, I: Iterator<Item = T>, F: FnMut(T) -> Result<(), E>>(mut i: I, mut f: F) -> Result<(), E> {
    while let Some(x) = i.next() {
        match f(x) { Ok(()) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn iter__find<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut i: I, mut f: F) -> Option<T> {
    while let Some(x) = i.next() { if f(&x) { return Some(x); } }
    None
}
pub fn iter__find_map<T, U, I: Iterator<Item = T>, F: FnMut(T) -> Option<U>>(mut i: I, mut f: F) -> Option<U> {
    while let Some(x) = i.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn iter__position<T, I: Iterator<Item = T>, F: FnMut(T) -> bool>(mut i: I, mut f: F) -> Option<usize> {
    while let Some(x) = i.next() { let n = index_of(&x); if f(x) { return Some(n); } }
    None
}
pub fn iter__any<T, I: Iterator<Item = T>, F: FnMut(T) -> bool>(mut i: I, mut f: F) -> bool {
    while let Some(x) = i.next() { if f(x) { return true; } }
    false
}
pub fn iter__all<T, I: Iterator<Item = T>, F: FnMut(T) -> bool>(mut i: I, mut f: F) -> bool {
    while let Some(x) = i.next() { if !f(x) { return false; } }
    true
}
pub fn iter__fold<T, B, I: Iterator<Item = T>, F: FnMut(B, T) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = i.next() { acc = f(acc, x); }
    acc
}
pub fn iter__count<T, I: Iterator<Item = T>>(mut i: I) -> usize {
    let mut n = 0;
    while let Some(_) = i.next() { n += 1; }
    n
}
pub fn iter__collect<T, I: Iterator<Item = T>>(mut i: I) -> Vec<T> {
    let mut v = Vec::new();
    while let Some(x) = i.next() { v.push(x) }
    v
}
pub fn iter__partition<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(mut i: I, mut f: F) -> (Vec<T>, Vec<T>) {
    let mut v = Vec::new();
    let mut w = Vec::new();
    while let Some(x) = i.next() { if f(&x) { v.push(x) } else { w.push(x) } }
    (v, w)
}
pub fn vec__extend_opt<T>(v: &mut Vec<T>, o: Option<T>) {
    if let Some(x) = o {
        v.push(x)
    }
}

pub fn vec__extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut i: I) {
    while let Some(x) = i.next() { v.push(x) }
}
pub fn vec__append<T>(v: &mut Vec<T>, w: &mut Vec<T>) {
    let old = std::mem::replace(w, Vec::new());
    let mut i = old.into_iter();
    while let Some(x) = i.next() { v.push(x) }
}

// an arbitrary item of the iterator (intrinsic of the interpreter)
pub fn any_item<I: Iterator>(i: &mut I) -> Option<I::Item> { i.next() }
pub fn adnext__skip_while<T, I: Iterator<Item = T>, F: FnMut(&T) -> bool>(i: &mut I, mut f: F) -> Option<T> {
    loop {
        match i.next() {
            Some(x) => if !f(&x) { return Some(x); },
            None => return None,
        }
    }
}
pub fn adnext__chain<T, I: Iterator<Item = T>, J: Iterator<Item = T>>(i: &mut I, j: &mut J) -> Option<T> {
    match i.next() { Some(x) => Some(x), None => j.next() }
}
pub fn adnext__zip<T, U, I: Iterator<Item = T>, J: Iterator<Item = U>>(i: &mut I, j: &mut J) -> Option<(T, U)> {
    match i.next() { Some(x) => match j.next() { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn adnext__enumerate<T, I: Iterator<Item = T>>(i: &mut I) -> Option<(usize, T)> {
    match i.next() { Some(x) => Some((index_of(&x), x)), None => None }
}
pub fn adnext__tuples<T, I: Iterator<Item = T>>(i: &mut I) -> Option<(T, T)> {
    match i.next() { Some(x) => match i.next() { Some(y) => Some((x, y)), None => None }, None => None }
}
#[inline(never)]
fn index_of<T>(_x: &T) -> usize { unimplemented!() }
pub fn iter__collect_result<T, E, I: Iterator<Item = Result<T, E>>>(mut i: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = i.next() {
        match x { Ok(x) => v.push(x), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn iter__collect_option<T, I: Iterator<Item = Option<T>>>(mut i: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = i.next() {
        match x { Some(x) => v.push(x), None => return None }
    }
    Some(v)
}
pub fn result__from_residual_id<T, E>(r: Result<std::convert::Infallible, E>) -> Result<T, E> {
    match r { Err(e) => Err(e), Ok(_) => loop {} }
}
pub fn option__unwrap_unchecked<T>(o: Option<T>) -> T { match o { Some(x) => x, None => loop {} } }
pub fn option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => match p { Some(_) => None, None => Some(x) }, None => p }
}
pub fn result__expect_err<T, E>(o: Result<T, E>, _m: &str) -> E { match o { Ok(_) => panic!("GK expect"), Err(e) => e } }
pub fn result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!("GK unwrap"), Err(e) => e } }
pub fn result__and<T, U, E>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn result__or<T, E, F>(o: Result<T, E>, p: Result<T, F>) -> Result<T, F> { match o { Ok(x) => Ok(x), Err(_) => p } }
pub fn result__is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(_) => false, Err(x) => f(x) } }
pub fn option__as_deref_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn result__copied<T: Copy, E>(r: Result<&T, E>) -> Result<T, E> { match r { Ok(x) => Ok(*x), Err(e) => Err(e) } }

// ---------------------------------------------------------------- ranges
pub fn adnext__from_fn<T, F: FnMut() -> Option<T>>(mut f: F) -> Option<T> { f() }
pub fn range__contains<T: PartialOrd>(r: &std::ops::Range<T>, x: &T) -> bool { r.start <= *x && *x < r.end }
pub fn incl__contains<T: PartialOrd>(lo: &T, hi: &T, x: &T) -> bool { *lo <= *x && *x <= *hi }

// ---------------------------------------------------------------- look-ahead
pub fn iter__peek<T, I: Iterator<Item = T>>(i: &mut I, p: &mut Option<Option<T>>) -> Option<T> {
    let x = i.next();
    *p = Some(x);
    match p { Some(y) => take_copy(y), None => loop {} }
}
pub fn iter__next_if<T, I: Iterator<Item = T>, F: FnOnce(&T) -> bool>(i: &mut std::iter::Peekable<I>, f: F) -> Option<T> {
    match i.peek() { Some(x) => if f(x) { i.next() } else { None }, None => None }
}
pub fn take_copy<T>(_x: &T) -> T { unimplemented!() }
pub fn map__extend<K: std::hash::Hash + Eq, V, I: Iterator<Item = (K, V)>>(m: &mut std::collections::HashMap<K, V>, mut i: I) {
    while let Some((k, v)) = i.next() { m.insert(k, v); }
}
