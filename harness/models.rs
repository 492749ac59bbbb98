// Generic MIR models of leaf standard-library functions that are written with raw pointers or
// specialisation. The driver substitutes them (see models() in driver.rs); they are never run.
#![feature(try_trait_v2)]
#![allow(dead_code, unused)]
#![crate_type = "lib"]
use std::ops::{ControlFlow, Try};

pub fn v_from_iter<T, I: Iterator<Item = T>>(mut it: I) -> Vec<T> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn v_extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) {
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut a = init;
    while let Some(x) = it.next() {
        a = f(a, x);
    }
    a
}
pub fn it_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut a = init;
    while let Some(x) = it.next() {
        match f(a, x).branch() {
            ControlFlow::Continue(c) => a = c,
            ControlFlow::Break(r) => return R::from_residual(r),
        }
    }
    R::from_output(a)
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn it_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn it_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn it_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if f(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn it_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn it_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() {
        l = Some(x);
    }
    l
}
pub fn it_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    loop {
        let x = it.next()?;
        if n == 0 {
            return Some(x);
        }
        n -= 1;
    }
}
