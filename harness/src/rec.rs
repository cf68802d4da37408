//! Random recursive programs, as wrapped closures and as ordinary functions (P31).
//! Included twice: in the crates `highopt` and `lowopt`.
use rust_cp::misc::recursive_function::*;
use std::cell::RefCell;
use std::rc::Rc;

/// What every body does; the same for the closure and the function.
#[derive(Clone, Debug)]
pub struct Prog {
    pub mul: u64,
    /// Number of nested calls, selected by the digest of the arguments.
    pub kids: Vec<u8>,
    /// How the arguments of a nested call derive from those of the caller.
    pub rot: usize,
    pub add: u64,
}
#[derive(Clone, Default)]
pub struct State {
    pub budget: u64,
    pub log: Vec<u64>,
    pub calls: u64,
}
pub fn digest(p: &Prog, a: &[u64]) -> u64 {
    let mut h = 0x9E37u64.wrapping_add(a.len() as u64);
    for &x in a {
        h = (h ^ x).wrapping_mul(p.mul | 1).rotate_left(7).wrapping_add(0x1234_5678_9ABC);
    }
    h
}
pub fn child<const K: usize>(p: &Prog, a: &[u64; K], j: u64, acc: u64) -> [u64; K] {
    let mut c = *a;
    if K > 0 {
        c.rotate_left(p.rot % K);
        c[(j as usize) % K] = c[(j as usize) % K].wrapping_add(acc >> 3).wrapping_add(p.add);
        c[K - 1] = c[K - 1].wrapping_sub(1);
    }
    c
}
/// The body, with `$st` the captured state (only touched by short accesses, never held across a
/// nested call) and `$call` the nested call.
macro_rules! body {
    ($p:expr, $st:expr, $a:expr, $call:expr) => {{
        let p: &Prog = $p;
        let a = $a;
        let h = digest(p, &a);
        $st.log.push(h);
        $st.calls += 1;
        if $st.budget == 0 {
            h ^ 0x55
        } else {
            $st.budget -= 1;
            let mut acc = h ^ $st.calls;
            for j in 0..p.kids[(h % p.kids.len() as u64) as usize] as u64 {
                let r: u64 = $call(child(p, &a, j, acc));
                $st.log.push(acc ^ r);
                acc = acc.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(r).wrapping_add($st.log.len() as u64);
            }
            $st.log.push(acc);
            acc ^ $st.calls
        }
    }};
}
fn native<const K: usize>(p: &Prog, st: &mut State, a: [u64; K]) -> u64 {
    body!(p, st, a, |c| native(p, st, c))
}

/// A regular tree of calls: `depth` levels, `width` nested calls each.
#[derive(Clone, Copy, Debug)]
pub struct Shape {
    pub mul: u64,
    pub depth: u64,
    pub width: u64,
}
/// Calls so far, present depth, greatest depth.
#[derive(Clone, Copy, Default, PartialEq, Debug)]
pub struct Count(pub u64, pub u64, pub u64);
macro_rules! regular {
    ($s:expr, $n:expr, $a:expr, $call:expr) => {{
        let a = $a;
        $n.0 += 1;
        $n.1 += 1;
        $n.2 = $n.2.max($n.1);
        let mut acc = a.iter().fold($n.0, |h, x| (h ^ x).wrapping_mul($s.mul | 1));
        if $n.1 < $s.depth {
            for j in 0..$s.width {
                let mut c = a;
                for x in c.iter_mut() {
                    *x = x.rotate_left(5) ^ j;
                }
                let r: u64 = $call(c);
                acc = acc.rotate_left(9) ^ r;
            }
        }
        $n.1 -= 1;
        acc
    }};
}
fn regular_native<const K: usize>(s: &Shape, n: &mut Count, a: [u64; K]) -> u64 {
    regular!(s, n, a, |c| regular_native(s, n, c))
}

/// How the closure holds its state.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Capture {
    /// Borrowed from the surrounding function.
    Ref,
    /// Moved in as a shared cell.
    Rc,
    /// Moved in on the heap.
    Boxed,
    /// Moved in as it is.
    Inline,
}
/// Results of successive outermost calls, and the state afterwards where it can be seen.
#[derive(PartialEq, Debug)]
pub struct Outcome {
    pub results: Vec<u64>,
    pub log: Option<Vec<u64>>,
    pub calls: Option<u64>,
}
fn ordinary<const K: usize>(p: &Prog, budget: u64, args: &[[u64; K]]) -> Outcome {
    let mut st = State { budget, ..State::default() };
    let results = args.iter().map(|a| native(p, &mut st, *a)).collect();
    Outcome { results, log: Some(st.log), calls: Some(st.calls) }
}

// Argument types of the mixed-type variant.
pub trait Arg: Clone {
    fn of(x: u64) -> Self;
    fn back(&self) -> u64;
}
macro_rules! arg {
    ($($t:ty, $of:expr, $back:expr;)*) => { $(
        impl Arg for $t {
            fn of(x: u64) -> Self { let f: fn(u64) -> $t = $of; f(x) }
            fn back(&self) -> u64 { let f: fn(&$t) -> u64 = $back; f(self) }
        }
    )* };
}
arg! {
    u64, |x| x, |x| *x;
    String, |x| x.to_string(), |x| x.parse().unwrap();
    (u32, bool), |x| ((x >> 1) as u32, x & 1 == 1), |x| (x.0 as u64) << 1 | x.1 as u64;
    Vec<u8>, |x| x.to_le_bytes().to_vec(), |x| u64::from_le_bytes(x[..].try_into().unwrap());
    i8, |x| x as i8, |x| *x as u8 as u64;
    Option<u16>, |x| if x % 3 == 0 { None } else { Some(x as u16) }, |x| x.map_or(0, |v| v as u64 + 1);
    char, |x| (b'a' + (x % 26) as u8) as char, |x| *x as u64;
    f64, |x| (x >> 12) as f64, |x| *x as u64;
    Box<u64>, |x| Box::new(x), |x| **x;
}

macro_rules! arity {
    ($k:literal $run:ident $mixed:ident $heavy:ident $wrapper:ident $callable:ident ($($a:ident $i:tt $t:ty),*) ($($u:ty),*)) => {
        pub fn $run(p: &Prog, capture: Capture, budget: u64, args: &[Vec<u64>]) -> (Outcome, Outcome) {
            let args: Vec<[u64; $k]> = args.iter().map(|a| a[..$k].try_into().unwrap()).collect();
            let want = ordinary(p, budget, &args);
            let mut st = State { budget, ..State::default() };
            let got = match capture {
                Capture::Ref => {
                    let mut f = $wrapper::new(|f: &mut dyn $callable<$($u,)* u64> $(, $a: u64)*| -> u64 {
                        body!(p, st, [$($a),*], |c: [u64; $k]| { let _ = c; f.call($(c[$i]),*) })
                    });
                    let results = args.iter().map(|c| { let _ = c; f.call($(c[$i]),*) }).collect();
                    Outcome { results, log: Some(st.log), calls: Some(st.calls) }
                }
                Capture::Rc => {
                    let shared = Rc::new(RefCell::new(st));
                    let st = shared.clone();
                    let mut f = $wrapper::new(move |f: &mut dyn $callable<$($u,)* u64> $(, $a: u64)*| -> u64 {
                        body!(p, st.borrow_mut(), [$($a),*], |c: [u64; $k]| { let _ = c; f.call($(c[$i]),*) })
                    });
                    let results = args.iter().map(|c| { let _ = c; f.call($(c[$i]),*) }).collect();
                    let s = shared.borrow();
                    Outcome { results, log: Some(s.log.clone()), calls: Some(s.calls) }
                }
                Capture::Boxed => {
                    let mut st = Box::new(st);
                    let mut f = $wrapper::new(move |f: &mut dyn $callable<$($u,)* u64> $(, $a: u64)*| -> u64 {
                        body!(p, st, [$($a),*], |c: [u64; $k]| { let _ = c; f.call($(c[$i]),*) })
                    });
                    let results = args.iter().map(|c| { let _ = c; f.call($(c[$i]),*) }).collect();
                    Outcome { results, log: None, calls: None }
                }
                Capture::Inline => {
                    let mut f = $wrapper::new(move |f: &mut dyn $callable<$($u,)* u64> $(, $a: u64)*| -> u64 {
                        body!(p, st, [$($a),*], |c: [u64; $k]| { let _ = c; f.call($(c[$i]),*) })
                    });
                    let results = args.iter().map(|c| { let _ = c; f.call($(c[$i]),*) }).collect();
                    Outcome { results, log: None, calls: None }
                }
            };
            (got, want)
        }
        pub fn $heavy(s: &Shape, a: &[u64]) -> ((u64, Count), (u64, Count)) {
            let a: [u64; $k] = a[..$k].try_into().unwrap();
            let mut n = Count::default();
            let want = (regular_native(s, &mut n, a), n);
            let mut n = Count::default();
            let mut f = $wrapper::new(|f: &mut dyn $callable<$($u,)* u64> $(, $a: u64)*| -> u64 {
                regular!(s, n, [$($a),*], |c: [u64; $k]| { let _ = c; f.call($(c[$i]),*) })
            });
            let got = f.call($(a[$i]),*);
            ((got, n), want)
        }
        /// Arguments of different types, a result that is not Copy, no captured state but the
        /// remaining budget.
        pub fn $mixed(p: &Prog, budget: u64, args: &[u64]) -> (Vec<u64>, Vec<u64>) {
            fn native(p: &Prog, budget: &mut u64 $(, $a: $t)*) -> Vec<u64> {
                let v: Vec<u64> = vec![$($a.back()),*];
                let h = digest(p, &v);
                let mut out = v.clone();
                out.push(h);
                if *budget > 0 {
                    *budget -= 1;
                    for j in 0..p.kids[(h % p.kids.len() as u64) as usize] as u64 {
                        let x = h.wrapping_mul(j + 3).rotate_left(j as u32 * 5 + 1);
                        let r = native(p, budget $(, <$t>::of(x.rotate_right($i * 7)))*);
                        let _ = x;
                        out.push(digest(p, &r));
                    }
                }
                out
            }
            let mut left = budget;
            let want = native(p, &mut left $(, <$t>::of(args[$i]))*);
            let mut left = budget;
            let mut f = $wrapper::new(|f: &mut dyn $callable<$($t,)* Vec<u64>> $(, $a: $t)*| -> Vec<u64> {
                let v: Vec<u64> = vec![$($a.back()),*];
                let h = digest(p, &v);
                let mut out = v.clone();
                out.push(h);
                if left > 0 {
                    left -= 1;
                    for j in 0..p.kids[(h % p.kids.len() as u64) as usize] as u64 {
                        let x = h.wrapping_mul(j + 3).rotate_left(j as u32 * 5 + 1);
                        let r = f.call($(<$t>::of(x.rotate_right($i * 7))),*);
                        let _ = x;
                        out.push(digest(p, &r));
                    }
                }
                out
            });
            let _ = args;
            (f.call($(<$t>::of(args[$i])),*), want)
        }
    };
}
arity!(0 run0 mixed0 heavy0 RecursiveFunction0 Callable0 () ());
arity!(1 run1 mixed1 heavy1 RecursiveFunction Callable (a 0 String) (u64));
arity!(2 run2 mixed2 heavy2 RecursiveFunction2 Callable2 (a 0 u64, b 1 String) (u64, u64));
arity!(3 run3 mixed3 heavy3 RecursiveFunction3 Callable3 (a 0 i8, b 1 Vec<u8>, c 2 u64) (u64, u64, u64));
arity!(4 run4 mixed4 heavy4 RecursiveFunction4 Callable4 (a 0 char, b 1 (u32, bool), c 2 u64, d 3 Box<u64>) (u64, u64, u64, u64));
arity!(5 run5 mixed5 heavy5 RecursiveFunction5 Callable5 (a 0 f64, b 1 u64, c 2 Option<u16>, d 3 String, e 4 i8) (u64, u64, u64, u64, u64));
arity!(6 run6 mixed6 heavy6 RecursiveFunction6 Callable6 (a 0 u64, b 1 i8, c 2 String, d 3 char, e 4 Vec<u8>, g 5 (u32, bool)) (u64, u64, u64, u64, u64, u64));
arity!(7 run7 mixed7 heavy7 RecursiveFunction7 Callable7 (a 0 Box<u64>, b 1 char, c 2 i8, d 3 u64, e 4 f64, g 5 String, h 6 Vec<u8>) (u64, u64, u64, u64, u64, u64, u64));
arity!(8 run8 mixed8 heavy8 RecursiveFunction8 Callable8 (a 0 u64, b 1 String, c 2 Vec<u8>, d 3 i8, e 4 char, g 5 f64, h 6 Option<u16>, i 7 (u32, bool)) (u64, u64, u64, u64, u64, u64, u64, u64));
arity!(9 run9 mixed9 heavy9 RecursiveFunction9 Callable9 (a 0 u64, b 1 String, c 2 (u32, bool), d 3 Vec<u8>, e 4 i8, g 5 Option<u16>, h 6 char, i 7 f64, j 8 Box<u64>) (u64, u64, u64, u64, u64, u64, u64, u64, u64));

pub type Run = fn(&Prog, Capture, u64, &[Vec<u64>]) -> (Outcome, Outcome);
pub type Mixed = fn(&Prog, u64, &[u64]) -> (Vec<u64>, Vec<u64>);
pub const RUN: [Run; 10] = [run0, run1, run2, run3, run4, run5, run6, run7, run8, run9];
pub const MIXED: [Mixed; 10] = [mixed0, mixed1, mixed2, mixed3, mixed4, mixed5, mixed6, mixed7, mixed8, mixed9];

pub type Heavy = fn(&Shape, &[u64]) -> ((u64, Count), (u64, Count));
pub const HEAVY: [Heavy; 10] = [heavy0, heavy1, heavy2, heavy3, heavy4, heavy5, heavy6, heavy7, heavy8, heavy9];

/// The reproductions of the known finding: a counter and a list owned by the closure itself.
pub fn owned_counter(n: u64) -> u64 {
    let mut k = 0u64;
    let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u64, u64>, n: u64| -> u64 {
        k += 1;
        if n > 0 {
            f.call(n - 1);
        }
        k += 1;
        k
    });
    f.call(n)
}
pub fn owned_list(n: u64) -> u64 {
    let mut v = vec![];
    let mut f = RecursiveFunction::new(move |f: &mut dyn Callable<u64, u64>, n: u64| -> u64 {
        v.push(n);
        let l = v.len() as u64;
        if n > 0 {
            f.call(n - 1);
        }
        v.push(n + l);
        v.len() as u64
    });
    f.call(n)
}
