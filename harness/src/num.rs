//! Exact arithmetic used by the oracles.
pub fn gcd(mut a: u128, mut b: u128) -> u128 {
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}
/// a * b mod m for m < 2^127, by splitting when the product would not fit.
pub fn mul_mod(a: u128, b: u128, m: u128) -> u128 {
    let (mut a, mut b) = (a % m, b % m);
    if let Some(p) = a.checked_mul(b) {
        return p % m;
    }
    let mut r = 0u128;
    while b > 0 {
        if b & 1 == 1 {
            r = (r + a) % m;
        }
        a = (a + a) % m;
        b >>= 1;
    }
    r
}
pub fn pow_mod(mut x: u128, mut n: u128, m: u128) -> u128 {
    let mut r = 1 % m;
    x %= m;
    while n > 0 {
        if n & 1 == 1 {
            r = mul_mod(r, x, m);
        }
        x = mul_mod(x, x, m);
        n >>= 1;
    }
    r
}
/// Inverse of a modulo m (gcd(a, m) = 1), 0 for m = 1.
pub fn inv_mod(a: i128, m: i128) -> i128 {
    let (mut r0, mut r1, mut t0, mut t1) = (m, a.rem_euclid(m), 0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (t0, t1) = (t1, t0 - q * t1);
    }
    assert_eq!(r0, 1, "oracle: no inverse");
    t0.rem_euclid(m)
}
pub fn is_prime_trial(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            return false;
        }
        d += if d == 2 { 1 } else { 2 };
    }
    true
}
pub fn prime_factors(mut n: u64) -> Vec<u64> {
    let mut v = vec![];
    let mut d = 2;
    while d * d <= n {
        if n % d == 0 {
            v.push(d);
            while n % d == 0 {
                n /= d;
            }
        }
        d += if d == 2 { 1 } else { 2 };
    }
    if n > 1 {
        v.push(n);
    }
    v
}
/// Bit sieve: composite[i] for i <= n.
pub fn sieve(n: usize) -> Vec<bool> {
    let mut c = vec![false; n + 1];
    for i in 0..=n.min(1) {
        c[i] = true;
    }
    let mut i = 2;
    while i * i <= n {
        if !c[i] {
            let mut j = i * i;
            while j <= n {
                c[j] = true;
                j += i;
            }
        }
        i += 1;
    }
    c
}
pub fn primes_upto(n: usize) -> Vec<u32> {
    sieve(n).iter().enumerate().filter(|(_, &c)| !c).map(|(i, _)| i as u32).collect()
}
