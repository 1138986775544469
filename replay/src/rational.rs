//! P20: conversions between floats and rationals, against exact integer arithmetic
use crate::util::*;
use little_exif::rational::{iR64, uR64};

/// x = m * 2^-k for 2^-40 <= x < 2^33
fn dyadic(x: f64) -> (u128, u32) {
    let b = x.to_bits(); let e = ((b >> 52) & 0x7ff) as i32 - 1075; let m = ((b & ((1 << 52) - 1)) | 1 << 52) as u128;
    if e >= 0 { (m << e, 0) } else { (m, (-e) as u32) }
}
/// |x - p/q| as a float (the subtraction itself is exact)
fn err(m: u128, k: u32, p: u128, q: u128) -> f64 { let (a, b) = (m * q, p << k); (a.max(b) - a.min(b)) as f64 / (q as f64 * (2f64).powi(k as i32)) }
/// the closest fraction with p <= maxp, q <= maxq
fn best(m: u128, k: u32, maxp: u128, maxq: u128) -> (u128, u128) {
    let (mut a, mut b) = (m, 1u128 << k);
    let (mut p0, mut q0, mut p1, mut q1) = (0u128, 1u128, 1u128, 0u128);
    loop {
        if b == 0 { return (p1, q1); }
        let t = a / b; (a, b) = (b, a % b);
        let room = [if p1 > 0 { (maxp - p0) / p1 } else { t }, if q1 > 0 { (maxq - q0) / q1 } else { t }].into_iter().min().unwrap();
        if t > room {
            if q1 == 0 { return (maxp, 1); }
            let (ps, qs) = (p0 + room * p1, q0 + room * q1);
            return if qs > 0 && err(m, k, ps, qs) < err(m, k, p1, q1) { (ps, qs) } else { (p1, q1) };
        }
        (p0, q0, p1, q1) = (p1, q1, p0 + t * p1, q0 + t * q1);
    }
}
fn accuracy(x: f64, p: u64, q: u64, maxp: u64, what: &str) -> Result<(), String> {
    if q == 0 { return Err(format!("{x:e} becomes a {what} fraction with denominator 0")); }
    if x > maxp as f64 - 0.5 { return if p == maxp && q == 1 { Ok(()) } else { Err(format!("{x:e} is beyond the range and becomes the {what} fraction {p}/{q} instead of {maxp}/1")) } }
    if x < 2f64.powi(-40) { return if p as f64 / q as f64 <= 1.1e-9 { Ok(()) } else { Err(format!("{x:e} becomes {p}/{q}")) } }
    if x == x.floor() && x <= maxp as f64 && (p, q) != (x as u64, 1) { return Err(format!("the integer {x} becomes the {what} fraction {p}/{q}")); }
    let (m, k) = dyadic(x);
    let (bp, bq) = best(m, k, maxp as u128, i32::MAX as u128);
    let (e, eb) = (err(m, k, p as u128, q as u128), err(m, k, bp, bq));
    let tolerance = 1.001e-9 / (q as f64 * q as f64) + 16.0 * x * f64::EPSILON;
    if e > eb * 1.0001 + tolerance { return Err(format!("{x:e} becomes the {what} fraction {p}/{q} (off by {e:e}), although {bp}/{bq} is closer (off by {eb:e})")); }
    Ok(())
}
pub fn check_p20(c: &Case) -> Res {
    match c.op.as_str() {
        "float" => {
            let x = f64::from_bits(c.n[0] as u64);
            let u = uR64::from(x.abs()); let s = iR64::from(x);
            if x.is_nan() || x.is_infinite() { return Ok(false); }
            accuracy(x.abs(), u.nominator as u64, u.denominator as u64, u32::MAX as u64, "unsigned")?;
            if s.denominator <= 0 { return Err(format!("{x:e} becomes a signed fraction with denominator {}", s.denominator)); }
            if (x < 0.0 && s.nominator > 0) || (x >= 0.0 && s.nominator < 0) { return Err(format!("{x:e} becomes {}/{}", s.nominator, s.denominator)); }
            accuracy(x.abs(), s.nominator.unsigned_abs() as u64, s.denominator as u64, if x < 0.0 { 1 << 31 } else { i32::MAX as u64 }, "signed")?;
            let back = f64::from(u.clone()); if back != u.nominator as f64 / u.denominator as f64 { return Err(format!("{u:?} converts to {back}")); }
            let back = f64::from(s.clone()); if back != s.nominator as f64 / s.denominator as f64 { return Err(format!("{s:?} converts to {back}")); }
            Ok(x != x.floor())
        }
        "int" => {
            let u = c.n[0] as u32; let i = u as i32;
            let r = uR64::from(u); if (r.nominator, r.denominator) != (u, 1) { return Err(format!("{u} becomes {}/{}", r.nominator, r.denominator)); }
            let r = iR64::from(i); if (r.nominator, r.denominator) != (i, 1) { return Err(format!("{i} becomes {}/{}", r.nominator, r.denominator)); }
            if i >= 0 { let r = iR64::from(u); if (r.nominator, r.denominator) != (i, 1) { return Err(format!("{u} becomes the signed {}/{}", r.nominator, r.denominator)); } }
            if u32::from(uR64 { nominator: u, denominator: 1 }) != u { return Err(format!("{u}/1 does not convert back")); }
            if i32::from(iR64 { nominator: i, denominator: 1 }) != i { return Err(format!("{i}/1 does not convert back")); }
            if i >= 0 && u32::from(iR64 { nominator: i, denominator: 1 }) != u { return Err(format!("{i}/1 does not convert back")); }
            Ok(true)
        }
        "fraction" => {
            let (p, q) = (c.n[0] as u32, c.n[1] as u32); if q == 0 { return Ok(false); }
            if u32::from(uR64 { nominator: p, denominator: q }) != p / q { return Err(format!("{p}/{q} converts to {}", u32::from(uR64 { nominator: p, denominator: q }))); }
            let (a, b) = (p as i32, q as i32);
            if b != 0 && !(a == i32::MIN && b == -1) && i32::from(iR64 { nominator: a, denominator: b }) != a / b { return Err(format!("{a}/{b} converts to {}", i32::from(iR64 { nominator: a, denominator: b }))); }
            if p <= 3000 && q <= 3000 {
                let g = { let (mut a, mut b) = (p, q); while b != 0 { (a, b) = (b, a % b); } a };
                let x = p as f64 / q as f64;
                let r = uR64::from(x); if (r.nominator, r.denominator) != (p / g, q / g) { return Err(format!("{p}/{q} as a float becomes {}/{}", r.nominator, r.denominator)); }
                let r = iR64::from(-x); if (r.nominator, r.denominator) != (-((p / g) as i32), (q / g) as i32) { return Err(format!("-{p}/{q} as a float becomes {}/{}", r.nominator, r.denominator)); }
            }
            Ok(true)
        }
        "facts" => { facts(f64::from_bits(c.n[0] as u64), f64::from_bits(c.n[1] as u64), c.n[2] as u32) .map(|_| true).map_err(|e| format!("an assumed fact of float arithmetic does not hold: {e}")) }
        _ => Err("unknown operation".into())
    }
}
/// the assumed lemmas of proofs/rational.rs, on the real arithmetic
fn facts(a: f64, b: f64, n: u32) -> Result<(), String> {
    let int_of = |x: f64| if x == x.floor() && x.abs() <= 9007199254740992.0 { Some(x as i64) } else { None };
    let trunc = |x: f64| x as u32;
    let must = |c: bool, s: &str| if c { Ok(()) } else { Err(format!("{s} for {a:e}, {b:e}, {n}")) };
    if let Some(i) = int_of(a) {
        must(int_of(a.abs()) == Some(i.abs()) && int_of(a.floor()) == Some(i) && !a.is_nan(), "fact_integers")?;
        if 0 <= i && i <= u32::MAX as i64 { must(trunc(a) as i64 == i, "fact_integers")?; }
        if let Some(j) = int_of(b) { must(a.partial_cmp(&b) == Some(i.cmp(&j)), "fact_integers")?; if (i - j).abs() <= 0x1f_ffff_ffff_ffff { must(int_of(a - b) == Some(i - j), "fact_integers")?; } }
        must((a > n as f64 - 0.5) == (i >= n as i64), "fact_half")?;
    }
    must(a.abs().is_nan() == a.is_nan() && int_of(a.abs()).map_or(true, |k| k >= 0), "fact_nan")?;
    if n >= 1 { must(a.is_nan() || a > n as f64 - 0.5 || trunc(a.floor()) <= n, "fact_half")?; must(a.abs().is_nan() || a.abs() > n as f64 - 0.5 || a.is_finite(), "fact_finite")?; }
    must(a >= n as f64 || trunc(a) <= n, "fact_below")?; must(!(n as f64 > a) || trunc(a) <= n, "fact_below")?;
    must(0.0f64 < 1e-9, "fact_tolerance")?;
    if a.is_finite() && !((a - a.floor()).abs() <= 1e-9) {
        let y = 1.0 / (a - a.floor()); let t = y.floor();
        must(y.is_finite() && trunc(t) >= 1 && !(0.0 >= t / 2.0), "fact_term")?;
    }
    Ok(())
}
pub fn gen_p20(s: &mut Search) {
    let f = |x: f64| Case::new("P20", "float").num(x.to_bits() as i64);
    let special = [0.0, -0.0, 1.0, 0.5, 0.6180339887498947, 0.618033988749895, 1.618033988749895, 3.14159265358979, 2.718281828459045, 12345.678901234, 1e9 + 1.0 / 3.0, 2147483647.0, 2147483647.25, 2147483647.5, 2147483648.0, 2147483646.75,
        4294967294.25, 4294967294.5, 4294967294.75, 4294967295.0, 4294967296.0, 1e10, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-9, 1.0001e-9, 0.9999e-9, 4.6e-10, 2e-10, 1e-8, 1e-7, 1e-5, 0.1, 0.2, 0.3, 0.7, 1.1, 1.0 / 3.0, 2.0 / 3.0, 72.0, 300.0, 1.0 / 8000.0, 0.999999999, 0.9999999995, 0.99999999,
        1000000.0002, 1000000.0003, 65536.5, 65535.999, 1e8 + 0.3, 2e9 + 0.25, f64::NAN, f64::INFINITY, 1.0 + 1e-9, 1.0 + 2e-9, 46340.95, 46341.00002, 92681.9];
    for x in special { for d in -2i64..=2 { let y = f64::from_bits(x.to_bits().wrapping_add(d as u64)); if !s.case(f(y)) || !s.case(f(-y)) { return; } } }
    for x in [0u32, 1, 2, 3, 99, 100, 0x7fff_fffe, 0x7fff_ffff, 0x8000_0000, 0x8000_0001, 0xffff_fffe, 0xffff_ffff] { if !s.case(Case::new("P20", "int").num(x as i64)) { return; } }
    for p in 0..200i64 { for q in 1..200i64 { if !s.case(Case::new("P20", "fraction").num(p).num(q)) { return; } } }
    for (i, &a) in special.iter().enumerate() { for &b in &special { if !s.case(Case::new("P20", "facts").num(a.to_bits() as i64).num(b.to_bits() as i64).num((i * 7919) as i64)) { return; } } }
    s.notes.push("all fractions below 200/200 and 60 special values with their neighbours".into());
    while s.more() {
        let r = &mut s.rng;
        let x = match r.below(10) {
            0 => f64::from_bits(r.next()),
            1 => { let d = r.below(1000) as f64; r.next() as u32 as f64 + d / 1000.0 }
            2 => { let e = r.below(42) as i32; (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 2f64.powi(33 - e) }
            3 => { let (p, q) = (r.next() as u32 as f64, (r.next() as u32).max(1) as f64); p / q }
            4 => { let (p, q) = (r.below(100000) as f64, r.below(100000).max(1) as f64); p / q }
            5 | 6 => {       // a continued fraction with terms mostly 1, few others
                let n = 1 + r.below(45); let mut v = 1.0f64 + r.below(3) as f64;
                for _ in 0..n { let t = match r.below(12) { 0 => 2.0, 1 => 3.0, 2 => r.below(50) as f64 + 1.0, _ => 1.0 }; v = t + 1.0 / v; }
                if r.chance(1, 2) { v = 1.0 / v; }
                if r.chance(1, 3) { v += r.below(100000) as f64; }
                f64::from_bits(v.to_bits() + r.below(7) as u64 - 3)
            }
            7 => { let k = r.below(33); let m = 2f64.powi(k as i32); let t = r.below(9) as f64 - 4.0; let q = 1.0 + r.below(16) as f64; m + t / q }
            8 => { let q = 10f64.powi(1 + r.below(10) as i32); (r.next() as u32 as f64 / q * 10f64.powi(r.below(4) as i32) ).trunc() / q + r.below(500) as f64 }
            _ => { let a = 1.0 + r.below(70000) as f64; let t = 1.0 + r.below(2000000) as f64; a + 1.0 / t }   // the limit is hit after the first term
        };
        let c = match r.below(8) {
            0 => { let (p, q) = if r.chance(1, 2) { (r.below(3000), r.below(3000)) } else { (r.next() as u32 as usize, r.next() as u32 as usize >> r.below(32)) }; Case::new("P20", "fraction").num(p as i64).num(q as i64) }
            1 => Case::new("P20", "int").num(r.next() as u32 as i64),
            2 => { let b = if r.chance(1, 2) { x.floor() } else { f64::from_bits(r.next()) }; let n = match r.below(3) { 0 => r.next() as u32, 1 => x as u32, _ => (x as u32).wrapping_add(1) }; Case::new("P20", "facts").num(x.to_bits() as i64).num(b.to_bits() as i64).num(n as i64) }
            3 => f(-x),
            _ => f(x),
        };
        if !s.case(c) { return; }
    }
}
