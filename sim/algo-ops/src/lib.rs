//! One text line = one call of the algorithm library, executed under the simulator.
use num::{BigInt, BigUint, Num};
use simrt::sched::{sut, Cut};
use std::fmt::Write;

/// decimal, or hexadecimal after an x
fn int(s: &str) -> BigInt {
    match s.strip_prefix("-x") {
        Some(h) => -BigInt::from_str_radix(h, 16).unwrap(),
        None => match s.strip_prefix('x') {
            Some(h) => BigInt::from_str_radix(h, 16).unwrap(),
            None => BigInt::from_str_radix(s, 10).unwrap(),
        },
    }
}
fn list(s: &str) -> Vec<BigInt> {
    if s == "-" {
        vec![]
    }
    else {
        s.split(',').map(int).collect()
    }
}

fn show<T>(out: &mut String, r: Result<T, Cut>, f: impl FnOnce(&mut String, T)) {
    match r {
        Ok(v) => f(out, v),
        Err(Cut::Panic) => out.push_str("rejected (unwound)"),
        Err(Cut::Oom) => out.push_str("cut (allocation failed)"),
    }
}
fn big(out: &mut String, v: BigInt) {
    let _ = write!(out, "{:x}", v);
}
fn ubig(out: &mut String, v: BigUint) {
    let _ = write!(out, "{:x}", v);
}
fn res(out: &mut String, v: sm_algorithm::Result<BigInt>) {
    match v {
        Ok(v) => big(out, v),
        Err(e) => {
            let _ = write!(out, "err {:?}", e);
        }
    }
}
fn opt(out: &mut String, v: Option<BigInt>) {
    match v {
        Some(v) => big(out, v),
        None => out.push_str("none"),
    }
}

/// the same call, many times over: its outcome if it never varies
fn repeat(lane: usize, text: &str, out: &mut String) {
    let mut w = text.splitn(3, ' ').skip(1);
    let n: u64 = w.next().unwrap().parse().unwrap();
    let call = w.next().unwrap();
    exec(lane, call, out);
    let mut o = String::new();
    for i in 1..n {
        o.clear();
        exec(lane, call, &mut o);
        if o != *out {
            *out = format!("repetition {} gave {}", i, o);
            return;
        }
    }
}

/// a digest of the outcomes of calls whose first argument counts up
fn sweep(lane: usize, text: &str, out: &mut String) {
    let w: Vec<&str> = text.split(' ').collect();
    let lo: i128 = w[2].parse().unwrap();
    let n: i128 = w[3].parse().unwrap();
    let mut h = 0xcbf29ce484222325u64;
    let mut o = String::new();
    let mut call = String::new();
    for i in lo..lo + n {
        o.clear();
        call.clear();
        let _ = write!(call, "{} {}", w[1], i);
        for x in &w[4..] {
            call.push(' ');
            call.push_str(x);
        }
        exec(lane, &call, &mut o);
        for b in o.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    let _ = write!(out, "digest {:x}", h);
}

pub fn exec(lane: usize, text: &str, out: &mut String) {
    use sm_algorithm as sm;
    if text.starts_with("sweep ") {
        return sweep(lane, text, out);
    }
    if text.starts_with("aside ") {
        return simrt::sched::aside(lane, text, exec, out);
    }
    if text.starts_with("rep ") {
        return repeat(lane, text, out);
    }
    let mut w = text.split(' ');
    let f = w.next().unwrap_or("");
    let a: Vec<&str> = w.collect();
    match f {
        "power_iu" => {
            let (x, y) = (int(a[0]), BigUint::from_str_radix(a[1], 10).unwrap());
            show(out, sut(|| sm::power_iu(&x, &y)), res)
        }
        "extended_gcd2" => {
            let (x, y) = (int(a[0]), int(a[1]));
            show(out, sut(|| sm::extended_gcd2(&x, &y)), |o, (g, v)| {
                big(o, g);
                for k in v {
                    o.push(' ');
                    big(o, k);
                }
            })
        }
        "extended_gcd_n" => {
            let v = list(a[0]);
            show(out, sut(|| sm::extended_gcd_n(&v)), |o, (g, _)| big(o, g))
        }
        "modulo_inverse" => {
            let (x, y) = (int(a[0]), int(a[1]));
            show(out, sut(|| sm::modulo_inverse(&x, &y)), opt)
        }
        "modulo_division" => {
            let (x, y, z) = (int(a[0]), int(a[1]), int(a[2]));
            show(out, sut(|| sm::modulo_division(&x, &y, &z)), opt)
        }
        "is_coprime" => {
            let (x, y) = (int(a[0]), int(a[1]));
            show(out, sut(move || sm::is_coprime(x, y)), |o, v| o.push_str(if v { "true" } else { "false" }))
        }
        "chinese_remainder" => {
            let (x, y) = (list(a[0]), list(a[1]));
            show(out, sut(|| sm::chinese_remainder(&x, &y)), opt)
        }
        "chinese_remainder_d" => {
            let (x, y, d) = (list(a[0]), list(a[1]), int(a[2]));
            show(out, sut(move || sm::chinese_remainder_d(&x, &y, d)), opt)
        }
        "fibonacci_i" => {
            let x = int(a[0]);
            show(out, sut(|| sm::fibonacci_i(&x)), res)
        }
        "fibonacci_fold_u" => {
            let n = a[0].parse().unwrap();
            show(out, sut(|| sm::fibonacci_fold_u(n)), ubig)
        }
        "fibonacci_fast_u" => {
            let n = a[0].parse().unwrap();
            show(out, sut(|| sm::fibonacci_fast_u(n)), ubig)
        }
        "factorial_fold_u" => {
            let n = a[0].parse().unwrap();
            show(out, sut(|| sm::factorial_fold_u(n)), ubig)
        }
        "factorial_i" => {
            let x = int(a[0]);
            show(out, sut(|| sm::factorial_i(&x)), res)
        }
        "factorial_mod" => show(out, sut(|| sm::factorial_mod()), |o, _| o.push_str("()")),
        "factorial_digits" => show(out, sut(|| sm::factorial_digits()), |o, _| o.push_str("()")),
        "factorial_tail_zero" => show(out, sut(|| sm::factorial_tail_zero()), |o, _| o.push_str("()")),
        "prime_sum_u64" => {
            let n = a[0].parse().unwrap();
            show(out, sut(|| sm::prime_sum_u64(n)), |o, v| {
                let _ = write!(o, "{}", v);
            })
        }
        "prime_sum_i" => {
            let x = int(a[0]);
            show(out, sut(|| sm::prime_sum_i(&x)), res)
        }
        "prime_count_i" => {
            let x = int(a[0]);
            show(out, sut(|| sm::prime_count_i(&x)), res)
        }
        _ => panic!("unknown call {}", text),
    }
}
