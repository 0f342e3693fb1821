//! One text line = one call of the parser, a session, the playground or the file converter, executed
//! under the simulator. Words are separated by spaces; text arguments are percent-encoded.
#![allow(static_mut_refs)]
use simrt::sched::{sut, Cut};
use sm_ast::parser::ParserSettings;
use sm_ast::{Runner, SMResult, ToTex, ToWolfram, AST};
use std::fmt::Write;
use std::marker::PhantomData;

pub fn dec(s: &str) -> String {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            if let Some(x) = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) {
                v.push(x);
            }
            i += 3;
        }
        else {
            v.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(v).unwrap()
}

fn show<T>(out: &mut String, r: Result<T, Cut>, f: impl FnOnce(&mut String, T)) {
    match r {
        Ok(v) => f(out, v),
        Err(Cut::Panic) => out.push_str("rejected (unwound)"),
        Err(Cut::Oom) => out.push_str("cut (allocation failed)"),
    }
}
fn text<E: std::fmt::Debug>(out: &mut String, r: Result<String, E>) {
    match r {
        Ok(s) => {
            let _ = write!(out, "{:?}", s);
        }
        Err(e) => {
            let _ = write!(out, "err {:?}", e);
        }
    }
}

/// Is a value of type T usable from several threads at once?
struct Probe<T>(PhantomData<T>);
trait No {
    fn sync(&self) -> bool {
        false
    }
}
trait Yes {
    fn sync(&self) -> bool {
        true
    }
}
impl<T> No for &Probe<T> {}
impl<T: Sync> Yes for Probe<T> {}
macro_rules! is_sync {
    ($t:ty) => {
        (&Probe::<$t>(PhantomData)).sync()
    };
}

const LANES: usize = 1200;
static mut SETTINGS: [Option<ParserSettings>; LANES] = [const { None }; LANES];
static mut SHARED: Vec<(String, AST)> = Vec::new();
static mut SESSIONS: [Option<Runner>; 64] = [const { None }; 64];

fn settings(lane: usize) -> &'static ParserSettings {
    let i = if is_sync!(ParserSettings) { 0 } else { lane };
    unsafe { SETTINGS[i].get_or_insert_with(ParserSettings::default) }
}

/// `kind@file` and `kind@file!` (unrefined): with settings of its own
fn parse(lane: usize, kind: &str, t: &str) -> SMResult<AST> {
    match kind.split_once('@') {
        None => settings(lane).parse(t),
        Some((_, file)) => {
            let mut p = ParserSettings::default();
            p.file = file.trim_end_matches('!').to_string();
            p.refine = !file.ends_with('!');
            p.parse(t)
        }
    }
}

fn draw(kind: &str, a: &AST) -> String {
    match kind.split('@').next().unwrap() {
        "debug" => format!("{:?}", a),
        "display" => format!("{}", a),
        "tex" => a.to_tex(),
        "wolfram" => a.to_wolfram_string(),
        "wxf" => format!("{:02x?}", a.to_wolfram_bytes()),
        // working on trees
        "head" => format!("{:?}", sm_ast::internal::head(a)),
        "length" => format!("{:?}", sm_ast::internal::length(a)),
        "first" => format!("{:?}", sm_ast::internal::first(a)),
        "last" => format!("{:?}", sm_ast::internal::last(a)),
        "factorial" => format!("{:?}", sm_ast::internal::factorial(a)),
        "fibonacci" => format!("{:?}", sm_ast::internal::fibonacci(a)),
        "random_integer" => format!("{:?}", sm_ast::internal::random_integer(a)),
        "copy" => {
            let b = a.clone();
            let c = b.rewrite();
            format!("{} {:?} {:?}", b == *a, b.cmp(&c), c)
        }
        "forward" => {
            let mut x = sm_ast::Context::default();
            format!("{:?} {:?}", a.forward(&mut x), x)
        }
        _ => String::new(),
    }
}

fn rendered(out: &mut String, r: Result<SMResult<String>, Cut>) {
    show(out, r, text)
}

/// the same call, many times over: its outcome if it never varies
fn repeat(lane: usize, line: &str, out: &mut String) {
    let mut w = line.splitn(3, ' ').skip(1);
    let n: u64 = w.next().unwrap().parse().unwrap();
    let call = w.next().unwrap();
    exec(lane, call, out);
    let mut o = String::new();
    for i in 1..n {
        o.clear();
        exec(lane, call, &mut o);
        if o != *out {
            *out = format!("repetition {} gave {}", i, o);
            return;
        }
    }
}

pub fn exec(lane: usize, line: &str, out: &mut String) {
    if line.starts_with("aside ") {
        return simrt::sched::aside(lane, line, exec, out);
    }
    if line.starts_with("rep ") {
        return repeat(lane, line, out);
    }
    let mut w = line.split(' ');
    let f = w.next().unwrap_or("");
    let a: Vec<&str> = w.collect();
    let ix = |k: usize| a[k].parse::<usize>().unwrap();
    match f {
        // parse and render
        "parse" => {
            let t = dec(a[1]);
            settings(lane);
            rendered(out, sut(|| parse(lane, a[0], &t).map(|x| draw(a[0], &x))))
        }
        // render a syntax tree that other threads may be rendering, too
        "draw" => {
            let t = dec(a[1]);
            if !is_sync!(AST) {
                return rendered(out, sut(|| ParserSettings::default().parse(&t).map(|x| draw(a[0], &x))));
            }
            let have = unsafe { SHARED.iter().find(|x| x.0 == t) };
            let tree: *const AST = match have {
                Some(x) => &x.1,
                None => match sut(|| ParserSettings::default().parse(&t)) {
                    Ok(Ok(x)) => unsafe {
                        if SHARED.capacity() == 0 {
                            SHARED.reserve(4096);
                        }
                        SHARED.push((t.clone(), x));
                        &SHARED.last().unwrap().1
                    },
                    r => return show(out, r, |o, r| text(o, r.map(|_| String::new()))),
                },
            };
            show(out, sut(|| draw(a[0], unsafe { &*tree })), |o, s| text(o, Ok::<_, ()>(s)))
        }
        // a session for one input
        "once" => {
            let t = dec(a[0]);
            rendered(out, sut(|| Runner::default().evaluate(&t)))
        }
        "onelast" => {
            let t = dec(a[1]);
            match sut(Runner::default) {
                Ok(mut r) => {
                    let _ = sut(|| r.evaluate(&t));
                    rendered(out, sut(|| r.last().map(|x| draw(a[0], &x))))
                }
                Err(e) => show(out, Err::<(), Cut>(e), |_, _| ()),
            }
        }
        "new" => show(out, sut(Runner::default), |o, r| {
            unsafe { SESSIONS[ix(0)] = Some(r) };
            o.push_str("ok");
        }),
        "drop" => {
            let r = unsafe { SESSIONS[ix(0)].take() };
            show(out, sut(move || drop(r)), |o, _| o.push_str("ok"))
        }
        "clone" => match unsafe { &SESSIONS[ix(0)] } {
            None => out.push_str("no session"),
            Some(r) => show(out, sut(|| r.clone()), |o, c| {
                unsafe { SESSIONS[ix(1)] = Some(c) };
                o.push_str("ok");
            }),
        },
        "eval" => {
            let t = dec(a[1]);
            match unsafe { &mut SESSIONS[ix(0)] } {
                None => out.push_str("no session"),
                Some(r) => rendered(out, sut(|| r.evaluate(&t))),
            }
        }
        "last" => match unsafe { &SESSIONS[ix(0)] } {
            None => out.push_str("no session"),
            Some(r) => rendered(out, sut(|| r.last().map(|x| draw(a[1], &x)))),
        },
        // the shared session
        "result" => {
            let t = dec(a[0]);
            show(out, sut(|| sm_playground::result(&t)), |o, s| text(o, Ok::<_, ()>(s)))
        }
        "tex" => show(out, sut(sm_playground::result_tex), |o, s| text(o, Ok::<_, ()>(s))),
        "tex-after" => {
            let t = dec(a[0]);
            let _ = sut(|| sm_playground::result(&t));
            show(out, sut(sm_playground::result_tex), |o, s| text(o, Ok::<_, ()>(s)))
        }
        // files
        "convert" => {
            let p = settings(lane);
            show(out, sut(|| p.parse_file(a[0], a[1])), |o, r| match r {
                Ok(()) => o.push_str("ok"),
                Err(e) => {
                    let _ = write!(o, "err {:?}", e);
                }
            })
        }
        // other programs
        "put" => {
            simrt::fs::copy(a[0], a[1], a.len() > 2);
            out.push_str("ok");
        }
        "remove" => {
            simrt::fs::remove(a[0]);
            out.push_str("ok");
        }
        _ => panic!("unknown call {}", line),
    }
}
