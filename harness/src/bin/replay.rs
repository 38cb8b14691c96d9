//! Native host of the harness: runs one entry point of the really compiled code on
//! concrete inputs read from stdin and prints every output.
//!   f <name> <hex bits>     a float input          u <name> <decimal>   an integer input
//!   t <comp> <n> <hex args (time first)> <hex value>   a row of the user function's table
//! Outside its table the user function is a fixed smooth polynomial, the same as in
//! vf/native.py.
use std::collections::HashMap;
use std::io::Read;
use std::io::Write;
use std::sync::Mutex;

struct Host {
    f: HashMap<String, f64>,
    u: HashMap<String, u64>,
    rows: Vec<(usize, Vec<f64>, f64)>,
    path: Vec<String>,
    out: String,
}
static HOST: Mutex<Option<Host>> = Mutex::new(None);

fn with<R>(g: impl FnOnce(&mut Host) -> R) -> R {
    let mut h = HOST.lock().unwrap_or_else(|e| e.into_inner());
    g(h.as_mut().unwrap())
}
unsafe fn name(h: &Host, p: *const u8, n: usize) -> String {
    let s = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap();
    let mut v: Vec<&str> = h.path.iter().map(|x| x.as_str()).collect();
    if n > 0 {
        v.push(s);
    }
    v.join(".")
}
fn die(m: String) -> ! {
    eprintln!("replay: {}", m);
    std::process::exit(3)
}
#[no_mangle]
pub unsafe extern "C" fn vf_f64(p: *const u8, n: usize) -> f64 {
    with(|h| {
        let k = name(h, p, n);
        *h.f.get(&k).unwrap_or_else(|| die(format!("no float input {}", k)))
    })
}
#[no_mangle]
pub unsafe extern "C" fn vf_u64(p: *const u8, n: usize) -> u64 {
    with(|h| {
        let k = name(h, p, n);
        *h.u.get(&k).unwrap_or_else(|| die(format!("no integer input {}", k)))
    })
}
#[no_mangle]
pub unsafe extern "C" fn vf_out_f(v: f64) {
    with(|h| {
        let k = h.path.join(".");
        h.out += &format!("{} f {:x}\n", k, v.to_bits());
    })
}
#[no_mangle]
pub unsafe extern "C" fn vf_out_u(v: u64) {
    with(|h| {
        let k = h.path.join(".");
        h.out += &format!("{} u {}\n", k, v);
    })
}
#[no_mangle]
pub unsafe extern "C" fn vf_push(p: *const u8, n: usize) {
    let s = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap().to_string();
    with(|h| h.path.push(s))
}
#[no_mangle]
pub unsafe extern "C" fn vf_push_i(i: usize) {
    with(|h| h.path.push(i.to_string()))
}
#[no_mangle]
pub unsafe extern "C" fn vf_pop() {
    with(|h| {
        h.path.pop();
    })
}
fn generic(c: usize, t: f64, ys: &[f64]) -> f64 {
    let c = c as f64;
    let mut s = 0.5 - 0.125 * c + 0.25 * t;
    for (i, y) in ys.iter().enumerate() {
        let k = i as f64;
        s = s + (0.375 - 0.25 * k + 0.0625 * c) * y;
        s = s - 0.03125 * (y * y) * (1.0 + 0.5 * k);
        s = s + 0.015625 * (y * t) * (c - 1.5);
    }
    s
}
#[no_mangle]
pub unsafe extern "C" fn vf_user(c: usize, t: f64, ys: *const f64, n: usize) -> f64 {
    let ys: &[f64] = if n == 0 { &[] } else { std::slice::from_raw_parts(ys, n) };
    with(|h| {
        let mut best: Option<(f64, f64)> = None;
        for (cc, args, v) in &h.rows {
            if *cc == c && args.len() == n + 1 {
                let mut d: f64 = 0.0;
                for (a, b) in args.iter().zip(std::iter::once(&t).chain(ys)) {
                    let e = (a - b).abs() / (1.0 + a.abs().max(b.abs()));
                    if !(e <= d) {
                        d = e;
                    }
                }
                if d < 1e-7 && best.map_or(true, |b| d < b.0) {
                    best = Some((d, *v));
                }
            }
        }
        match best {
            Some((_, v)) => v,
            None => generic(c, t, ys),
        }
    })
}
fn main() {
    let entry = std::env::args().nth(1).unwrap();
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut h = Host { f: HashMap::new(), u: HashMap::new(), rows: vec![], path: vec![], out: String::new() };
    let hx = |x: &str| f64::from_bits(u64::from_str_radix(x, 16).unwrap());
    for l in s.lines() {
        let w: Vec<&str> = l.split('\t').collect();
        match w[0] {
            "f" => {
                h.f.insert(w[1].into(), hx(w[2]));
            }
            "u" => {
                h.u.insert(w[1].into(), w[2].parse().unwrap());
            }
            "t" => {
                let n: usize = w[2].parse().unwrap();
                let a = (0..n).map(|i| hx(w[3 + i])).collect();
                h.rows.push((w[1].parse().unwrap(), a, hx(w[3 + n])));
            }
            _ => {}
        }
    }
    *HOST.lock().unwrap() = Some(h);
    vharness::entries::run(&entry);
    let out = with(|h| std::mem::take(&mut h.out));
    let mut o = std::io::stdout();
    o.write_all(out.as_bytes()).unwrap();
    o.write_all(b"END\n").unwrap();
}
