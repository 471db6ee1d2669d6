//! Runs eigs on the calls it reads, one JSON object per line, and writes each
//! back with its outcome.  {"par": [calls]} runs its calls at the same time,
//! each in a thread of its own.
#[path = "../../harness/src/json.rs"]
#[allow(dead_code)]
mod json;

use json::{list, parse, J};
use sparsetools::csc::CSC;
use sparsetools::eigen::real::eigs;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};

/// Fixed point: eigenvalues in multiples of 1/4096, vectors of 1/32768, and a
/// code for what is out of range.
const UNIT: f64 = 4096.0;
const FINE: f64 = 32768.0;

fn fix(x: f64, unit: f64) -> i64 {
    let y = (x * unit).round();
    if y.abs() < 1e9 {
        y as i64
    } else {
        1_000_000_009
    }
}

fn scale(e: i64) -> f64 {
    2f64.powi(e as i32)
}

fn ints(a: &J) -> Vec<usize> {
    a.arr().iter().map(|v| v.num() as usize).collect()
}

fn run(c: &J) -> String {
    let u = scale(c.at("e").num());
    let x: Vec<f64> = c.at("x").arr().iter().map(|v| v.num() as f64 * u).collect();
    let a = CSC::new(c.at("r").num() as usize, c.at("c").num() as usize, ints(c.at("j")), ints(c.at("p")), x).unwrap();
    let nev = c.at("nev").num() as usize;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let (d, z) = match eigs(&a, nev) {
            Ok(r) => r,
            Err(_) => return "\"out\":\"err\"".to_string(),
        };
        let rows = d.len().min(z.rows());
        let z: Vec<Vec<(i64, i64)>> = (0..rows)
            .map(|k| (0..z.cols()).map(|j| (fix(z[(k, j)].re, FINE), fix(z[(k, j)].im, FINE))).collect())
            .collect();
        let pair = |v: &(i64, i64)| format!("[{},{}]", v.0, v.1);
        format!(
            "\"out\":\"ok\",\"d\":{},\"z\":{}",
            list(&d, |v| pair(&(fix(v.re / u, UNIT), fix(v.im / u, UNIT)))),
            list(&z, |r| list(r, pair))
        )
    }));
    let out = res.unwrap_or("\"out\":\"panic\"".to_string());
    format!(
        "{},\"post\":{{\"p\":{},\"j\":{},\"x\":{}}}",
        out,
        list(a.colptr(), |v| v.to_string()),
        list(a.rowidx(), |v| v.to_string()),
        list(a.values(), |v| ((v / u) as i64).to_string())
    )
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let out = Arc::new(Mutex::new(()));
    let say = move |k: usize, s: String| {
        let _g = out.lock().unwrap();
        let o = std::io::stdout();
        let mut o = o.lock();
        writeln!(o, "{{\"k\":{},{}}}", k, s).unwrap();
        o.flush().unwrap();
    };
    for (k, line) in std::io::stdin().lock().lines().enumerate() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let c = parse(&line);
        match c.get("par") {
            None => say(k, format!("\"t\":0,{}", run(&c))),
            Some(p) => {
                let n = p.arr().len();
                let bar = Barrier::new(n);
                std::thread::scope(|s| {
                    for (t, c) in p.arr().iter().enumerate() {
                        let (bar, say) = (&bar, &say);
                        s.spawn(move || {
                            bar.wait();
                            say(k, format!("\"t\":{},{}", t, run(c)));
                        });
                    }
                });
            }
        }
    }
}
