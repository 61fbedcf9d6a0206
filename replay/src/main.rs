mod affine;
mod chains;
mod algs;
mod fw;
mod geo;
mod lines;
mod num_;
mod points;
mod polys;
mod scalars;
mod segs;
use fw::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let pid = a[1].clone();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let secs: u64 = get("--secs").and_then(|s| s.parse().ok()).unwrap_or(20);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let out = get("--out");
    let trace = get("--trace");
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", m, i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default());
    }));
    let t0 = std::time::Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let s = CASE_START.load(std::sync::atomic::Ordering::SeqCst);
        if s != u64::MAX && (t0.elapsed().as_millis() as u64) > s + 10_000 { std::process::exit(3); }
    });
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut c = Ctx::new(seed, thorough, secs, trace);
        match pid.as_str() {
            "C01" => scalars::c01(&mut c),
            "C02" => scalars::c02(&mut c),
            "C03" => scalars::c03(&mut c),
            "C04" => scalars::c04(&mut c),
            "C05" => scalars::c05(&mut c),
            "C06" => points::c06(&mut c),
            "C07" => segs::c07(&mut c),
            "C08" => lines::c08(&mut c),
            "C09" => lines::c09(&mut c),
            "C10" => polys::c10(&mut c),
            "C11" => polys::c11(&mut c),
            "C12" => polys::c12(&mut c),
            "C13" => polys::c13(&mut c),
            "C14" => polys::c14(&mut c),
            "C15" => algs::c15(&mut c),
            "C16" => algs::c16(&mut c),
            "C17" => algs::c17(&mut c),
            "C18" => chains::c18(&mut c),
            "C19" => algs::c19(&mut c),
            "C20" => affine::c20(&mut c),
            "C22" => algs::c22(&mut c),
            p => { eprintln!("unknown property {p}"); std::process::exit(2) }
        }
        c
    }).unwrap();
    let c = match h.join() { Ok(c) => c, Err(_) => { eprintln!("harness panic: {}", PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner())); std::process::exit(2) } };
    let fails: Vec<String> = c.fails.iter().map(|f| format!("{{\"key\":\"{}\",\"input\":\"{}\",\"msg\":\"{}\"}}", esc(&f.key), esc(&f.input), esc(&f.msg))).collect();
    let samples: Vec<String> = c.samples.iter().rev().take(8).map(|s| format!("\"{}\"", esc(s))).collect();
    let js = format!("{{\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":\"{}\",\"samples\":[{}],\"failures\":[{}]}}", c.evals, c.distinct, esc(&c.rules.join(" ")), samples.join(","), fails.join(","));
    match out { Some(p) => std::fs::write(p, js).unwrap(), None => println!("{js}") }
    std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
}
