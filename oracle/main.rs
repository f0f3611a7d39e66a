// Driver of the oracle process.
pub struct Target { pub name: &'static str, pub gen: fn(&mut R, &mut B), pub run: fn(&[u8], bool) -> Out, pub toks: &'static [&'static [u8]] }

fn hash(b: &[u8], t: usize) -> u64 { let mut h = 0xcbf29ce484222325u64 ^ (t as u64).wrapping_mul(0x9E3779B97F4A7C15); for c in b { h = (h ^ *c as u64).wrapping_mul(0x100000001b3) } h }
fn hexs(b: &[u8]) -> String { b.iter().map(|c| format!("{:02x}", c)).collect() }
fn unhex(s: &str) -> B { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

const CURSZ: usize = 1 << 20;
fn set_cur(t: usize, x: &[u8]) { unsafe { if CUR.is_null() { return } let n = x.len().min(CURSZ - 16);
    *CUR.add(1) = t as u8; std::ptr::write_unaligned(CUR.add(4) as *mut u32, n as u32); std::ptr::copy_nonoverlapping(x.as_ptr(), CUR.add(8), n); } }

// mode: 0 everything, 1 panics only, 2 invalid UTF-8 only
fn eval(t: &Target, ti: usize, x: &[u8], mode: u8) -> Out {
    arena_reset();
    set_cur(ti, x);
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut o = (t.run)(x, mode == 0);
    if let Some((k, _, _)) = &o.bad { if (mode == 1 && *k != "panic") || (mode == 2 && *k != "invalid-utf8") { o.bad = None } }
    stage(0);
    o
}
fn minimise(t: &Target, ti: usize, x: &[u8], mode: u8) -> B {
    let mut best = x.to_vec(); let mut budget = 6000usize;
    let mut chunk = best.len() / 2;
    loop {
        if chunk == 0 { break }
        let mut i = 0; let mut changed = false;
        while i < best.len() && budget > 0 { budget -= 1;
            let mut c = best.clone(); c.drain(i..(i + chunk).min(best.len()));
            if eval(t, ti, &c, mode).bad.is_some() { best = c; changed = true } else { i += chunk } }
        if budget == 0 { break }
        if !(changed && chunk == 1) { chunk /= 2 }
    }
    for i in 0..best.len() { if budget == 0 { break } if best[i] != b'a' && (best[i].is_ascii_graphic() || best[i] >= 128) { budget -= 1; let mut c = best.clone(); c[i] = b'a'; if eval(t, ti, &c, mode).bad.is_some() { best = c } } }
    best
}
fn report(t: &Target, ti: usize, x: &[u8], mode: u8, phase: &str) {
    let m = minimise(t, ti, x, mode);
    let o = eval(t, ti, &m, mode);
    let (k, e, a) = o.bad.unwrap_or(("unstable", "".into(), "".into()));
    println!("{{\"finding\":{{\"target\":{},\"kind\":{},\"input_hex\":\"{}\",\"input\":{},\"expected\":{},\"actual\":{},\"phase\":{}}}}}", js(t.name), js(k), hexs(&m), js(&format!("{:?}", seq(&m))), js(&e), js(&a), js(phase));
}

fn work() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ts = targets();
    let mode: u8 = get("--mode").map(|x| x.parse().unwrap()).unwrap_or(0);
    if let Some(h) = get("--replay") {
        let n = get("--target").unwrap();
        let (ti, t) = ts.iter().enumerate().find(|(_, t)| t.name == n).expect("no such target");
        let x = unhex(&h);
        let o = eval(t, ti, &x, mode);
        match o.bad { Some((k, e, ac)) => println!("{{\"bad\":{},\"expected\":{},\"actual\":{}}}", js(k), js(&e), js(&ac)), None => println!("{{\"bad\":null}}") }
        return;
    }
    let names: Vec<String> = get("--targets").unwrap().split(',').map(|x| x.to_string()).collect();
    let mut sel: Vec<usize> = vec![];
    for n in &names { if let Some(i) = ts.iter().position(|t| t.name == n) { sel.push(i) } }
    if sel.is_empty() { println!("{{\"done\":{{\"evals\":0,\"distinct\":0}}}}"); return }
    let seed: u64 = get("--seed").unwrap().parse().unwrap();
    let secs: f64 = get("--secs").unwrap().parse().unwrap();
    let (shard, shards): (usize, usize) = (get("--shard").unwrap().parse().unwrap(), get("--shards").unwrap().parse().unwrap());
    let exlim: usize = get("--exhaustive").unwrap().parse().unwrap();
    let t0 = std::time::Instant::now();
    let mut evals = 0u64; let mut seen = std::collections::HashSet::new(); let mut samples: Vec<String> = vec![];
    let mut exh: Vec<String> = vec![];
    let mut note = |ti: usize, x: &[u8], acc: bool, seen: &mut std::collections::HashSet<u64>| { if acc && seen.len() < 4_000_000 { seen.insert(hash(x, ti)); } };
    let mut shown: Vec<cov::Seen> = ts.iter().map(|_| cov::Seen::new()).collect(); let mut corpus: Vec<Vec<B>> = ts.iter().map(|_| vec![]).collect();
    // exhaustive small inputs
    for &ti in &sel { let t = &ts[ti]; if t.toks.is_empty() { continue }
        let n = t.toks.len(); let mut k = 0u32; let mut total = 0usize; let mut cut = false;
        loop { let c = n.pow(k); if total + c > exlim { break }
            let mut i = shard; while i < c { let mut j = i; let mut x = vec![]; for _ in 0..k { x.extend_from_slice(t.toks[j % n]); j /= n }
                let o = eval(t, ti, &x, mode); evals += 1; note(ti, &x, o.accepted, &mut seen); if shown[ti].fresh() { corpus[ti].push(x.clone()) }
                if o.bad.is_some() { report(t, ti, &x, mode, "exhaustive"); return }
                i += shards; if evals % 256 == 0 && t0.elapsed().as_secs_f64() > secs { cut = true; break } }
            if cut { break }
            total += c; k += 1; if t0.elapsed().as_secs_f64() > secs * 0.45 { break } }
        if shard == 0 { exh.push(format!("{}: all sequences of up to {} of {} tokens", t.name, k.saturating_sub(1), n)) }
    }
    let mut r = R { s: seed.wrapping_mul(0x9E3779B97F4A7C15) ^ (shard as u64 + 1).wrapping_mul(0xD1B54A32D192ED03) | 1, lits: LITS, nums: NUMS, newlits: NEWLITS, newnums: NEWNUMS, clean: false, depth: 0 };
    for _ in 0..10 { r.u(); }
    let mut round = 0usize; let mut varied = 0u64;
    while t0.elapsed().as_secs_f64() < secs {
        for &ti in &sel { let t = &ts[ti];
            let mut x = vec![];
            r.clean = r.n(100) < 45; r.depth = 0;
            (t.gen)(&mut r, &mut x);
            let m = corpus[ti].len();
            if m > 0 && !r.clean && r.p(60) { let i = if r.p(50) { m - 1 - r.n((m / 4).max(1)) } else { r.n(m) }; let j = r.n(m); let piece = x; x = corpus[ti][i].clone(); g::vary(&mut r, &mut x, &corpus[ti][j], t.toks, &piece); varied += 1 }
            else if !r.clean && r.p(30) { g::mutate(&mut r, &mut x) }
            if x.len() > 60000 { x.truncate(60000) }
            let o = eval(t, ti, &x, mode); evals += 1; note(ti, &x, o.accepted, &mut seen);
            if shown[ti].fresh() && corpus[ti].len() < 4000 && x.len() <= 6000 { corpus[ti].push(x.clone()) }
            if samples.len() < 6 && o.accepted && x.len() > 3 && x.len() < 200 && r.p(10) { samples.push(format!("{} {:?}", t.name, seq(&x))) }
            if o.bad.is_some() { report(t, ti, &x, mode, "generated"); return }
        }
        round += 1;
    }
    println!("{{\"done\":{{\"evals\":{},\"distinct\":{},\"rounds\":{},\"corpus\":{},\"varied\":{},\"samples\":[{}],\"exhaustive\":[{}]}}}}", evals, seen.len(), round, corpus.iter().map(|c| c.len()).sum::<usize>(), varied, samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), exh.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
}
extern "C" { fn setrlimit(r: i32, l: *const [u64; 2]) -> i32; }
fn main() {
    std::panic::set_hook(Box::new(|i| { let m = format!("{}", i); if m.contains("unsafe precondition") { eprintln!("{}", m) } PANIC.with(|p| *p.borrow_mut() = m); }));
    let a: Vec<String> = std::env::args().collect();
    unsafe { setrlimit(9, &[14u64 << 30, 14u64 << 30]); setrlimit(4, &[0, 0]); }
    if let Some(i) = a.iter().position(|x| x == "--cur") { let mut p = a[i + 1].clone().into_bytes(); p.push(0);
        unsafe { p.pop(); let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(std::str::from_utf8(&p).unwrap()).unwrap(); f.set_len(CURSZ as u64).unwrap(); let fd = std::os::fd::IntoRawFd::into_raw_fd(f); CUR = mmap(std::ptr::null_mut(), CURSZ, 3, 1, fd, 0); if CUR as isize == -1 { CUR = std::ptr::null_mut() } } }
    let limit: u64 = a.iter().position(|x| x == "--hang").map(|i| a[i + 1].parse().unwrap()).unwrap_or(15);
    std::thread::spawn(move || { let mut last = 0; let mut same = 0; loop { std::thread::sleep(std::time::Duration::from_millis(500));
        let p = PROGRESS.load(std::sync::atomic::Ordering::Relaxed); if p == last && p > 0 { same += 1 } else { same = 0 } last = p;
        if same >= 2 * limit { let st = unsafe { if CUR.is_null() { 1 } else { *CUR } }; std::process::exit(if st == 1 { 3 } else { 4 }) } } });
    std::thread::Builder::new().stack_size(3 << 30).spawn(work).unwrap().join().unwrap();
}
