//! C21: killed runs are restarted from their checkpoints in sub-processes.
use super::egor::*;
use crate::ego::*;
use crate::ensure;
use crate::fw::*;
use ndarray::{s, Array2};
use rand_xoshiro::rand_core::SeedableRng;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::result::Result;
use std::sync::Arc;

/// Problem `idx` of family `fam`, the same in parent and children.
fn spec_for(seed: u64, fam: u64, idx: u64) -> Spec {
    let mut c = Case {
        idx,
        rng: R64::seed_from_u64(hash64(&[0xC21, seed, fam, idx])),
        desc: String::new(),
        key: 0,
        counts: Default::default(),
        known: vec![],
        sub: vec![],
    };
    let c = &mut c;
    let mut o = opts_any(c);
    o.plain_gp = c.b(0.85);
    o.maxdim = 3;
    let mut s = rand_spec(c, o);
    s.max_iters = c.i(3, 5);
    s
}

fn hex(x: &Array2<f64>) -> String {
    let mut o = format!("{} {}", x.nrows(), x.ncols());
    for v in x {
        o.push_str(&format!(" {:016x}", v.to_bits()));
    }
    o
}
fn unhex(l: &str) -> Option<Array2<f64>> {
    let mut t = l.split_whitespace();
    let (r, c): (usize, usize) = (t.next()?.parse().ok()?, t.next()?.parse().ok()?);
    let v: Option<Vec<f64>> = t.map(|h| u64::from_str_radix(h, 16).ok().map(f64::from_bits)).collect();
    Array2::from_shape_vec((r, c), v?).ok()
}

/// vp resume-run SEED FAM IDX DIR HOT KILL_AT DELAY_US
pub fn child_main(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<i64>().unwrap();
    let (seed, fam, idx) = (n(0) as u64, n(1) as u64, n(2) as u64);
    let dir = PathBuf::from(&a[3]);
    let (hot, kill, delay) = (n(4), n(5), n(6));
    install_panic_hook();
    let mut s = spec_for(seed, fam, idx);
    s.outdir = Some(dir.join("out").to_string_lossy().to_string());
    s.hot = Some(hot as u64);
    let rec = Arc::new(Rec::default());
    rec.delay.store(delay as u64, std::sync::atomic::Ordering::Relaxed);
    let log = dir.join("log");
    *rec.on_batch.lock().unwrap() = Some(Box::new(move |b, x| {
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&log) {
            let _ = writeln!(f, "{}", hex(x));
        }
        if b as i64 == kill {
            std::process::abort();
        }
    }));
    match run_rec(&s, &rec) {
        Ok(o) => {
            let reason = format!("{:?}", o.state.termination_status);
            let t = [
                hex(&Array2::from_shape_vec((1, o.x_opt.len()), o.x_opt.clone()).unwrap()),
                hex(&Array2::from_shape_vec((1, o.y_opt.len()), o.y_opt.clone()).unwrap()),
                hex(&o.x_doe),
                hex(&o.y_doe),
                format!("{} {} {}", o.state.iter, o.state.max_iters, reason),
            ]
            .join("\n");
            std::fs::write(dir.join("result"), t).unwrap();
            0
        }
        Err(e) => {
            eprintln!("run failed: {e}");
            7
        }
    }
}

struct Child {
    seed: u64,
    fam: u64,
    idx: u64,
    dir: PathBuf,
}
struct Done {
    code: Option<i32>,
    err: String,
    asked: Vec<Array2<f64>>,
    result: Option<(Array2<f64>, Array2<f64>, Array2<f64>, Array2<f64>, u64, u64)>,
}
impl Child {
    fn command(&self, hot: u64, kill: i64, delay: u64, limit: Option<(u64, bool)>) -> Command {
        let exe = std::env::current_exe().unwrap();
        let mut c = Command::new("bash");
        // a file-size limit ends a write in the middle, by a signal or by an error
        let script = match limit {
            None => "ulimit -c 0; exec \"$0\" \"$@\"".to_string(),
            Some((l, true)) => format!("ulimit -c 0; exec prlimit --fsize={l} \"$0\" \"$@\""),
            Some((l, false)) => format!("ulimit -c 0; trap '' XFSZ; exec prlimit --fsize={l} \"$0\" \"$@\""),
        };
        c.arg("-c").arg(script).arg(exe).arg("resume-run");
        for a in [self.seed, self.fam, self.idx] {
            c.arg(a.to_string());
        }
        c.arg(&self.dir).arg(hot.to_string()).arg(kill.to_string()).arg(delay.to_string());
        c.env("EGOBOX_LOG", "off").env("RAYON_NUM_THREADS", "2");
        c.env_remove("RUST_BACKTRACE");
        c.current_dir(&self.dir);
        c.stdin(Stdio::null()).stdout(Stdio::null());
        let f = std::fs::File::create(self.dir.join("stderr")).unwrap();
        c.stderr(f);
        c
    }
    fn before(&self) {
        let _ = std::fs::remove_file(self.dir.join("log"));
        let _ = std::fs::remove_file(self.dir.join("result"));
    }
    fn after(&self, code: Option<i32>) -> Done {
        let asked = std::fs::read_to_string(self.dir.join("log"))
            .unwrap_or_default()
            .lines()
            .filter_map(unhex)
            .collect();
        let result = std::fs::read_to_string(self.dir.join("result")).ok().and_then(|t| {
            let l: Vec<&str> = t.lines().collect();
            let mut w = l.get(4)?.split_whitespace();
            Some((
                unhex(l[0])?,
                unhex(l[1])?,
                unhex(l[2])?,
                unhex(l[3])?,
                w.next()?.parse().ok()?,
                w.next()?.parse().ok()?,
            ))
        });
        Done {
            code,
            err: std::fs::read_to_string(self.dir.join("stderr"))
                .unwrap_or_default()
                .chars()
                .take(600)
                .collect(),
            asked,
            result,
        }
    }
    fn run(&self, hot: u64, kill: i64, limit: Option<(u64, bool)>) -> Done {
        self.before();
        let st = self.command(hot, kill, 0, limit).status().unwrap();
        self.after(st.code())
    }
    fn run_kill9(&self, delay: u64, after_us: u64) -> Done {
        self.before();
        let mut ch = self.command(0, -1, delay, None).spawn().unwrap();
        std::thread::sleep(std::time::Duration::from_micros(after_us));
        let _ = ch.kill();
        let st = ch.wait().unwrap();
        self.after(st.code())
    }
    fn checkpoint(&self) -> PathBuf {
        self.dir.join("out").join(egobox_ego::CHECKPOINT_FILE)
    }
}

/// Iteration and number of points of a checkpoint, and whether reading it back may
/// change a float (serde_json reads floats up to an ULP).
#[derive(Clone, Copy, Debug, Default)]
struct Ck {
    iter: u64,
    n: usize,
    lossy: bool,
    /// points written before anything was read inexactly
    trusted: Option<usize>,
}

/// A decimal number serde_json reads as exactly `x`.
fn faithful(x: f64) -> Option<String> {
    let ok = |t: &str| matches!(serde_json::from_str::<f64>(t), Ok(v) if v.to_bits() == x.to_bits());
    for k in 14..25 {
        let t = format!("{x:.k$e}");
        if ok(&t) {
            return Some(t);
        }
    }
    for k in 16..19 {
        let t = format!("{:.k$e}", x.abs());
        let (m, e) = t.split_once('e')?;
        let m: i128 = m.replace('.', "").parse().ok()?;
        let e: i64 = e.parse::<i64>().ok()? - k as i64;
        for d in 1..4000i128 {
            for q in [m + d, m - d] {
                let t = format!("{}{q}e{e}", if x < 0. { "-" } else { "" });
                if ok(&t) {
                    return Some(t);
                }
            }
        }
    }
    None
}

/// What a checkpoint holds, and its text with every number written such that serde_json
/// reads it exactly (none when a number has no such form).
fn inspect(p: &Path) -> Option<(Ck, Option<String>)> {
    let t = std::fs::read_to_string(p).ok()?;
    let v: serde_json::Value = serde_json::from_str(&t).ok()?;
    let st = v.get(1)?;
    let iter = st.get("iter")?.as_u64()?;
    let n = st.get("data")?.get(0)?.get("dim")?.get(0)?.as_u64()? as usize;
    let b = t.as_bytes();
    let (mut i, mut lossy, mut from) = (0, false, 0);
    let mut exact = Some(String::new());
    while i < b.len() {
        match b[i] {
            b'"' => {
                i += 1;
                while i < b.len() && b[i] != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
                i += 1;
            }
            b'-' | b'0'..=b'9' => {
                let k = i;
                while i < b.len() && matches!(b[i], b'-' | b'+' | b'.' | b'e' | b'E' | b'0'..=b'9') {
                    i += 1;
                }
                let tok = &t[k..i];
                if tok.contains(['.', 'e', 'E']) {
                    let a: f64 = tok.parse().unwrap_or(f64::NAN);
                    let c: f64 = serde_json::from_str(tok).unwrap_or(f64::NAN);
                    if a.to_bits() != c.to_bits() {
                        lossy = true;
                        exact = match (exact, faithful(a)) {
                            (Some(e), Some(f)) => Some(e + &t[from..k] + &f),
                            _ => None,
                        };
                        from = i;
                    }
                }
            }
            _ => i += 1,
        }
    }
    Some((Ck { iter, n, lossy, trusted: None }, exact.map(|e| e + &t[from..])))
}

/// Rewrites the checkpoint such that nothing is lost in reading it.
fn repair(c: &mut Case, p: &Path) -> Option<Ck> {
    let (mut ck, t) = inspect(p)?;
    if ck.lossy {
        // written here before
        if std::fs::read(p).ok()? == std::fs::read(p.with_extension("exact")).unwrap_or_default() {
            ck.lossy = false;
        } else if let Some(t) = t {
            std::fs::write(p, &t).ok()?;
            std::fs::write(p.with_extension("exact"), &t).ok()?;
            ck.lossy = false;
            c.count("checkpoints rewritten exactly", 1);
        } else {
            c.count("checkpoints without exact form", 1);
        }
    }
    Some(ck)
}

/// The checkpoint `k` written by a run restarted from `old`.
fn after_restart(k: Option<Ck>, old: Option<Ck>) -> Option<Ck> {
    let mut k = k?;
    if let Some(o) = old {
        k.trusted = o.trusted.or(if o.lossy { Some(o.n) } else { None });
    }
    Some(k)
}

fn ulps(a: f64, b: f64) -> u64 {
    if a == b {
        return 0;
    }
    if a.is_nan() || b.is_nan() || (a < 0.) != (b < 0.) {
        return u64::MAX;
    }
    a.to_bits().abs_diff(b.to_bits())
}

/// The resumed run against the uninterrupted one.
fn judge(c: &mut Case, what: &str, full: &Out, ck: Option<Ck>, d: &Done, max_iters: u64) -> Res {
    ensure!(
        d.code == Some(0) && d.result.is_some(),
        "restart-failed",
        "{what}: restart exits with {:?}: {}",
        d.code,
        d.err
    );
    let (xo, yo, xd, yd, iter, mi) = d.result.clone().unwrap();
    ensure!(mi == max_iters, "restart-budget", "{what}: {mi} iterations allowed instead of {max_iters}");
    let (fx, fy) = (full.all_x(), full.all_y());
    let Ck { iter: ci, n, lossy, trusted } = ck.unwrap_or_default();
    let lossy = lossy || trusted.is_some();
    // history before the checkpoint
    let tol = if lossy { 8 } else { 0 };
    ensure!(xd.nrows() >= n, "restart-history", "{what}: {} points after restart from {n}", xd.nrows());
    for i in 0..trusted.unwrap_or(n).min(n) {
        let same_x = fx.row(i).iter().zip(xd.row(i)).all(|(a, b)| ulps(*a, *b) <= tol);
        let same_y = fy.row(i).iter().zip(yd.row(i)).all(|(a, b)| ulps(*a, *b) <= tol);
        if !(same_x && same_y) {
            let msg = format!(
                "{what}: point {i} of the history {} {} became {} {} ({ck:?})",
                fx.row(i),
                fy.row(i),
                xd.row(i),
                yd.row(i)
            );
            // with two categories as high but for the rounding, the other one may be read
            if lossy && same_y {
                c.soft(fail("resume-json-rounding", msg));
                return Ok(());
            }
            return fail("restart-history", msg);
        }
    }
    // nothing before the checkpoint is evaluated again, everything evaluated is kept
    let mut asked: Vec<Vec<f64>> = vec![];
    for a in &d.asked {
        asked.extend(a.rows().into_iter().map(|r| r.to_vec()));
    }
    let kept: Vec<Vec<f64>> = xd.rows().into_iter().skip(n).map(|r| r.to_vec()).collect();
    ensure!(
        asked.len() == kept.len() && asked.iter().zip(&kept).all(|(a, b)| a.iter().zip(b).all(|(a, b)| ulps(*a, *b) <= tol)),
        "restart-accounting",
        "{what}: {} points evaluated after restart, {} added to the history",
        asked.len(),
        kept.len()
    );
    c.count("points compared after restart", kept.len() as u64);
    ensure!(iter >= ci && iter <= mi, "restart-iterations", "{what}: {iter} iterations after restart at {ci} of {mi}");
    // continuation
    let same_hist = xd.dim() == fx.dim()
        && kept.iter().enumerate().all(|(k, r)| bits(r) == bits(&fx.row(n + k).to_vec()));
    let same_res = iter == full.state.iter
        && xo.iter().zip(&full.x_opt).all(|(a, b)| ulps(*a, *b) <= tol)
        && yo.iter().zip(&full.y_opt).all(|(a, b)| ulps(*a, *b) <= tol);
    if !(same_hist && same_res) {
        let msg = format!(
            "{what}: restarted from iteration {ci} ({n} points), then evaluated {kept:?} instead of {}; result {xo} {yo} after {iter} iterations instead of {:?} {:?} after {}",
            fx.slice(s![n.min(fx.nrows()).., ..]),
            full.x_opt,
            full.y_opt,
            full.state.iter
        );
        if lossy {
            c.soft(fail("resume-json-rounding", msg));
        } else {
            return fail("restart-diverged", msg);
        }
    } else {
        c.count("identical continuations", 1);
    }
    Ok(())
}

fn reference(c: &mut Case, s: &Spec) -> Result<Option<Out>, Fail> {
    let r = run(s);
    ran(c, s, r)
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("Runs killed in sub-processes at every evaluated batch, by file-size limits while writing, and by SIGKILL at random instants; restarts compared with the uninterrupted run.");
    let seed = ctx.seed;
    let tmp = Scratch::new("c21");
    let root = tmp.0.clone();
    let mk = |fam: u64, idx: u64, tag: &str| {
        let dir = root.join(format!("{fam}-{idx}-{tag}"));
        let _ = std::fs::create_dir_all(&dir);
        Child { seed, fam, idx, dir }
    };
    // every batch of each problem
    let kill = |c: &mut Case| -> Res {
        let s = spec_for(seed, 1, c.idx);
        c.describe(s.short());
        let Some(full) = reference(c, &s)? else {
            return Ok(());
        };
        for b in 0..full.batches.len() {
            let ch = mk(1, c.idx, &b.to_string());
            let d = ch.run(0, b as i64, None);
            ensure!(d.code != Some(0) && d.code != Some(7), "harness", "child was not killed: {:?} {}", d.code, d.err);
            let what = format!("killed in batch {b} of {}", full.batches.len());
            // what was evaluated before
            ensure!(d.asked.len() == b + 1, "kill-trace", "{what}: {} batches", d.asked.len());
            for (i, a) in d.asked.iter().enumerate() {
                ensure!(
                    same(a, &full.batches[i].0),
                    "kill-trace",
                    "{what}: batch {i} is {a} instead of {}",
                    full.batches[i].0
                );
            }
            let done: usize = full.batches.iter().take(b).map(|x| x.0.nrows()).sum();
            let as_is = c.b(0.2);
            let mut ck = if as_is { inspect(&ch.checkpoint()).map(|k| k.0) } else { repair(c, &ch.checkpoint()) };
            if b >= 2 {
                ensure!(
                    matches!(ck, Some(k) if k.n >= done),
                    "lost-iterations",
                    "{what}: checkpoint {ck:?} although {done} points belong to completed iterations"
                );
            }
            // another crash during the restart
            if !as_is && c.b(0.3) {
                let k = c.i(0, 2) as i64;
                let d2 = ch.run(0, k, None);
                if d2.code == Some(0) {
                    judge(c, &format!("{what} (restart finished)"), &full, ck, &d2, s.max_iters as u64)?;
                }
                let ck2 = repair(c, &ch.checkpoint());
                ensure!(
                    ck2.map(|k| k.iter) >= ck.map(|k| k.iter),
                    "lost-iterations",
                    "{what} and again: checkpoint {ck2:?} after {ck:?}"
                );
                ck = after_restart(ck2, ck);
                c.count("double crashes", 1);
            }
            let d = ch.run(0, -1, None);
            judge(c, &what, &full, ck, &d, s.max_iters as u64)?;
            c.count("kill points", 1);
            c.sub.push(hash64(&[c.idx, b as u64]));
            let _ = std::fs::remove_dir_all(&ch.dir);
        }
        Ok(())
    };
    ctx.cases("kill", ctx.n(24, 500), ctx.n(25, 1500) as f64, 4, kill);

    // writes ended in the middle
    let torn = |c: &mut Case| -> Res {
        let s = spec_for(seed, 2, c.idx);
        c.describe(s.short());
        let Some(full) = reference(c, &s)? else {
            return Ok(());
        };
        // size of the last checkpoint
        let ch = mk(2, c.idx, "size");
        let d = ch.run(0, -1, None);
        judge(c, "uninterrupted", &full, None, &d, s.max_iters as u64)?;
        let size = std::fs::metadata(ch.checkpoint()).map(|m| m.len()).unwrap_or(0);
        ensure!(size > 0, "no-checkpoint", "no checkpoint after the run");
        let _ = std::fs::remove_dir_all(&ch.dir);
        for k in 0..ctx.n(4, 12) {
            let ch = mk(2, c.idx, &format!("t{k}"));
            // the last writes are larger than the first ones
            let lim = if k % 2 == 0 {
                size - 24 - c.i(0, (size / 200) as usize) as u64
            } else {
                c.i(1, size as usize - 24) as u64
            };
            let signal = c.b(0.6);
            let d = ch.run(0, -1, Some((lim, signal)));
            if d.code == Some(0) {
                // the time spent is part of the file, whose size varies a little
                ensure!(lim + 64 > size, "harness", "the run was not stopped by a limit of {lim} < {size}");
                continue;
            }
            if signal {
                c.count("writes cut by a signal", 1);
            } else {
                c.count("writes cut by an error", 1);
            }
            let ck = repair(c, &ch.checkpoint());
            if ck.is_some() {
                c.count("intact checkpoints after a cut write", 1);
            }
            // iterations whose successor evaluated something are complete
            if d.asked.len() > 2 {
                let done: usize = d.asked.iter().take(d.asked.len() - 1).map(|x| x.nrows()).sum();
                ensure!(
                    matches!(ck, Some(k) if k.n >= done),
                    "lost-iterations",
                    "write cut at {lim}: checkpoint {ck:?} although {done} points belong to completed iterations"
                );
            }
            let d = ch.run(0, -1, None);
            judge(
                c,
                &format!("write cut at byte {lim} of {size} by {}", if signal { "a signal" } else { "an error" }),
                &full,
                ck,
                &d,
                s.max_iters as u64,
            )?;
            c.sub.push(hash64(&[c.idx, lim, signal as u64]));
            let _ = std::fs::remove_dir_all(&ch.dir);
        }
        Ok(())
    };
    ctx.cases("torn", ctx.n(16, 300), ctx.n(15, 900) as f64, 4, torn);

    // SIGKILL at any time
    let rnd = |c: &mut Case| -> Res {
        let s = spec_for(seed, 3, c.idx);
        c.describe(s.short());
        let Some(full) = reference(c, &s)? else {
            return Ok(());
        };
        let ch = mk(3, c.idx, "k");
        let t0 = std::time::Instant::now();
        let d = ch.run(0, -1, None);
        let t = t0.elapsed().as_micros() as f64;
        judge(c, "uninterrupted", &full, None, &d, s.max_iters as u64)?;
        for k in 0..ctx.n(3, 10) {
            let _ = std::fs::remove_dir_all(&ch.dir);
            std::fs::create_dir_all(&ch.dir).unwrap();
            let mut ck: Option<Ck> = None;
            for _ in 0..c.i(1, 3) {
                let d = ch.run_kill9(0, c.u(0.02 * t, 1.05 * t) as u64);
                if d.code.is_none() {
                    c.count("SIGKILL", 1);
                }
                let k = repair(c, &ch.checkpoint());
                ensure!(
                    k.map(|k| k.iter) >= ck.map(|k| k.iter),
                    "lost-iterations",
                    "checkpoint {k:?} after {ck:?}"
                );
                ck = after_restart(k, ck);
            }
            let at = ck.map(|k| k.iter).unwrap_or(0);
            let d = ch.run(0, -1, None);
            judge(c, "SIGKILL", &full, ck, &d, s.max_iters as u64)?;
            c.sub.push(hash64(&[c.idx, k as u64, at]));
        }
        let _ = std::fs::remove_dir_all(&ch.dir);
        Ok(())
    };
    ctx.cases("sigkill", ctx.n(16, 300), ctx.n(12, 900) as f64, 4, rnd);

    // more iterations after the end
    let ext = |c: &mut Case| -> Res {
        let s = spec_for(seed, 4, c.idx);
        let n = c.i(1, 4);
        c.describe(format!("+{n} {}", s.short()));
        let mut s2 = s.clone();
        s2.max_iters += n;
        let Some(full) = reference(c, &s2)? else {
            return Ok(());
        };
        let ch = mk(4, c.idx, "x");
        let d = ch.run(0, -1, None);
        ensure!(d.code == Some(0), "run-failed", "{:?} {}", d.code, d.err);
        let ck = repair(c, &ch.checkpoint());
        // restarting a finished run does nothing
        let d = ch.run(0, -1, None);
        ensure!(
            d.code == Some(0) && d.asked.is_empty(),
            "restart-finished",
            "restart of a finished run evaluates {:?} ({:?} {})",
            d.asked,
            d.code,
            d.err
        );
        let d = ch.run(n as u64, -1, None);
        judge(c, &format!("extended by {n} iterations"), &full, ck, &d, (s.max_iters + n) as u64)?;
        c.count("extensions", 1);
        let _ = std::fs::remove_dir_all(&ch.dir);
        Ok(())
    };
    ctx.cases("extend", ctx.n(24, 500), ctx.n(8, 600) as f64, 4, ext);
}
