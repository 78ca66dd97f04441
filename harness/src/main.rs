//! Replays scenarios (one JSON object per line) against the real ezk-image crate and records what
//! could be observed (one JSON object per line). It never judges anything: the recorded events are
//! judged by the TLA+ specifications in ../spec.
//!
//! usage: ezkh SCENARIOS EVENTS PROGRESS START
//! The environment variable EZKH_CPU restricts the CPU features the library sees, see cpu.rs
//!
//! PROGRESS always contains the index of the scenario which is currently running, so that the
//! process being killed by a signal can be attributed to that scenario by the caller.

mod cpu;
mod data;
mod mem;
mod ops;
mod types;

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Number of CPUs reported to the process, see `sched_getaffinity`. 0: the real number
pub static CPUS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Stand-in for the libc function, so that the number of threads used by the multi threaded
/// conversion can be chosen per scenario. Takes precedence over the one of libc.so.
///
/// # Safety
/// Same as sched_getaffinity(2)
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(
    pid: libc::pid_t,
    size: libc::size_t,
    set: *mut libc::cpu_set_t,
) -> libc::c_int {
    let n = CPUS.load(std::sync::atomic::Ordering::SeqCst);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
        if r < 0 {
            return -1;
        }
        let r = r as usize;
        std::ptr::write_bytes((set as *mut u8).add(r), 0, size - r);
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for i in 0..n.min(size * 8) {
        *(set as *mut u8).add(i / 8) |= 1 << (i % 8);
    }
    0
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let scen = BufReader::new(std::fs::File::open(&args[1]).expect("open scenarios"));
    let start: usize = args[4].parse().expect("start");
    let out = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(&args[2])
        .expect("open events");
    let mut out = BufWriter::new(out);
    let progress = std::fs::OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(&args[3])
        .expect("open progress");

    // Not the number of CPUs the first scenario happens to see
    #[cfg(feature = "multi-thread")]
    rayon::ThreadPoolBuilder::new().num_threads(4).build_global().expect("thread pool");

    cpu::restrict(&std::env::var("EZKH_CPU").unwrap_or_default());
    std::panic::set_hook(Box::new(|_| {}));

    for (i, line) in scen.lines().enumerate() {
        let line = line.expect("read scenario");
        if i < start || line.trim().is_empty() {
            continue;
        }
        progress
            .write_at(format!("{i:<12}").as_bytes(), 0)
            .expect("write progress");
        let sc: Value = serde_json::from_str(&line).expect("scenario is JSON");
        let mut ev = sc.clone();
        // A panic in the harness itself must not look like a panic of the code under test:
        // ops catch panics around every call into the library themselves.
        match catch_unwind(AssertUnwindSafe(|| ops::run(&sc))) {
            Ok(r) => {
                for (k, v) in r.as_object().unwrap() {
                    ev[k] = v.clone();
                }
            }
            Err(e) => {
                let msg = ops::panic_message(&*e);
                eprintln!("HARNESS-ERROR scenario {i}: {msg}");
                ev["harness_error"] = json!(msg);
            }
        }
        ev["n"] = json!(i);
        serde_json::to_writer(&mut out, &ev).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    progress.write_at(b"done        ", 0).unwrap();
}
