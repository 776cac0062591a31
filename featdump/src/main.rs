//! Runs histories given as choices against the library built with some set of
//! features, and answers with everything that happened.

#![allow(dead_code)]

#[path = "../../harness/src/behave.rs"]
mod behave;
#[path = "../../harness/src/bytes.rs"]
mod bytes;
#[path = "../../harness/src/edit.rs"]
mod edit;
#[path = "../../harness/src/engine.rs"]
mod engine;
#[path = "../../harness/src/gen.rs"]
mod gen;
#[path = "../../harness/src/reference.rs"]
mod reference;

use std::io::{Read, Write};
use std::sync::atomic::{AtomicU64, Ordering};

static TICK: AtomicU64 = AtomicU64::new(0);

fn cpu_time() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut u);
        let t = |x: libc::timeval| x.tv_sec as f64 + x.tv_usec as f64 / 1e6;
        t(u.ru_utime) + t(u.ru_stime)
    }
}

fn main() {
    engine::install_panic_hook();
    unsafe {
        let r = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
    }
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        let mut base = 0.0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            let (t, now) = (TICK.load(Ordering::Relaxed), cpu_time());
            if t != last {
                last = t;
                base = now;
            } else if now - base > 15.0 {
                unsafe { libc::_exit(77) }
            }
        }
    });
    let run = || {
        use std::os::fd::FromRawFd;
        // unbuffered
        let mut o = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(1) });
        let mut i = std::io::stdin().lock();
        let mut n = [0; 4];
        while i.read_exact(&mut n).is_ok() {
            TICK.fetch_add(1, Ordering::Relaxed);
            let mut b = vec![0; u32::from_le_bytes(n) as usize * 4];
            i.read_exact(&mut b).expect("choices");
            let choices = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
            let mut out = String::new();
            let r = engine::guarded(|| {
                behave::behave(&mut engine::Src::replay(choices), &mut out);
                Ok(())
            });
            if r.is_err() {
                out.push_str("panic");
            }
            let mut b = (out.len() as u32).to_le_bytes().to_vec();
            b.extend_from_slice(out.as_bytes());
            o.write_all(&b).expect("answer");
        }
    };
    std::thread::Builder::new().stack_size(32 << 20).spawn(run).expect("thread").join().expect("run");
}
