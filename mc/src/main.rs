mod explore;
mod harness;
mod real;
mod scn;
mod topo;
mod props;

use std::sync::atomic::{AtomicI32, Ordering};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn lseek(fd: i32, off: i64, whence: i32) -> i64;
    fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize;
}
static OUT: AtomicI32 = AtomicI32::new(1);
static ERR: AtomicI32 = AtomicI32::new(2);
static CAPTURE: AtomicI32 = AtomicI32::new(-1);

fn put(fd: i32, s: &str) {
    let b = s.as_bytes();
    let mut o = 0;
    while o < b.len() {
        let n = unsafe { write(fd, b[o..].as_ptr(), b.len() - o) };
        if n <= 0 {
            return;
        }
        o += n as usize;
    }
}
pub fn say(s: &str) {
    put(OUT.load(Ordering::Relaxed), &format!("{}\n", s));
}
pub fn say_err(s: &str) {
    put(ERR.load(Ordering::Relaxed), &format!("{}\n", s));
}
/// What the program under test itself wrote to the real stdout (past the model).
pub fn captured() -> String {
    let fd = CAPTURE.load(Ordering::Relaxed);
    if fd < 0 {
        return String::new();
    }
    unsafe {
        let n = lseek(fd, 0, 2);
        let mut b = vec![0u8; n.clamp(0, 4096) as usize];
        let got = pread(fd, b.as_mut_ptr(), b.len(), 0);
        b.truncate(got.max(0) as usize);
        String::from_utf8_lossy(&b).to_string()
    }
}
fn isolate_stdio() {
    unsafe {
        OUT.store(dup(1), Ordering::Relaxed);
        ERR.store(dup(2), Ordering::Relaxed);
        let m = memfd_create(b"mc-out\0".as_ptr(), 1);
        if m >= 0 {
            CAPTURE.store(m, Ordering::Relaxed);
            dup2(m, 1);
        }
    }
}

// ---- watchdog: an execution that neither ends nor blocks
type Slot = Option<(Instant, String, Vec<u16>)>;
static WATCH: Mutex<Vec<Slot>> = Mutex::new(Vec::new());
pub fn watch_begin(name: &str, prefix: &[u16]) -> usize {
    let mut g = WATCH.lock().unwrap();
    let v = Some((Instant::now(), name.to_string(), prefix.to_vec()));
    if let Some(i) = g.iter().position(|s| s.is_none()) {
        g[i] = v;
        return i;
    }
    g.push(v);
    g.len() - 1
}
pub fn watch_end(i: usize) {
    WATCH.lock().unwrap()[i] = None;
}
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let hung = WATCH.lock().unwrap().iter().flatten().find(|s| s.0.elapsed().as_secs() > 90).cloned();
        if let Some((_, name, prefix)) = hung {
            harness::hung(&name, &prefix);
        }
    });
}

fn main() {
    let args: Vec<String> = std::env::args_os().map(|s| s.to_string_lossy().to_string()).collect();
    if args.get(1).map(|s| s.as_str()) != Some("child") {
        // something to inherit
        std::env::set_var("MC_INHERIT", "inherited");
    }
    match args.get(1).map(|s| s.as_str()) {
        Some("child") => {
            let text = std::fs::read_to_string(&args[2]).expect("child spec");
            let v: serde_json::Value = serde_json::from_str(&text).unwrap();
            let ops: Vec<scn::Op> =
                v[&args[3]].as_array().map(|a| a.iter().map(scn::Op::from_json).collect()).unwrap_or_default();
            let home = std::path::Path::new(&args[2]).parent().unwrap().canonicalize().unwrap_or_default();
            std::process::exit(scn::real_child(&ops, args.get(4..).unwrap_or(&[]), &home));
        }
        Some("check") => {
            isolate_stdio();
            explore::install_panic_hook();
            watchdog();
            std::process::exit(harness::check(&args[2], args.get(3).map(|s| s.as_str()).unwrap_or("quick")));
        }
        Some("replay") => {
            isolate_stdio();
            explore::install_panic_hook();
            std::process::exit(harness::replay_file(&args[2]));
        }
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: mc check <ID> quick|thorough | replay <file> | list");
            std::process::exit(2);
        }
    }
}
