//! The canister's own prints go nowhere; the checks' go to what was standard output.
use std::os::fd::FromRawFd;
use std::sync::{Mutex, OnceLock};

static OUT: OnceLock<Mutex<std::fs::File>> = OnceLock::new();
extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
pub fn quiet() {
    use std::os::fd::AsRawFd;
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null");
    // SAFETY: plain file descriptor calls.
    unsafe {
        let f = std::fs::File::from_raw_fd(dup(1));
        let _ = OUT.set(Mutex::new(f));
        dup2(null.as_raw_fd(), 1);
    }
}
pub fn say(s: String) {
    use std::io::Write;
    match OUT.get() {
        Some(f) => {
            let _ = f.lock().unwrap().write_all(s.as_bytes());
        }
        None => print!("{s}"),
    }
}
#[macro_export]
macro_rules! say { ($($t:tt)*) => { $crate::say::say(format!($($t)*) + "\n") } }
