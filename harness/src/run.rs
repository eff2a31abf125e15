//! What the binaries have in common.
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::sync::{Arc, Mutex};

/// The trace has to be complete up to the last operation even when the process dies.
#[derive(Clone)]
struct Out(Arc<Mutex<BufWriter<File>>>);
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.lock().unwrap().write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.0.lock().unwrap().flush()
    }
}

pub fn out(path: &str) -> (Box<dyn Write>, Option<File>) {
    let w = Out(Arc::new(Mutex::new(BufWriter::with_capacity(1, File::create(path).unwrap()))));
    (Box::new(w), File::create(format!("{path}.cur")).ok())
}
pub fn lines(f: &str) -> impl Iterator<Item = serde_json::Value> {
    BufReader::new(File::open(f).unwrap()).lines().map(|l| parse(&l.unwrap()).unwrap())
}
/// However deep it is.
pub fn parse(s: &str) -> serde_json::Result<serde_json::Value> {
    use serde::Deserialize;
    let mut d = serde_json::Deserializer::from_str(s);
    d.disable_recursion_limit();
    serde_json::Value::deserialize(&mut d)
}

/// Runs a driver on a big stack (deep trees).
pub fn main(run: fn(Vec<String>)) {
    let a: Vec<String> = std::env::args().collect();
    crate::sess::install_hook();
    crate::alloc::KEEP.store(true, std::sync::atomic::Ordering::SeqCst);
    // the first panic allocates things for good
    let _ = crate::sess::guard(|| panic!("warming up"));
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run(a)).unwrap();
    if t.join().is_err() {
        let at = crate::sess::LAST_PANIC.lock().unwrap().clone();
        eprintln!("panicked at {at}");
        // 3: in the driver, 4: in the library where it should not
        std::process::exit(if at.starts_with("src/") { 3 } else { 4 });
    }
}
