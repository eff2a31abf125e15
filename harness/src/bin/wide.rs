//! wide gen PROFILE SEED SESSIONS OUT    random histories over very big trees
//! wide exec IN OUT                      the operations recorded in IN, again
use vh::run::{lines, out};
use vh::wide::Wide;
use vh::widegen::WideGen;

#[global_allocator]
static A: vh::alloc::Tracking = vh::alloc::Tracking;

fn main() {
    vh::run::main(run)
}

fn run(a: Vec<String>) {
    // the blocks of a big tree would fill the memory
    vh::alloc::KEEP.store(false, std::sync::atomic::Ordering::SeqCst);
    match a[1].as_str() {
        "gen" => {
            let (w, p) = out(&a[5]);
            let mut g = WideGen::new(a[3].parse().unwrap(), Wide::new(w, p), &a[2]);
            for _ in 0..a[4].parse::<usize>().unwrap() {
                g.session();
            }
            g.s.exec(&serde_json::json!({"a":"reset"}));
        }
        "exec" => {
            let (w, p) = out(&a[3]);
            let mut s = Wide::new(w, p);
            for v in lines(&a[2]) {
                s.exec(&v);
            }
            s.exec(&serde_json::json!({"a":"reset"}));
        }
        _ => std::process::exit(2),
    }
}
