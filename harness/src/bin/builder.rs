//! builder gen PROFILE SEED EVENTS OUT          random histories of builders and caches
//! builder calls PROFILE IN OUT SHARD SHARDS    call sequences enumerated by TLC, one per line
//! builder exec IN OUT                          the operations recorded in IN, again
use vh::build::{BGen, Build};
use vh::run::{lines, out};

#[global_allocator]
static A: vh::alloc::Tracking = vh::alloc::Tracking;

fn b(path: &str) -> Build {
    let (w, p) = out(path);
    let mut b = Build::new(w);
    b.pending = p;
    b
}

fn main() {
    vh::run::main(|a| match a[1].as_str() {
        "gen" => {
            let (seed, events): (u64, usize) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let mut g = BGen::new(seed, b(&a[5]), &a[2]);
            while g.s.events < events {
                g.session();
            }
            g.s.exec(&serde_json::json!({"a":"reset"}));
        }
        "calls" => {
            let (i, n): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let mut g = BGen::new(1, b(&a[4]), &a[2]);
            for (k, v) in lines(&a[3]).enumerate() {
                if k % n == i {
                    g.calls(&v, k / n);
                }
            }
            g.s.exec(&serde_json::json!({"a":"reset"}));
        }
        "exec" => {
            let mut s = b(&a[3]);
            for v in lines(&a[2]) {
                s.exec(&v);
            }
            s.exec(&serde_json::json!({"a":"reset"}));
        }
        _ => std::process::exit(2),
    })
}
