//! arcs gen FREE SEED EVENTS OUT            random programs; FREE: threads are not scheduled
//! arcs plan _ IN OUT SHARD SHARDS          programs and schedules enumerated by TLC, one per line
//! arcs exec IN OUT                         the runs recorded in IN, again
//! arcs types OUT                           what may be sent to, and shared with, other threads
use vh::arcs::{Prog, Runner, planned, random};
use vh::rng::Rng;
use vh::run::{lines, out};

#[global_allocator]
static A: vh::alloc::Tracking = vh::alloc::Tracking;

#[cfg(rowan_sched_hooks)]
mod hook {
    use rowan::sched_hooks::{Access, Observer, Ordering};
    pub struct Obs;
    impl Observer for Obs {
        fn before(&self, _: *const ()) {
            vh::arcs::turn();
        }
        fn after(&self, at: *const (), access: Access, order: Ordering) {
            let op = match access {
                Access::Load => 0,
                Access::Store => 1,
                Access::Update => 2,
                Access::Fence => 3,
            };
            let o = match order {
                Ordering::Relaxed => 0,
                Ordering::Acquire => 1,
                Ordering::Release => 2,
                _ => 3,
            };
            vh::arcs::atomic(at as usize, op, o);
        }
    }
    pub fn install() {
        rowan::sched_hooks::observe(&Obs);
    }
}
#[cfg(not(rowan_sched_hooks))]
mod hook {
    pub fn install() {}
}

fn runner(path: &str) -> Runner {
    let (w, p) = out(path);
    hook::install();
    let mut r = Runner { out: w, pending: p, events: 0, hooked: false };
    r.probe();
    r
}

fn main() {
    vh::run::main(|a| match a[1].as_str() {
        "gen" => {
            let free = a[2] == "free";
            let mut r = Rng::new(a[3].parse().unwrap());
            let events: usize = a[4].parse().unwrap();
            let mut s = runner(&a[5]);
            while s.events < events {
                let p = random(&mut r, free || !s.hooked);
                s.run(&p);
            }
        }
        "plan" => {
            let (i, n): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let mut s = runner(&a[4]);
            for (k, v) in lines(&a[3]).enumerate() {
                if k % n == i {
                    let mut p = planned(&v, k);
                    p.free = !s.hooked;
                    s.run(&p);
                }
            }
        }
        "exec" => {
            let mut s = runner(&a[3]);
            for v in lines(&a[2]) {
                if v["a"] == "run" {
                    let p = Prog::from_json(&v);
                    // free runs may need several attempts
                    for _ in 0..if p.free { 200 } else { 1 } {
                        s.run(&p);
                    }
                } else if v["a"] == "types" {
                    vh::types::emit(&mut s.out);
                }
            }
        }
        "types" => {
            let mut s = runner(&a[2]);
            vh::types::emit(&mut s.out);
        }
        _ => std::process::exit(2),
    })
}
