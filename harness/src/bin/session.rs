//! session gen PROFILE SEED EVENTS OUT             random sessions
//! session scen PROFILE IN OUT SHARD SHARDS        scenarios enumerated by TLC, one per line
//! session trees PROFILE IN OUT SHARD SHARDS       trees enumerated by TLC, one per line
//! session flood WHICH GREEN LOG2 OUT              more handles than can be counted
//! session exec IN OUT                             the operations recorded in IN, again
//!
//! The operation being performed is in OUT.cur, should it never return.
use vh::r#gen::{Gen, profile};
use vh::gv::Gv;
use vh::run::{lines, out};
use vh::sess::Sess;

#[global_allocator]
static A: vh::alloc::Tracking = vh::alloc::Tracking;

fn sess(path: &str) -> Sess {
    let (w, p) = out(path);
    let mut s = Sess::new(w);
    s.pending = p;
    s
}

fn main() {
    vh::run::main(run)
}

fn run(a: Vec<String>) {
    match a[1].as_str() {
        "gen" => {
            let seed: u64 = a[3].parse().unwrap();
            let events: usize = a[4].parse().unwrap();
            let mut g = Gen::new(seed, sess(&a[5]), profile(&a[2]));
            while g.s.events < events {
                g.session();
            }
            g.s.exec(&serde_json::json!({"a":"reset"}));
        }
        m @ ("scen" | "trees") => {
            let (i, n): (usize, usize) = (a[5].parse().unwrap(), a[6].parse().unwrap());
            let mut g = Gen::new(1, sess(&a[4]), profile(&a[2]));
            for (k, v) in lines(&a[3]).enumerate() {
                if k % n == i {
                    if m == "scen" {
                        g.scenario(v.as_array().unwrap(), k / n + i, &a[2]);
                    } else {
                        g.tree(&Gv::from_json(&v), k / n + i, &a[2]);
                    }
                }
            }
            g.s.exec(&serde_json::json!({"a":"reset"}));
        }
        "flood" => {
            if apart(&a[5]) {
                let mut g = Gen::new(1, sess(&a[5]), profile("C11"));
                g.flood(a[2].parse().unwrap(), a[3] == "1", a[4].parse().unwrap());
            }
        }
        "exec" => {
            if lines(&a[2]).all(|v| v["a"] != "flood") || apart(&a[3]) {
                let mut s = sess(&a[3]);
                for v in lines(&a[2]) {
                    s.exec(&v);
                }
                if !s.flooded {
                    s.exec(&serde_json::json!({"a":"reset"}));
                }
            }
        }
        _ => std::process::exit(2),
    }
}

/// Whether this process is the one that may be ended by too many handles; if not, such a process
/// has run, and how it ended is recorded.
fn apart(out: &str) -> bool {
    use std::os::unix::process::ExitStatusExt;
    if std::env::var_os("VH_APART").is_some() {
        return true;
    }
    let me = std::env::current_exe().unwrap();
    let r = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("VH_APART", "1").status().unwrap();
    if r.success() {
        return false;
    }
    // a number of bytes, and as many bytes
    let at = std::fs::read(format!("{out}.cur")).unwrap_or_default();
    let at = String::from_utf8_lossy(&at).into_owned();
    let n = at.get(..9).and_then(|n| n.trim().parse::<usize>().ok()).unwrap_or(0);
    let at: serde_json::Value = serde_json::from_str(at.get(9..9 + n).unwrap_or("")).unwrap_or_default();
    let aborted = r.signal() == Some(6);
    if aborted && at["a"] == "flood" {
        use std::io::Write;
        let mut f = std::fs::OpenOptions::new().append(true).open(out).unwrap();
        writeln!(f, "{}", serde_json::json!({"a":"ended","n":at["n"]})).unwrap();
        return false;
    }
    std::process::exit(r.code().unwrap_or(128 + r.signal().unwrap_or(0)))
}
