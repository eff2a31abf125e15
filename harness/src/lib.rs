pub mod alloc;
pub mod api;
pub mod extra;
pub mod lens;
pub mod r#gen;
pub mod gv;
pub mod rng;
pub mod sess;
pub mod exhaust;
pub mod build;
pub mod run;
pub mod arcs;
pub mod types;
pub mod wide;
pub mod widegen;
