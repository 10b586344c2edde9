use serde_json::Value;
pub mod paths;
pub mod cli;
pub mod cut;
pub mod damage;
pub mod fault;
pub mod gps;
pub mod io;
pub mod meta;
pub mod session;
pub mod tags;
pub mod value;


pub struct Viol {
    pub msg: String,
    pub detail: Value,
}
impl Viol {
    pub fn new(msg: impl Into<String>) -> Viol {
        Viol { msg: msg.into(), detail: Value::Null }
    }
}
pub type R = Result<u64, Viol>;

pub fn dispatch(v: &Value) -> R {
    match v["k"].as_str().unwrap_or("") {
        "meta" => meta::run(v),
        "session" => session::run(v),
        "cli" => cli::run(v),
        "cut" => cut::run(v),
        "damage" => damage::run(v),
        "fault" => fault::run(v),
        "io" => io::run(v),
        "gps" => gps::run(v),
        "tags" => tags::run(v),
        "value" => value::run(v),
        "deg" => value::deg(v),
        "refs" => value::refs(v),
        "iso" => gps::iso(v),
        k => panic!("unknown vector kind {k:?}"),
    }
}

/// The answers the suite looks at (all when empty).
pub fn keys() -> Vec<String> {
    std::env::var("NXH_KEYS").map(|k| k.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()).unwrap_or_default()
}
