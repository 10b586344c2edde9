//! Renders the byte layout language used by the TLA+ modules:
//! a part is a byte (int), a list of parts, a string of ASCII text, or an object
//!   {"z":n,"v":b}      n bytes of value b
//!   {"u2"|"u3"|"u4"|"u8":n} big endian, {"l2"|"l4"|"l8":n} little endian
use serde_json::Value;
pub fn render(p: &Value) -> Vec<u8> {
    let mut out = Vec::new();
    go(p, &mut out);
    out
}
fn go(p: &Value, out: &mut Vec<u8>) {
    match p {
        Value::Number(n) => out.push(n.as_u64().expect("byte") as u8),
        Value::String(s) => out.extend(s.chars().map(|c| c as u32 as u8)),
        Value::Array(a) => a.iter().for_each(|x| go(x, out)),
        // damaged content: one byte changed, or cut short
        Value::Object(o) if o.contains_key("flip") => {
            let mut b = render(&o["flip"]);
            let at = o["at"].as_u64().unwrap() as usize;
            b[at] = b[at].wrapping_add(1);
            out.extend(b);
        }
        Value::Object(o) if o.contains_key("cut") => {
            let b = render(&o["cut"]);
            out.extend(&b[..o["at"].as_u64().unwrap() as usize]);
        }
        // the same parts so many times
        Value::Object(o) if o.contains_key("rep") => {
            for _ in 0..o["k"].as_u64().unwrap() {
                go(&o["rep"], out)
            }
        }
        // the offset of this place, plus so much (minus so much), as 32 bits
        Value::Object(o) if o.contains_key("here") => {
            let x = out.len() as u64 + o["here"].as_u64().unwrap() - o["less"].as_u64().unwrap();
            match o.get("div").and_then(|x| x.as_u64()) {
                Some(k) => out.extend(&((x / k) as u16).to_be_bytes()),
                None => out.extend(&(x as u32).to_be_bytes()),
            }
        }
        Value::Object(o) => {
            for (k, v) in o {
                let n = v.as_u64().unwrap_or(0);
                match k.as_str() {
                    "z" => {
                        let b = o.get("v").and_then(|x| x.as_u64()).unwrap_or(0) as u8;
                        out.resize(out.len() + n as usize, b)
                    }
                    "v" | "n" | "pre" | "cov" => {}
                    "b" | "p" | "s" => go(v, out),
                    // pseudo random filler
                    "r" => {
                        let mut x = 0x9e3779b97f4a7c15u64 ^ n;
                        for _ in 0..n {
                            x ^= x << 13;
                            x ^= x >> 7;
                            x ^= x << 17;
                            out.push((x >> 32) as u8)
                        }
                    }
                    "u2" => out.extend(&(n as u16).to_be_bytes()),
                    "u3" => out.extend(&(n as u32).to_be_bytes()[1..]),
                    "u4" => out.extend(&(n as u32).to_be_bytes()),
                    "u8" => out.extend(&n.to_be_bytes()),
                    "l2" => out.extend(&(n as u16).to_le_bytes()),
                    "l4" => out.extend(&(n as u32).to_le_bytes()),
                    "l8" => out.extend(&n.to_le_bytes()),
                    _ => panic!("bad part {k}"),
                }
            }
        }
        Value::Null | Value::Bool(_) => panic!("bad part {p}"),
    }
}
