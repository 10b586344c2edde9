//! Pattern comparison: expected (from the specification) against observed.
//! Objects compare on the expected keys only. Special expected objects:
//!   {"xany":true}  anything;  {"xin":[a,b,..]}  one of;  {"xcodes":[..]} a string given as code points
use serde_json::Value;
pub fn matches(exp: &Value, obs: &Value, path: &str) -> Result<(), String> {
    match exp {
        Value::Object(o) => {
            if o.contains_key("xany") {
                return Ok(());
            }
            if let Some(Value::Array(alts)) = o.get("xin") {
                if alts.iter().any(|a| matches(a, obs, path).is_ok()) {
                    return Ok(());
                }
                return Err(format!("{path}: expected one of {exp}, got {}", short(obs)));
            }
            if let Some(Value::Array(c)) = o.get("xcodes") {
                let s: String = c.iter().map(|x| char::from_u32(x.as_u64().unwrap() as u32).unwrap()).collect();
                if obs.as_str() == Some(&s) {
                    return Ok(());
                }
                return Err(format!("{path}: expected {s:?}, got {}", short(obs)));
            }
            if let Some(Value::Array(c)) = o.get("xrep") {
                let ch = char::from_u32(c[0].as_u64().unwrap() as u32).unwrap();
                let n = c[1].as_u64().unwrap() as usize;
                let ok = obs.as_str().is_some_and(|s| s.chars().count() == n && s.chars().all(|x| x == ch));
                return if ok { Ok(()) } else { Err(format!("{path}: expected {ch:?} x {n}, got {}", short(obs))) };
            }
            // a string holding these pieces one after the other, starting with the first
            if let Some(Value::Array(toks)) = o.get("xtok") {
                let Some(s) = obs.as_str() else {
                    return Err(format!("{path}: expected text, got {}", short(obs)));
                };
                let mut at = 0;
                for (i, t) in toks.iter().enumerate() {
                    let t = t.as_str().unwrap();
                    match s[at..].find(t) {
                        Some(k) if i > 0 || k == 0 => at += k + t.len(),
                        _ => return Err(format!("{path}: {t:?} missing in {s:?}")),
                    }
                }
                return Ok(());
            }
            // a list holding some of these, in any number and order
            if let Some(Value::Array(may)) = o.get("xsub") {
                let Value::Array(got) = obs else {
                    return Err(format!("{path}: expected {}, got {}", short(exp), short(obs)));
                };
                for g in got {
                    if !may.iter().any(|m| matches(m, g, path).is_ok()) {
                        return Err(format!("{path}: unexpected {}", short(g)));
                    }
                }
                return Ok(());
            }
            // a multiset: the same elements in any order
            if let Some(Value::Array(want)) = o.get("xset") {
                let Value::Array(got) = obs else {
                    return Err(format!("{path}: expected {}, got {}", short(exp), short(obs)));
                };
                let mut left: Vec<&Value> = got.iter().collect();
                for w in want {
                    match left.iter().position(|g| matches(w, g, path).is_ok()) {
                        Some(i) => {
                            left.swap_remove(i);
                        }
                        None => return Err(format!("{path}: missing {}", short(w))),
                    }
                }
                if let Some(Value::Array(opt)) = o.get("xopt") {
                    for w in opt {
                        if let Some(i) = left.iter().position(|g| matches(w, g, path).is_ok()) {
                            left.swap_remove(i);
                        }
                    }
                }
                if let Some(x) = left.first() {
                    return Err(format!("{path}: unexpected {}", short(x)));
                }
                return Ok(());
            }
            let Value::Object(b) = obs else {
                return Err(format!("{path}: expected {}, got {}", short(exp), short(obs)));
            };
            for (k, v) in o {
                match b.get(k) {
                    Some(w) => matches(v, w, &format!("{path}.{k}"))?,
                    None => {
                        return Err(format!("{path}: expected {k}={}, got {}", short(v), short(obs)))
                    }
                }
            }
            Ok(())
        }
        // the JSON writer of the specifications cannot tell {} from []
        Value::Array(a) if a.is_empty() && obs.as_object().is_some_and(|o| o.is_empty()) => Ok(()),
        Value::Array(a) => {
            let Value::Array(b) = obs else {
                return Err(format!("{path}: expected {}, got {}", short(exp), short(obs)));
            };
            // details of an error the specification does not speak of
            let silent = a.len() == 2 && b.len() == 3 && a[0] == "!";
            let b = if silent { &b[..2] } else { &b[..] };
            for (i, x) in a.iter().enumerate() {
                match b.get(i) {
                    Some(y) => matches(x, y, &format!("{path}[{i}]"))?,
                    None => return Err(format!("{path}: missing [{i}] = {}", short(x))),
                }
            }
            if b.len() > a.len() {
                return Err(format!("{path}: unexpected extra [{}] = {}", a.len(), short(&b[a.len()])));
            }
            Ok(())
        }
        _ => {
            if exp == obs {
                Ok(())
            } else {
                Err(format!("{path}: expected {}, got {}", short(exp), short(obs)))
            }
        }
    }
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.len() > 400 {
        let mut e = 400;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}...", &s[..e])
    } else {
        s
    }
}
