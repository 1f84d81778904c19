//! What nobody would send.
use serde_json::{Value, json};
use simkit::Ctx;

pub fn strange(ctx: &Ctx) -> Value {
    match ctx.below(22) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(0),
        3 => json!(-1),
        4 => json!(1),
        5 => json!(u64::MAX),
        6 => json!(i64::MIN),
        7 => json!(i64::MAX),
        8 => json!(u32::MAX),
        9 => json!(u64::from(u32::MAX) + 1),
        10 => json!(1.5),
        11 => json!(1e300),
        12 => json!(""),
        13 => json!("é\u{0}\u{1F600}"),
        14 => json!("0x"),
        15 => json!("wit1ggyjwgx7rcec079ne5xvjm83keythmtncryrhj"),
        16 => json!("0".repeat(64)),
        17 => json!("é".repeat(85)),
        18 => json!("a".repeat(170)),
        19 => json!([]),
        20 => json!({}),
        _ => json!(ctx.u64() >> ctx.below(64)),
    }
}

pub fn twist(ctx: &Ctx, v: &mut Value) {
    match v {
        Value::Array(a) if !a.is_empty() && ctx.chance(5, 6) => {
            let k = ctx.idx(a.len());
            match ctx.below(8) {
                0 => {
                    a.remove(k);
                }
                1 => {
                    let x = a[k].clone();
                    a.insert(k, x);
                }
                2 => a.push(strange(ctx)),
                _ => twist(ctx, &mut a[k]),
            }
        }
        Value::Object(o) if !o.is_empty() && ctx.chance(5, 6) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let k = ctx.pick(&keys).clone();
            match ctx.below(8) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let x = o.remove(&k).unwrap();
                    o.insert(format!("{k}_"), x);
                }
                _ => twist(ctx, o.get_mut(&k).unwrap()),
            }
        }
        Value::String(s) if ctx.chance(1, 2) => {
            let mut c: Vec<char> = s.chars().collect();
            match ctx.below(4) {
                0 if !c.is_empty() => {
                    c.remove(ctx.idx(c.len()));
                }
                1 if !c.is_empty() => {
                    let k = ctx.idx(c.len());
                    c[k] = *ctx.pick(&['0', 'f', 'z', 'é', ' ', '\u{1F600}']);
                }
                2 => c.truncate(ctx.idx(c.len() + 1)),
                _ => c.push(*ctx.pick(&['0', 'é'])),
            }
            *s = c.into_iter().collect();
        }
        _ => *v = strange(ctx),
    }
}
