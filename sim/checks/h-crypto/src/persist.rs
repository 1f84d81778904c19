//! P02: protected values and keys come back from disk as they were, or not at all.

use simkit::{Ctx, Fail, Res, ensure, ensure_eq, ev};
use witnet_crypto::key::{ExtendedPK, ExtendedSK, KeyPath, MasterKeyGen};
use witnet_protected::{Protected, ProtectedString};

#[derive(Clone, PartialEq, Debug, serde::Serialize, serde::Deserialize)]
enum Item {
    Bytes(Protected),
    Text(ProtectedString),
    Sk(ExtendedSK),
    Pk(ExtendedPK),
    Path(KeyPath),
    Many(Vec<ProtectedString>, Option<Protected>),
}

fn text(ctx: &Ctx) -> String {
    let n = ctx.skewed(40);
    ctx.probe_if(n == 0, "empty_value");
    let s: String = (0..n).map(|_| *ctx.pick(&['a', '"', '\\', '\n', '\0', 'ñ', '字', '🦀', ' '])).collect();
    ctx.probe_if(!s.is_ascii(), "non_ascii");
    s
}

fn make(ctx: &Ctx) -> Result<Item, Fail> {
    let key = |ctx: &Ctx| MasterKeyGen::new(ctx.bytes(32)).generate().map_err(|e| Fail::new("spurious-error", e.to_string()));
    Ok(match ctx.below(6) {
        0 => Item::Bytes(Protected::new(ctx.bytes(ctx.skewed(100) as usize))),
        1 => Item::Text(ProtectedString::new(text(ctx))),
        2 => Item::Sk(key(ctx)?),
        3 => Item::Pk(ExtendedPK::from_secret_key(&key(ctx)?)),
        4 => Item::Path(KeyPath::default().hardened(ctx.below(9) as u32).index(ctx.below(9) as u32)),
        _ => Item::Many((0..ctx.below(4)).map(|_| text(ctx).as_str().into()).collect(), Some(Protected::from(ctx.bytes(3)))),
    })
}

fn save(i: &Item, json: bool) -> Result<Vec<u8>, Fail> {
    if json {
        serde_json::to_vec(i).map_err(|e| Fail::new("not-stored", e.to_string()))
    } else {
        bincode::serialize(i).map_err(|e| Fail::new("not-stored", e.to_string()))
    }
}
fn load(b: &[u8], json: bool) -> Result<Item, String> {
    if json { serde_json::from_slice(b).map_err(|e| e.to_string()) } else { bincode::deserialize(b).map_err(|e| e.to_string()) }
}

pub fn run(ctx: &Ctx) -> Res {
    simkit::simos::reset(ctx.below(1 << 32));
    while ctx.more(12) {
        let i = make(ctx)?;
        let json = ctx.chance(1, 2);
        let mut b = save(&i, json)?;
        ctx.op(if json { "json" } else { "bincode" });
        match ctx.below(3) {
            0 => {
                b.truncate(ctx.idx(b.len().max(1)));
                ctx.fault("torn_write");
                let r = simkit::catch(|| load(&b, json)).map_err(|m| Fail::new("panic", m))?;
                ev!(ctx, "torn {json}: {}", r.is_ok());
                if let Ok(x) = r {
                    return Err(Fail::new("damaged-accepted", format!("{} bytes of a torn write came back as {x:?}", b.len())));
                }
            }
            1 => {
                if b.is_empty() {
                    continue;
                }
                let at = ctx.idx(b.len());
                b[at] ^= 1 << ctx.below(8);
                ctx.fault("corruption");
                // Without a checksum it may pass for another value; it must not bring the process down.
                let r = simkit::catch(|| load(&b, json)).map_err(|m| Fail::new("panic", format!("corrupted value: {m}")))?;
                ev!(ctx, "corrupted {json}: {}", r.is_ok());
                ctx.state(u64::from(r.is_ok()) + at as u64 * 2);
                if let Ok(Item::Text(s)) = &r {
                    simkit::catch(|| AsRef::<str>::as_ref(s).len()).map_err(|m| Fail::new("panic", format!("restored text: {m}")))?;
                }
            }
            _ => {
                ctx.fault("restart");
                let r = load(&b, json).map_err(|e| Fail::new("not-restored", format!("{} does not come back: {e}", kind(&i))))?;
                ev!(ctx, "restored {} {json}", kind(&i));
                ctx.state(simkit::rng::fnv(&b));
                ensure!(r == i, "wrong-value", "{} came back as something else", kind(&i));
                if let (Item::Text(a), Item::Text(b)) = (&r, &i) {
                    ensure_eq!(AsRef::<str>::as_ref(a), AsRef::<str>::as_ref(b), "wrong-value", "restored text");
                    ensure_eq!(AsRef::<[u8]>::as_ref(a), AsRef::<[u8]>::as_ref(b), "wrong-value", "restored text, as bytes");
                }
                if let (Item::Bytes(a), Item::Bytes(b)) = (&r, &i) {
                    ensure_eq!(a.as_ref(), b.as_ref(), "wrong-value", "restored bytes");
                }
            }
        }
    }
    Ok(())
}

fn kind(i: &Item) -> &'static str {
    match i {
        Item::Bytes(_) => "a protected value",
        Item::Text(_) => "a protected text",
        Item::Sk(_) => "an extended secret key",
        Item::Pk(_) => "an extended public key",
        Item::Path(_) => "a key path",
        Item::Many(..) => "a structure with protected values",
    }
}
