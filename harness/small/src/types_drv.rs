use super::*;
use num_traits::FromPrimitive;
use speedy::{Readable, Writable};
use std::str::FromStr;

fn num(rng: &mut StdRng) -> u64 {
    match rng.gen_range(0..6) {
        0 => rng.gen_range(0..300),
        1 => u64::MAX - rng.gen_range(0..300),
        2 => 1 << rng.gen_range(0..64),
        3 => (1u64 << rng.gen_range(0..64)).wrapping_sub(1),
        _ => rng.gen()
    }
}

pub fn run(out: &mut Out, rng: &mut StdRng, scale: usize) {
    for _ in 0..(200 * scale) {
        let r = catch(|| {
            let (c, a, b) = (rng.gen::<u16>(), num(rng), num(rng));
            let c2 = if rng.gen() { c } else { rng.gen() };
            let (p, q) = (PBA::new(c, a), PBA::new(c2, b));
            let ser = p.write_to_vec().unwrap();
            let back = PBA::read_from_buffer(&ser).unwrap();
            let j = json!({"e": "pba", "c": c, "lba": a.to_le_bytes(), "ser": ser, "same": back == p, "typ": PBA::TYPICAL_SIZE,
                "c2": c2, "lba2": b.to_le_bytes(), "lt": p < q, "gt": p > q, "eq": p == q});
            let (r, s) = (RID(a), RID(b));
            let ser = r.write_to_vec().unwrap();
            let back = RID::read_from_buffer(&ser).unwrap();
            let k = json!({"e": "rid", "n": a.to_le_bytes(), "ser": ser, "same": back == r, "typ": RID::TYPICAL_SIZE, "n2": b.to_le_bytes(),
                "lt": r < s, "gt": r > s, "eq": r == s, "shown": r.to_string(), "dec": a.to_string()});
            let (x, y) = (rng.gen_range(0..1 << 30), rng.gen_range(0..1 << 30));
            let t = TxgT(x);
            let ser = t.write_to_vec().unwrap();
            let back = TxgT::read_from_buffer(&ser).unwrap();
            let mut t3 = t;
            t3 += y;
            let l = json!({"e": "txg", "n": x, "ser": ser, "same": back == t, "y": y, "add": (t + y).0, "aa": t3.0,
                "sub": if x >= y { (t - y).0 as i64 } else { -1 }, "lt": t < TxgT(y), "conv": u32::from(TxgT::from(x)),
                "over": TxgT(u32::MAX - x).checked_add(TxgT(y)).is_none(),
                "chk": t.checked_add(TxgT(y)).map(|t| t.0 as i64).unwrap_or(-1)});
            let bytes: [u8; 16] = rng.gen();
            let u = small::types::Uuid::from_uuid(uuid::Uuid::from_bytes(bytes));
            let ser = u.write_to_vec().unwrap();
            let back = small::types::Uuid::read_from_buffer(&ser).unwrap();
            let shown = u.to_string();
            let yaml = serde_json::to_value(u).unwrap();
            let again: small::types::Uuid = serde_json::from_value(yaml.clone()).unwrap();
            let m = json!({"e": "uuid", "b": bytes, "ser": ser, "same": back == u && again == u, "yaml": yaml,
                "hex": shown.replace('-', ""), "dashes": shown.match_indices('-').map(|(i, _)| i).collect::<Vec<_>>(),
                "parsed": small::types::Uuid::parse_str(&shown) == Ok(u) && small::types::Uuid::from_str(&shown) == Ok(u),
                "short": small::types::Uuid::read_from_buffer(&ser[..15]).is_err()});
            vec![j, k, l, m]
        });
        match r { Ok(v) => for e in v { out.ev(e) }, Err(_) => out.ev(json!({"e": "panic"})) }
    }
    // Errors
    for i in -3..400i32 {
        let r = catch(|| {
            let e = Error::from(std::io::Error::from_raw_os_error(i));
            let known = e != Error::EUNKNOWN;
            let ser = e.write_to_vec().unwrap();
            let back = Error::read_from_buffer(&ser).unwrap();
            let raw = (i as i16).write_to_vec().unwrap();
            let read = Error::read_from_buffer(&raw).unwrap();
            json!({"e": "errno", "i": i, "known": known, "back": if known { i32::from(e) } else { -1 }, "same": back == e,
                "ser": ser, "read": read == e || (i == 256 && read == Error::EUNKNOWN), "name": format!("{e:?}"),
                "nix": Error::from(nix::errno::Errno::from_i32(i)) == e})
        });
        out.ev(r.unwrap_or(json!({"e": "panic", "i": i})));
    }
    let r = catch(|| i32::from(Error::EUNKNOWN));
    out.ev(json!({"e": "unknown", "r": if r.is_err() { "refused" } else { "exposed" },
        "custom": Error::from(std::io::Error::new(std::io::ErrorKind::Other, "x")) == Error::EUNKNOWN}));
}
