use super::*;
use small::property::*;
use std::str::FromStr;

fn val(p: &Property) -> Value {
    match p {
        Property::Atime(b) => json!(["atime", b.to_string()]),
        Property::BaseMountpoint(s) => json!(["basemountpoint", s]),
        Property::Mountpoint(s) => json!(["mountpoint", s]),
        Property::Name(s) => json!(["name", s]),
        Property::RecordSize(n) => json!(["recordsize", n.to_string()]),
    }
}

fn parse(out: &mut Out, name: &str, eq: bool, value: &str) {
    let s = if eq { format!("{name}={value}") } else { name.to_string() };
    let r = catch(|| match Property::from_str(&s) {
        Ok(p) => {
            let n = p.name();
            // What is printed can be parsed again
            let shown = p.to_string();
            let again = Property::from_str(&format!("{n}={shown}"));
            let ser = speedy::Writable::write_to_vec(&p).unwrap();
            let back: Property = speedy::Readable::read_from_buffer(&ser).unwrap();
            let acc = match p {
                Property::Atime(_) => p.as_bool().to_string(),
                Property::RecordSize(_) => p.as_u8().to_string(),
                _ => p.as_str().to_string(),
            };
            json!({"r": "ok", "ser": ser, "v": val(&p), "inh": val(&small::inheritable(p.clone())), "shown": shown, "pname": n.to_string(), "again": again == Ok(p.clone()),
                   "disk": back == p, "acc": acc})
        }
        Err(ParsePropertyError::NoEquals) => json!({"r": "noequals"}),
        Err(ParsePropertyError::Name(_)) => json!({"r": "name"}),
        Err(ParsePropertyError::ReadOnly) => json!({"r": "readonly"}),
        Err(ParsePropertyError::Value(_)) => json!({"r": "value"}),
    }).unwrap_or(json!({"r": "panic"}));
    let mut v = r;
    // The numeral without needless characters
    let canon = value.strip_prefix('+').unwrap_or(value).trim_start_matches('0');
    v["canon"] = json!(canon);
    v["vb"] = json!(value.as_bytes());
    v["e"] = json!("parse"); v["name"] = json!(name); v["eq"] = json!(eq); v["value"] = json!(value);
    out.ev(v);
}

pub fn run(out: &mut Out, rng: &mut StdRng, scale: usize) {
    let names = ["atime", "basemountpoint", "mountpoint", "name", "recordsize", "recsize", "", "Atime", "atime ", " recordsize",
        "record_size", "mountpoin", "mountpoints"];
    let mut values: Vec<String> = ["", "on", "off", "true", "false", "On", "yes", "1", "0", "/mnt", "/a=b", "=", "a b", "x/y",
        "0x1000", "4k", "128K", "-4096", "+4096", " 4096", "4096 ", "04096", "18446744073709551616"].iter().map(|s| s.to_string()).collect();
    for i in 0..70 { if i < 64 { values.push((1u64 << i).to_string()) } }
    for i in [9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21] { values.push(((1u64 << i) - 1).to_string()); values.push(((1u64 << i) + 1).to_string()) }
    for n in names {
        parse(out, n, false, "");
        for v in &values { parse(out, n, true, v) }
    }
    for _ in 0..(300 * scale) {
        let v: String = (0..rng.gen_range(0..8)).map(|_| b"onfftrue01248/=. -"[rng.gen_range(0..18)] as char).collect();
        parse(out, names[rng.gen_range(0..names.len())], true, &v);
    }
    // Names
    for s in names.iter().chain(["default", "RecordSize", "none"].iter()) {
        let r = catch(|| PropertyName::from_str(s).map(|n| n.to_string()).unwrap_or("err".into())).unwrap_or("panic".into());
        out.ev(json!({"e": "pname", "s": s, "r": r}));
    }
    // Sources
    for s in ["default", "local", "none", "inherited", "", "Local", "inherit"] {
        let r = catch(|| PropertySource::from_str(s).map(|n| n.to_string()).unwrap_or("err".into())).unwrap_or("panic".into());
        let v = catch(|| PropertySource::from_str(s).map(|n| match n {
            PropertySource::None => -2, PropertySource::Default => -1, PropertySource::Set(i) => i as i32 }).unwrap_or(-3)).unwrap_or(-4);
        out.ev(json!({"e": "psrc", "s": s, "r": r, "v": v}));
    }
    for i in -2..256i32 {
        let s = match i { -2 => PropertySource::None, -1 => PropertySource::Default, i => PropertySource::Set(i as u8) };
        let r = catch(|| {
            let ser = speedy::Writable::write_to_vec(&s).unwrap();
            let back: PropertySource = speedy::Readable::read_from_buffer(&ser).unwrap();
            json!({"e": "src", "i": i, "ser": ser, "shown": s.to_string(), "inh": s.is_inherited(), "disk": back == s})
        }).unwrap_or(json!({"e": "panic"}));
        out.ev(r);
    }
    out.ev(json!({"e": "mp", "r": small::inheritable_name(PropertyName::Mountpoint).to_string(),
        "p": val(&Property::mountpoint("/x")), "object": small::property::PROPERTY_OBJECT}));
    // What's on disk
    for i in 0..256usize {
        for (t, len) in [(0u8, 1), (1, 0), (2, 0), (3, 0), (4, 1), (5, 0)] {
            let mut b = vec![t, 0, 0, 0];
            if t == 0 { b.push((i % 2) as u8) }
            if t >= 1 && t <= 3 { b.extend([2, 0, 0, 0, b'a' + (i % 26) as u8, b'/']) }
            if t == 4 { b.push(i as u8) }
            if t == 5 || (t != 4 && i > 30) { if i > 2 { continue } }
            let r: std::result::Result<Property, speedy::Error> = speedy::Readable::read_from_buffer(&b);
            out.ev(json!({"e": "disk", "b": b, "r": match r { Ok(p) => match p {
                Property::Atime(x) => json!(["atime", x as u8]),
                Property::RecordSize(x) => json!(["recordsize", x]),
                Property::BaseMountpoint(s) => json!(["basemountpoint", s.as_bytes()]),
                Property::Mountpoint(s) => json!(["mountpoint", s.as_bytes()]),
                Property::Name(s) => json!(["name", s.as_bytes()]),
            }, Err(_) => json!("err")}}));
        }
    }
    // Defaults
    for (n, s) in [(PropertyName::Atime, "atime"), (PropertyName::BaseMountpoint, "basemountpoint"), (PropertyName::RecordSize, "recordsize")] {
        let r = catch(|| { let p = Property::default_value(n); json!({"e": "default", "n": s, "v": val(&p), "same": p.name() == n, "inh": small::inheritable_name(n) == n}) })
            .unwrap_or(json!({"e": "panic"}));
        out.ev(r);
    }
}
