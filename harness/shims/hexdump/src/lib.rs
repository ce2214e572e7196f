//! Offline stand-in for `hexdump`.
pub fn hexdump_iter(b: &[u8]) -> std::vec::IntoIter<Box<str>> {
    b.chunks(16).enumerate().map(|(i, c)| {
        let h: Vec<String> = c.iter().map(|x| format!("{x:02x}")).collect();
        format!("|{}| {:08x}", h.join(""), i * 16).into_boxed_str()
    }).collect::<Vec<_>>().into_iter()
}
