//! Offline stand-in for `lz4_flex::block`: an LZ4 block codec.
pub mod block {
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct DecompressError;
    impl std::fmt::Display for DecompressError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("corrupt LZ4 block") }
    }
    impl std::error::Error for DecompressError {}

    fn put_len(out: &mut Vec<u8>, mut n: usize) {
        while n >= 255 { out.push(255); n -= 255; }
        out.push(n as u8);
    }
    fn sequence(out: &mut Vec<u8>, lit: &[u8], m: Option<(usize, usize)>) {
        let ll = lit.len();
        let ml = m.map(|(_, l)| l - 4).unwrap_or(0);
        let tok = ((ll.min(15) as u8) << 4) | (ml.min(15) as u8);
        out.push(tok);
        if ll >= 15 { put_len(out, ll - 15); }
        out.extend_from_slice(lit);
        if let Some((off, _)) = m {
            out.extend_from_slice(&(off as u16).to_le_bytes());
            if ml >= 15 { put_len(out, ml - 15); }
        }
    }
    pub fn compress(src: &[u8]) -> Vec<u8> {
        let mut out = Vec::with_capacity(src.len() / 2 + 16);
        let mut table = vec![usize::MAX; 1 << 14];
        let mut anchor = 0;
        let mut i = 0;
        let limit = src.len().saturating_sub(12);
        while i < limit {
            let w = u32::from_le_bytes(src[i..i + 4].try_into().unwrap());
            let h = (w.wrapping_mul(2654435761) >> 18) as usize;
            let c = table[h];
            table[h] = i;
            if c != usize::MAX && i - c <= 65535 && src[c..c + 4] == src[i..i + 4] {
                let mut l = 4;
                let end = src.len() - 5;
                while i + l < end && src[c + l] == src[i + l] { l += 1; }
                sequence(&mut out, &src[anchor..i], Some((i - c, l)));
                i += l;
                anchor = i;
            } else {
                i += 1;
            }
        }
        sequence(&mut out, &src[anchor..], None);
        out
    }
    pub fn decompress(src: &[u8], size: usize) -> Result<Vec<u8>, DecompressError> {
        let mut out = Vec::with_capacity(size);
        let mut i = 0;
        let e = DecompressError;
        loop {
            let tok = *src.get(i).ok_or(e.clone())?;
            i += 1;
            let mut ll = (tok >> 4) as usize;
            if ll == 15 { loop { let b = *src.get(i).ok_or(e.clone())?; i += 1; ll += b as usize; if b != 255 { break } } }
            let lit = src.get(i..i + ll).ok_or(e.clone())?;
            if out.len() + ll > size { return Err(e); }
            out.extend_from_slice(lit);
            i += ll;
            if i == src.len() { break }
            let off = u16::from_le_bytes(src.get(i..i + 2).ok_or(e.clone())?.try_into().unwrap()) as usize;
            i += 2;
            let mut ml = (tok & 15) as usize;
            if ml == 15 { loop { let b = *src.get(i).ok_or(e.clone())?; i += 1; ml += b as usize; if b != 255 { break } } }
            ml += 4;
            if off == 0 || off > out.len() || out.len() + ml > size { return Err(e); }
            let s = out.len() - off;
            for k in 0..ml { let b = out[s + k]; out.push(b); }
        }
        Ok(out)
    }
}
