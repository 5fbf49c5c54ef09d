//! LZ4 block format, independent of the crate's lz4 library.
pub fn decompress(src: &[u8], orig: usize) -> Option<Vec<u8>> {
    decode(src, orig, false)
}
/// With `lenient`, an offset of zero is taken as a run of zero bytes, as liblz4 does.
pub fn decode(src: &[u8], orig: usize, lenient: bool) -> Option<Vec<u8>> {
    let mut out: Vec<u8> = Vec::with_capacity(orig);
    let mut i = 0;
    loop {
        let tok = *src.get(i)?;
        i += 1;
        let mut lit = (tok >> 4) as usize;
        if lit == 15 {
            loop {
                let b = *src.get(i)?;
                i += 1;
                lit += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        out.extend_from_slice(src.get(i..i + lit)?);
        i += lit;
        if i == src.len() {
            break;
        }
        let off = *src.get(i)? as usize | (*src.get(i + 1)? as usize) << 8;
        i += 2;
        let mut ml = (tok & 15) as usize;
        if ml == 15 {
            loop {
                let b = *src.get(i)?;
                i += 1;
                ml += b as usize;
                if b != 255 {
                    break;
                }
            }
        }
        ml += 4;
        if (off == 0 && !lenient) || off > out.len() {
            return None;
        }
        for _ in 0..ml {
            out.push(if off == 0 { 0 } else { out[out.len() - off] });
        }
    }
    if out.len() == orig {
        Some(out)
    } else {
        None
    }
}
fn emit(out: &mut Vec<u8>, lits: &[u8], m: Option<(usize, usize)>) {
    let l = lits.len();
    let mtok = m.map(|(_, ml)| ml - 4).unwrap_or(0);
    out.push(((l.min(15) as u8) << 4) | mtok.min(15) as u8);
    if l >= 15 {
        let mut r = l - 15;
        while r >= 255 {
            out.push(255);
            r -= 255;
        }
        out.push(r as u8);
    }
    out.extend_from_slice(lits);
    if let Some((off, _)) = m {
        out.push(off as u8);
        out.push((off >> 8) as u8);
        if mtok >= 15 {
            let mut r = mtok - 15;
            while r >= 255 {
                out.push(255);
                r -= 255;
            }
            out.push(r as u8);
        }
    }
}
/// Greedy compressor (finds matches with a small hash table).
pub fn compress(src: &[u8]) -> Vec<u8> {
    let mut out = Vec::new();
    let n = src.len();
    let mut table = std::collections::HashMap::new();
    let mut anchor = 0;
    let mut i = 0;
    while n >= 13 && i + 12 <= n {
        let key = [src[i], src[i + 1], src[i + 2], src[i + 3]];
        let prev = table.insert(key, i);
        if let Some(p) = prev {
            let off = i - p;
            if off <= 65535 {
                let mut ml = 4;
                while i + ml < n - 5 && src[p + ml] == src[i + ml] {
                    ml += 1;
                }
                emit(&mut out, &src[anchor..i], Some((off, ml)));
                i += ml;
                anchor = i;
                continue;
            }
        }
        i += 1;
    }
    emit(&mut out, &src[anchor..], None);
    out
}
