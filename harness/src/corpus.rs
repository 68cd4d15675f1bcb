//! Real sample files shipped with the repository, and hostile variants of them.
use crate::rng::Rng;
use std::path::Path;

pub struct Sample {
    pub name: String,
    pub data: Vec<u8>,
}

/// sample files up to `max` bytes, in a fixed order
pub fn files(max: u64) -> Vec<Sample> {
    let mut out = vec![];
    for dir in ["/repo", "/repo/test-images", "/repo/test-fonts", "/repo/malformed-fonts"] {
        let Ok(rd) = std::fs::read_dir(dir) else { continue };
        let mut ps: Vec<_> = rd.flatten().map(|e| e.path()).filter(|p| p.is_file()).collect();
        ps.sort();
        for p in ps {
            let n = p.file_name().unwrap().to_string_lossy().to_string();
            if dir == "/repo" && !(n.starts_with("test") || n.starts_with("mixed")) {
                continue;
            }
            if std::fs::metadata(&p).map(|m| m.len() > max).unwrap_or(true) {
                continue;
            }
            if let Ok(data) = std::fs::read(&p) {
                out.push(Sample { name: Path::new(dir).join(n).to_string_lossy().to_string(), data });
            }
        }
    }
    out
}

/// a hostile variant of some data
pub fn mutate(d: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut m = d.to_vec();
    for _ in 0..r.range(1, 4) {
        if m.is_empty() {
            m.push(r.byte());
            continue;
        }
        // headers matter most
        let i = if r.chance(1, 2) { r.below(m.len().min(512)) } else { r.below(m.len()) };
        match r.below(12) {
            0 => m[i] = r.byte(),
            1 => m[i] ^= 1 << r.below(8),
            2 => m[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]),
            3 => m.truncate(i),
            4 => {
                let k = r.range(1, 8).min(m.len() - i);
                m.drain(i..i + k);
            }
            5 => {
                let k = r.range(1, 8);
                let b = r.bytes(k);
                m.splice(i..i, b);
            }
            6 => {
                // overwrite a 2/4-byte field with an extreme value
                let w = *r.pick(&[2usize, 4]);
                let v = *r.pick(&[0u32, 1, 0xffff_ffff, 0x7fff_ffff, 0x8000_0000, 0x0001_0000, 0x100]);
                let bs = if r.chance(1, 2) { v.to_be_bytes() } else { v.to_le_bytes() };
                for k in 0..w.min(m.len() - i) {
                    m[i + k] = bs[k];
                }
            }
            7 => {
                // copy a piece elsewhere
                let j = r.below(m.len());
                let k = r.range(1, 32).min(m.len() - i.max(j));
                let piece = m[j..j + k].to_vec();
                m[i..i + k].copy_from_slice(&piece);
            }
            8 => {
                let k = r.range(1, 16);
                let b = r.bytes(k);
                m.extend(b);
            }
            9 => {
                let v = m[i];
                m[i] = v.wrapping_add(1);
            }
            10 => {
                let v = m[i];
                m[i] = v.wrapping_sub(1);
            }
            _ => {
                let j = r.below(m.len());
                m.swap(i, j);
            }
        }
    }
    m
}
