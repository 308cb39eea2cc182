//! Sparse byte images: what is not in a segment is filled with seeded noise.

use crate::engine::{hash_bytes, mix};

#[derive(Clone, Debug, Default)]
pub struct Image {
    /// Sorted, disjoint.
    pub segs: Vec<(u64, Vec<u8>)>,
    pub len: u64,
    pub fill: u64,
}

impl Image {
    pub fn from_bytes(bytes: Vec<u8>) -> Self {
        let len = bytes.len() as u64;
        Image { segs: if bytes.is_empty() { vec![] } else { vec![(0, bytes)] }, len, fill: 0 }
    }

    /// Copy bytes; the caller has checked the bounds.
    pub fn get(&self, at: u64, out: &mut [u8]) {
        if out.is_empty() {
            return;
        }
        let end = at + out.len() as u64;
        let mut index = self.segs.partition_point(|(start, data)| start + data.len() as u64 <= at);
        let mut pos = at;
        while pos < end {
            match self.segs.get(index) {
                Some((start, data)) if *start <= pos => {
                    let from = (pos - start) as usize;
                    let n = (data.len() - from).min((end - pos) as usize);
                    let to = (pos - at) as usize;
                    out[to..to + n].copy_from_slice(&data[from..from + n]);
                    pos += n as u64;
                    index += 1;
                }
                other => {
                    let stop = other.map_or(end, |(start, _)| (*start).min(end));
                    while pos < stop {
                        out[(pos - at) as usize] = noise(self.fill, pos);
                        pos += 1;
                    }
                }
            }
        }
    }

    pub fn set(&mut self, at: u64, value: u8) {
        let index = self.segs.partition_point(|(start, data)| start + data.len() as u64 <= at);
        if let Some((start, data)) = self.segs.get_mut(index) {
            if *start <= at {
                data[(at - *start) as usize] = value;
                return;
            }
        }
        self.segs.insert(index, (at, vec![value]));
    }

    pub fn byte(&self, at: u64) -> u8 {
        let mut out = [0];
        self.get(at, &mut out);
        out[0]
    }

    pub fn flatten(&self) -> Vec<u8> {
        let mut out = vec![0; self.len as usize];
        self.get(0, &mut out);
        out
    }

    pub fn hash(&self) -> u64 {
        let mut h = mix(self.len);
        for (at, data) in &self.segs {
            h = hash_bytes(mix(h ^ at), data);
        }
        h
    }

    pub fn describe(&self) -> String {
        let n = self.len.min(48) as usize;
        let mut head = vec![0; n];
        self.get(0, &mut head);
        let hex: String = head.iter().map(|b| format!("{b:02x}")).collect();
        format!("{} bytes in {} segments: {hex}{}", self.len, self.segs.len(), if self.len > 48 { ".." } else { "" })
    }
}

pub fn noise(seed: u64, pos: u64) -> u8 {
    if seed == 0 {
        0
    } else {
        (mix(seed ^ pos.wrapping_mul(0x9E37_79B9_7F4A_7C15)) >> 24) as u8
    }
}
