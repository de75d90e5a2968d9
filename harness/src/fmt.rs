//! Independent reading and writing of the TMF container format, written from TMF_SPEC.md.
#[derive(Clone, Debug)]
pub struct Seg {
    pub kind: u16,
    pub comp: u8,
    pub data: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct MeshRec {
    pub name: Vec<u8>,
    pub segs: Vec<Seg>,
}
#[derive(Clone, Debug)]
pub struct FileRec {
    pub ver: [u16; 4],
    pub meshes: Vec<MeshRec>,
}
pub struct Bits<'a> {
    pub data: &'a [u8],
    pub pos: usize,
}
impl<'a> Bits<'a> {
    pub fn new(data: &'a [u8]) -> Self {
        Bits { data, pos: 0 }
    }
    pub fn take(&mut self, n: u8) -> Option<u64> {
        if self.pos + n as usize > self.data.len() * 8 {
            return None;
        }
        let mut r = 0u64;
        for _ in 0..n {
            let b = (self.data[self.pos / 8] >> (7 - self.pos % 8)) & 1;
            r = (r << 1) | b as u64;
            self.pos += 1;
        }
        Some(r)
    }
}
#[derive(Default, Clone)]
pub struct BitSink {
    pub bits: Vec<bool>,
}
impl BitSink {
    pub fn put(&mut self, width: u8, v: u64) {
        for i in (0..width).rev() {
            self.bits.push((v >> i) & 1 == 1);
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut out = vec![0u8; (self.bits.len() + 7) / 8];
        for (i, b) in self.bits.iter().enumerate() {
            if *b {
                out[i / 8] |= 0x80 >> (i % 8);
            }
        }
        out
    }
}
pub struct Cur<'a>(pub &'a [u8]);
impl<'a> Cur<'a> {
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|x| x[0])
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.take(2).map(|x| u16::from_le_bytes(x.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|x| u32::from_le_bytes(x.try_into().unwrap()))
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.take(8).map(|x| u64::from_le_bytes(x.try_into().unwrap()))
    }
    pub fn f64(&mut self) -> Option<f64> {
        self.take(8).map(|x| f64::from_le_bytes(x.try_into().unwrap()))
    }
}
pub fn parse(bytes: &[u8]) -> Option<FileRec> {
    let mut c = Cur(bytes);
    if c.take(3)? != b"TMF" {
        return None;
    }
    let ver = [c.u16()?, c.u16()?, c.u16()?, c.u16()?];
    let old = ver[3] <= 1;
    let n = c.u32()?;
    let mut meshes = Vec::new();
    for _ in 0..n {
        let l = c.u16()?;
        let name = c.take(l as usize)?.to_vec();
        let sc = c.u16()?;
        let mut segs = Vec::new();
        for _ in 0..sc {
            let (kind, len) = if old { (c.u16()?, c.u64()?) } else { (c.u8()? as u16, c.u32()? as u64) };
            let comp = c.u8()?;
            let data = c.take(usize::try_from(len).ok()?)?.to_vec();
            segs.push(Seg { kind, comp, data });
        }
        meshes.push(MeshRec { name, segs });
    }
    if !c.0.is_empty() {
        return None;
    }
    Some(FileRec { ver, meshes })
}
pub fn build(f: &FileRec) -> Vec<u8> {
    let mut o = b"TMF".to_vec();
    for v in f.ver {
        o.extend(v.to_le_bytes());
    }
    o.extend((f.meshes.len() as u32).to_le_bytes());
    let old = f.ver[3] <= 1;
    for m in &f.meshes {
        o.extend((m.name.len() as u16).to_le_bytes());
        o.extend(&m.name);
        o.extend((m.segs.len() as u16).to_le_bytes());
        for s in &m.segs {
            if old {
                o.extend(s.kind.to_le_bytes());
                o.extend((s.data.len() as u64).to_le_bytes());
            } else {
                o.push(s.kind as u8);
                o.extend((s.data.len() as u32).to_le_bytes());
            }
            o.push(s.comp);
            o.extend(&s.data);
        }
    }
    o
}
pub const V: u16 = 1;
pub const VT: u16 = 2;
pub const N: u16 = 3;
pub const NT: u16 = 4;
pub const U: u16 = 5;
pub const UT: u16 = 6;
pub const T: u16 = 9;
pub const TT: u16 = 10;
pub const CI: u16 = 15;
pub const CF: u16 = 16;
pub const CC: u16 = 23;
pub const CN: u16 = 24;
pub const SH: u16 = 25;
pub const KNOWN: [u16; 13] = [V, VT, N, NT, U, UT, T, TT, CI, CF, CC, CN, SH];

#[derive(Clone, Debug)]
pub struct VSeg {
    pub count: u64,
    pub min: [f64; 3],
    pub max: [f64; 3],
    pub prec: [u8; 3],
    pub raw: Vec<[u64; 3]>,
}
pub fn vseg(d: &[u8]) -> Option<VSeg> {
    let mut c = Cur(d);
    let count = c.u64()?;
    let mut min = [0.0; 3];
    let mut max = [0.0; 3];
    for i in 0..3 {
        min[i] = c.f64()?;
        max[i] = c.f64()?;
    }
    let prec = [c.u8()?, c.u8()?, c.u8()?];
    let mut b = Bits::new(c.0);
    let mut raw = Vec::new();
    for _ in 0..count {
        raw.push([b.take(prec[0])?, b.take(prec[1])?, b.take(prec[2])?]);
    }
    Some(VSeg { count, min, max, prec, raw })
}
/// Offset of the element count field, width in bytes, of the data of a segment.
pub fn count_field(kind: u16, d: &[u8]) -> Option<usize> {
    let custom = || d.first().map(|l| 1 + *l as usize);
    Some(match kind {
        V | N | T => 0,
        U | VT | NT | UT | TT => 1,
        SH => 2,
        CI | CN => custom()? + 1,
        CF | CC => custom()?,
        _ => return None,
    })
}
/// Encodes indices as a triangle segment body.
pub fn enc_tris(prec: u8, min: Option<u64>, len: u64, vals: &[u64]) -> Vec<u8> {
    let mut o = vec![prec];
    o.extend(len.to_le_bytes());
    if let Some(m) = min {
        o.extend(m.to_le_bytes());
    }
    let mut b = BitSink::default();
    for v in vals {
        b.put(prec, *v);
    }
    o.extend(b.bytes());
    o
}
