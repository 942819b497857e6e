//! Independent encoder/decoder of the pak container, written from the format
//! description (not from the library): the oracle for layout properties.
use sha1::{Digest, Sha1};
use std::io::{Read, Write};

pub const MAGIC_LE: u32 = 0x5A6F12E1;

/// wire version: (number, is 4.22 flavour)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Ver {
    pub num: u32,
    pub four_methods: bool,
}
pub fn ver(num: u32) -> Ver {
    Ver { num, four_methods: false }
}

pub fn sha(d: &[u8]) -> [u8; 20] {
    let mut h = Sha1::new();
    h.update(d);
    h.finalize().into()
}
pub fn zlib(d: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::fast());
    e.write_all(d).unwrap();
    e.finish().unwrap()
}
pub fn unzlib(d: &[u8]) -> Result<Vec<u8>, String> {
    let mut dec = flate2::read::ZlibDecoder::new(d);
    let mut out = Vec::new();
    dec.read_to_end(&mut out).map_err(|e| e.to_string())?;
    if dec.total_in() as usize != d.len() {
        return Err(format!("trailing bytes after zlib stream: {} of {}", dec.total_in(), d.len()));
    }
    Ok(out)
}
pub fn put_fstring(o: &mut Vec<u8>, s: &str) {
    if s.is_ascii() {
        o.extend(((s.len() + 1) as i32).to_le_bytes());
        o.extend(s.as_bytes());
        o.push(0);
    } else {
        let w: Vec<u16> = s.encode_utf16().collect();
        o.extend((-((w.len() + 1) as i32)).to_le_bytes());
        for c in w {
            o.extend(c.to_le_bytes());
        }
        o.extend([0, 0]);
    }
}

pub struct Cur<'a> {
    pub d: &'a [u8],
    pub p: usize,
}
impl<'a> Cur<'a> {
    pub fn new(d: &'a [u8], p: usize) -> Self {
        Cur { d, p }
    }
    pub fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let e = self.p.checked_add(n).filter(|e| *e <= self.d.len());
        let e = e.ok_or_else(|| format!("read past end at {} (+{n}, len {})", self.p, self.d.len()))?;
        let r = &self.d[self.p..e];
        self.p = e;
        Ok(r)
    }
    pub fn u8(&mut self) -> Result<u8, String> {
        Ok(self.take(1)?[0])
    }
    pub fn u16(&mut self) -> Result<u16, String> {
        Ok(u16::from_le_bytes(self.take(2)?.try_into().unwrap()))
    }
    pub fn u32(&mut self) -> Result<u32, String> {
        Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    pub fn i32(&mut self) -> Result<i32, String> {
        Ok(self.u32()? as i32)
    }
    pub fn u64(&mut self) -> Result<u64, String> {
        Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn i64(&mut self) -> Result<i64, String> {
        Ok(self.u64()? as i64)
    }
    pub fn fstring(&mut self) -> Result<String, String> {
        let n = self.i32()?;
        if n == 0 {
            return Ok(String::new());
        }
        if n > 0 {
            let b = self.take(n as usize)?;
            if b[b.len() - 1] != 0 {
                return Err("string not NUL terminated".into());
            }
            if !b.is_ascii() {
                return Err("non-ASCII byte in narrow string".into());
            }
            Ok(String::from_utf8(b[..b.len() - 1].to_vec()).unwrap())
        } else {
            let b = self.take(n.unsigned_abs() as usize * 2)?;
            let w: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if *w.last().unwrap() != 0 {
                return Err("wide string not NUL terminated".into());
            }
            String::from_utf16(&w[..w.len() - 1]).map_err(|e| e.to_string())
        }
    }
}

#[derive(Debug, Clone)]
pub struct EntryInfo {
    pub name: String,
    pub offset: u64,
    pub compressed: bool,
    pub blocks: usize,
    pub data: Vec<u8>,
}
#[derive(Debug)]
pub struct Archive {
    pub mount: String,
    pub entries: Vec<EntryInfo>,
}

struct Hdr {
    offset: u64,
    csize: u64,
    usize_: u64,
    method: u32,
    hash: [u8; 20],
    blocks: Vec<(u64, u64)>,
    flags: u8,
    block_size: u32,
    len: usize,
    raw_after_offset: Vec<u8>,
}
fn read_hdr(c: &mut Cur, v: Ver) -> Result<Hdr, String> {
    let s = c.p;
    let offset = c.u64()?;
    let csize = c.u64()?;
    let usize_ = c.u64()?;
    let method = c.u32()?;
    if v.num <= 1 {
        c.u64()?;
    }
    let hash: [u8; 20] = c.take(20)?.try_into().unwrap();
    let mut blocks = vec![];
    let (mut flags, mut block_size) = (0, 0);
    if v.num >= 3 {
        if method != 0 {
            let n = c.u32()?;
            for _ in 0..n {
                blocks.push((c.u64()?, c.u64()?));
            }
        }
        flags = c.u8()?;
        block_size = c.u32()?;
    }
    Ok(Hdr { offset, csize, usize_, method, hash, blocks, flags, block_size, len: c.p - s, raw_after_offset: c.d[s + 8..c.p].to_vec() })
}

/// Strict decode of an archive of a known version (v1..v9): every structural
/// relation of the format is verified, not just what is needed to extract.
pub fn decode_strict(d: &[u8], v: Ver, block_size: u32) -> Result<Archive, String> {
    let nm = match (v.num >= 8, v.four_methods) {
        (false, _) => 0,
        (true, true) => 4,
        (true, false) => 5,
    };
    let tail = 44 + if v.num == 9 { 1 } else { 0 } + nm * 32;
    if d.len() < tail {
        return Err(format!("archive shorter than its footer: {}", d.len()));
    }
    let m = d.len() - tail;
    let mut c = Cur::new(d, m);
    if c.u32()? != MAGIC_LE {
        return Err(format!("magic not at -{tail:#x}"));
    }
    let num = c.u32()?;
    if num != v.num {
        return Err(format!("footer version {num}, wanted {}", v.num));
    }
    let ioff = c.u64()?;
    let isz = c.u64()?;
    let ih: [u8; 20] = c.take(20)?.try_into().unwrap();
    if v.num == 9 && c.u8()? != 0 {
        return Err("frozen flag set".into());
    }
    let mut methods = vec![];
    for _ in 0..nm {
        methods.push(c.take(32)?.to_vec());
    }
    let mut fstart = m;
    if v.num >= 4 {
        fstart -= 1;
        if d[fstart] != 0 {
            return Err("index flagged encrypted".into());
        }
    }
    if v.num >= 7 {
        fstart -= 16;
        if d[fstart..fstart + 16] != [0; 16] {
            return Err("non-zero encryption key guid".into());
        }
    }
    let iend = ioff.checked_add(isz).ok_or("index range overflow")? as usize;
    if iend != fstart {
        return Err(format!("index [{ioff},{iend}) does not end at the footer {fstart}"));
    }
    let idx = &d[ioff as usize..iend];
    if sha(idx) != ih {
        return Err("index SHA1 mismatch".into());
    }
    let mut c = Cur::new(d, ioff as usize);
    let mount = c.fstring()?;
    let n = c.u32()?;
    let mut entries = vec![];
    let mut spans = vec![];
    for _ in 0..n {
        let name = c.fstring()?;
        let h = read_hdr(&mut c, v)?;
        let mut dc = Cur::new(d, h.offset as usize);
        let lh = read_hdr(&mut dc, v).map_err(|e| format!("entry {name:?}: local header: {e}"))?;
        if lh.offset != 0 {
            return Err(format!("entry {name:?}: local header offset {} not 0", lh.offset));
        }
        if lh.raw_after_offset != h.raw_after_offset {
            return Err(format!("entry {name:?}: local and index headers differ"));
        }
        if h.flags != 0 {
            return Err(format!("entry {name:?}: flags {:#x}", h.flags));
        }
        let ds = h.offset as usize + h.len;
        let payload = dc.take(h.csize as usize).map_err(|e| format!("entry {name:?}: payload: {e}"))?;
        if sha(payload) != h.hash {
            return Err(format!("entry {name:?}: SHA1 mismatch"));
        }
        spans.push((h.offset as usize, ds + h.csize as usize));
        let data = if h.method == 0 {
            if h.csize != h.usize_ {
                return Err(format!("entry {name:?}: stored sizes differ"));
            }
            payload.to_vec()
        } else {
            let ok = if v.num >= 8 {
                let mut z = [0u8; 32];
                z[..4].copy_from_slice(b"Zlib");
                methods.get(h.method as usize - 1).map(|m| m[..] == z[..]).unwrap_or(false)
            } else {
                h.method == 1
            };
            if !ok {
                return Err(format!("entry {name:?}: compression method {} is not Zlib in the footer", h.method));
            }
            let base = if v.num < 5 { 0 } else { h.offset };
            let mut at = ds as u64;
            let mut out = vec![];
            let bs = if h.blocks.len() == 1 { h.usize_ as u32 } else { block_size };
            if h.block_size != bs {
                return Err(format!("entry {name:?}: block size {} (wanted {bs})", h.block_size));
            }
            for (i, (a, b)) in h.blocks.iter().enumerate() {
                if base + a != at || b <= a {
                    return Err(format!("entry {name:?}: block {i} at {a}..{b} is not where the data is ({})", at - base));
                }
                let o = unzlib(&d[(base + a) as usize..(base + b) as usize]).map_err(|e| format!("entry {name:?}: block {i}: {e}"))?;
                let last = i + 1 == h.blocks.len();
                if o.len() > block_size as usize || (!last && o.len() != block_size as usize) || o.is_empty() {
                    return Err(format!("entry {name:?}: block {i} inflates to {} with block size {block_size}", o.len()));
                }
                out.extend(o);
                at = base + b;
            }
            if at != ds as u64 + h.csize {
                return Err(format!("entry {name:?}: blocks do not cover the payload"));
            }
            out
        };
        if data.len() as u64 != h.usize_ {
            return Err(format!("entry {name:?}: size field {} but {} bytes", h.usize_, data.len()));
        }
        entries.push(EntryInfo { name, offset: h.offset, compressed: h.method != 0, blocks: h.blocks.len(), data });
    }
    if c.p != iend {
        return Err(format!("{} stray bytes after the index records", iend - c.p));
    }
    spans.sort();
    let mut at = 0;
    for (a, b) in spans {
        if a != at {
            return Err(format!("entry data at {a}, previous ended at {at}"));
        }
        at = b;
    }
    if at != ioff as usize {
        return Err(format!("entry data ends at {at}, index starts at {ioff}"));
    }
    Ok(Archive { mount, entries })
}

// ------------------------------------------------------------------ encoder
#[derive(Clone, Debug)]
pub struct In {
    pub name: String,
    pub data: Vec<u8>,
    pub compress: bool,
    pub encrypted: bool,
}
#[derive(Clone, Debug)]
pub struct Opt {
    pub v: Ver,
    pub block: usize,
    pub mount: String,
    /// which of the five method slots names Zlib (v8+)
    pub slot: usize,
    /// bytes of padding between entries
    pub gap: usize,
    /// legacy compression flag value for v3..v7: 1, 0x10 or 0x20
    pub legacy_flag: u32,
    pub index_encrypted: bool,
    /// index header offsets repeated in local headers
    pub shuffle_index: bool,
    pub path_hash_present: bool,
    /// which of offset, size and stored size (bits 0 to 2) take 64 bits although 32 would do
    pub big_fields: u8,
}
struct Built {
    offset: u64,
    csize: u64,
    usize_: u64,
    method: u32,
    hash: [u8; 20],
    blocks: Vec<(u64, u64)>,
    enc: u8,
    bs: u32,
}
fn hdr_len(v: Ver, method: u32, nb: usize) -> usize {
    28 + if v.num <= 1 { 8 } else { 0 } + 20 + if v.num >= 3 { 5 + if method != 0 { 4 + nb * 16 } else { 0 } } else { 0 }
}
fn put_hdr(o: &mut Vec<u8>, v: Ver, b: &Built, offset: u64) {
    o.extend(offset.to_le_bytes());
    o.extend(b.csize.to_le_bytes());
    o.extend(b.usize_.to_le_bytes());
    o.extend(b.method.to_le_bytes());
    if v.num <= 1 {
        o.extend(0x1234_5678_9abcu64.to_le_bytes());
    }
    o.extend(b.hash);
    if v.num >= 3 {
        if b.method != 0 {
            o.extend((b.blocks.len() as u32).to_le_bytes());
            for (s, e) in &b.blocks {
                o.extend(s.to_le_bytes());
                o.extend(e.to_le_bytes());
            }
        }
        o.push(b.enc);
        o.extend(b.bs.to_le_bytes());
    }
}
pub fn encode(ins: &[In], op: &Opt) -> Vec<u8> {
    let v = op.v;
    let mut o = vec![];
    let mut built: Vec<Built> = vec![];
    for e in ins {
        o.extend(std::iter::repeat(0xA5u8).take(op.gap));
        let offset = o.len() as u64;
        let comp = e.compress && v.num >= 3 && !e.data.is_empty();
        let method = if !comp {
            0
        } else if v.num >= 8 {
            op.slot as u32 + 1
        } else {
            op.legacy_flag
        };
        let chunks: Vec<Vec<u8>> = if comp { e.data.chunks(op.block).map(zlib).collect() } else { vec![] };
        let hl = hdr_len(v, method, chunks.len());
        let base = if v.num < 5 { offset } else { 0 };
        let mut at = base + hl as u64;
        let mut blocks = vec![];
        for c in &chunks {
            blocks.push((at, at + c.len() as u64));
            at += c.len() as u64;
        }
        let payload: Vec<u8> = if comp { chunks.concat() } else { e.data.clone() };
        let b = Built {
            offset,
            csize: payload.len() as u64,
            usize_: e.data.len() as u64,
            method,
            hash: sha(&payload),
            blocks,
            // an encrypted entry may also be marked as deleted
            enc: if !e.encrypted { 0 } else if v.num >= 6 && e.name.len() % 2 == 1 { 3 } else { 1 },
            bs: if comp { op.block as u32 } else { 0 },
        };
        // the local header repeats the record with offset 0
        put_hdr(&mut o, v, &b, 0);
        o.extend(payload);
        built.push(b);
    }
    o.extend(std::iter::repeat(0x5Au8).take(op.gap));
    let order: Vec<usize> = if op.shuffle_index { (0..ins.len()).rev().collect() } else { (0..ins.len()).collect() };
    let ioff = o.len() as u64;
    let mut idx = vec![];
    let mut extra: Vec<u8> = vec![];
    put_fstring(&mut idx, &op.mount);
    idx.extend((ins.len() as u32).to_le_bytes());
    if v.num < 10 {
        for i in &order {
            put_fstring(&mut idx, &ins[*i].name);
            put_hdr(&mut idx, v, &built[*i], built[*i].offset);
        }
    } else {
        idx.extend(0xDEADBEEFu64.to_le_bytes());
        // encoded entries
        let mut enc = vec![];
        let mut encoff = vec![0u32; ins.len()];
        for i in &order {
            let b = &built[*i];
            encoff[*i] = enc.len() as u32;
            let mut w: u32 = 0;
            let (bsbits, bsx) = if b.bs != 0 && (b.bs & 0x7ff) == 0 && (b.bs >> 11) < 0x3f { (b.bs >> 11, false) } else if b.bs == 0 { (0, false) } else { (0x3f, true) };
            w |= bsbits;
            w |= (b.blocks.len() as u32) << 6;
            w |= ((b.enc != 0) as u32) << 22;
            w |= b.method << 23;
            let f = |bit: u8, x: u64| op.big_fields & bit == 0 && x <= u32::MAX as u64;
            if f(4, b.csize) {
                w |= 1 << 29;
            }
            if f(2, b.usize_) {
                w |= 1 << 30;
            }
            if f(1, b.offset) {
                w |= 1 << 31;
            }
            enc.extend(w.to_le_bytes());
            if bsx {
                enc.extend(b.bs.to_le_bytes());
            }
            let put = |enc: &mut Vec<u8>, bit: u8, x: u64| if f(bit, x) { enc.extend((x as u32).to_le_bytes()) } else { enc.extend(x.to_le_bytes()) };
            put(&mut enc, 1, b.offset);
            put(&mut enc, 2, b.usize_);
            if b.method != 0 {
                put(&mut enc, 4, b.csize);
                if b.blocks.len() != 1 || b.enc != 0 {
                    for (s, e) in &b.blocks {
                        enc.extend(((e - s) as u32).to_le_bytes());
                    }
                }
            }
        }
        // directory index
        let mut dirs: std::collections::BTreeMap<String, Vec<(String, u32)>> = Default::default();
        for (i, e) in ins.iter().enumerate() {
            let (d, f) = match e.name.rfind('/') {
                Some(p) => (e.name[..p + 1].to_string(), e.name[p + 1..].to_string()),
                None => ("/".to_string(), e.name.clone()),
            };
            dirs.entry(d).or_default().push((f, encoff[i]));
        }
        let mut di = vec![];
        di.extend((dirs.len() as u32).to_le_bytes());
        for (d, fs) in &dirs {
            put_fstring(&mut di, d);
            di.extend((fs.len() as u32).to_le_bytes());
            for (f, o) in fs {
                put_fstring(&mut di, f);
                di.extend(o.to_le_bytes());
            }
        }
        let phi = vec![0u8; 12];
        // sizes of the primary index are known only now
        let isz = idx.len() + 4 + if op.path_hash_present { 36 } else { 0 } + 4 + 36 + 4 + enc.len() + 4;
        let phi_off = ioff as usize + isz;
        let di_off = phi_off + if op.path_hash_present { phi.len() } else { 0 };
        idx.extend((op.path_hash_present as u32).to_le_bytes());
        if op.path_hash_present {
            idx.extend((phi_off as u64).to_le_bytes());
            idx.extend((phi.len() as u64).to_le_bytes());
            idx.extend(sha(&phi));
            extra.extend(&phi);
        }
        idx.extend(1u32.to_le_bytes());
        idx.extend((di_off as u64).to_le_bytes());
        idx.extend((di.len() as u64).to_le_bytes());
        idx.extend(sha(&di));
        idx.extend((enc.len() as u32).to_le_bytes());
        idx.extend(&enc);
        idx.extend(0u32.to_le_bytes());
        assert_eq!(idx.len(), isz);
        extra.extend(&di);
    }
    let ih = sha(&idx);
    let isz = idx.len() as u64;
    o.extend(idx);
    o.extend(extra);
    if v.num >= 7 {
        o.extend([0u8; 16]);
    }
    if v.num >= 4 {
        o.push(op.index_encrypted as u8);
    }
    o.extend(MAGIC_LE.to_le_bytes());
    o.extend(v.num.to_le_bytes());
    o.extend(ioff.to_le_bytes());
    o.extend(isz.to_le_bytes());
    o.extend(ih);
    if v.num == 9 {
        o.push(0);
    }
    if v.num >= 8 {
        for i in 0..if v.four_methods { 4 } else { 5 } {
            let mut z = [0u8; 32];
            if i == op.slot {
                z[..4].copy_from_slice(b"Zlib");
            } else if i < op.slot {
                z[..5].copy_from_slice(b"Oodle");
            }
            o.extend(z);
        }
    }
    o
}
