//! A monitored in-memory archive. As a *generator* it invents the bytes a
//! parser of the library asks for (recording them), so that every parser of the
//! repository doubles as a generator of well-formed input for itself; as a
//! plain archive it replays recorded bytes and collects what writers emit.
use crate::core::Rng;
use crate::p_base::ref_fstring;
use std::io::{self, Read, Seek, SeekFrom, Write};
use unreal_asset_base::containers::{IndexedMap, NameMap, SharedResource};
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait};
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::error::Error;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::{ArchiveReader, ArchiveTrait, ArchiveType, ArchiveWriter};
use unreal_asset_base::types::{FName, PackageIndex, SerializedNameHeader};
use unreal_asset_base::unversioned::Usmap;
use unreal_asset_base::Guid;

/// Serialization environment shared by generator, reader and writer.
#[derive(Clone)]
pub struct Cfg {
    pub ov: ObjectVersion,
    pub ov5: ObjectVersionUE5,
    pub ev: EngineVersion,
    pub edl: bool,
    pub cv_seed: u64,
    /// explicit custom versions by name (absent: 0); None: derived from `cv_seed`
    pub cvs: Option<std::sync::Arc<std::collections::HashMap<String, i32>>>,
    pub names: SharedResource<NameMap>,
    pub fname_words: Vec<i32>,
    pub none: i32,
    pub imports: Vec<FName>,
    pub array_override: IndexedMap<String, String>,
    pub key_override: IndexedMap<String, String>,
    pub value_override: IndexedMap<String, String>,
    pub tracing: Vec<(&'static str, i32)>,
}
pub struct Gen {
    pub r: Rng,
    /// every multi-byte integer is 0 or 1: flags stored as integers stay canonical
    pub tiny: bool,
    /// after this many bytes the generator only closes what is open
    pub soft: usize,
    pub hard: usize,
    pub none_pct: usize,
    /// names to hand out first, in order
    pub script: std::collections::VecDeque<i32>,
    pub big: usize,
}
pub struct Arch {
    pub cfg: Cfg,
    pub d: Vec<u8>,
    pub pos: usize,
    pub gen: Option<Gen>,
    pub reads: u64,
    pub strings: u64,
    pub nn: u64,
}

pub fn cv_value(seed: u64, name: &str) -> i32 {
    let h = crate::core::fnv(format!("{seed}/{name}").as_bytes());
    match seed % 4 {
        0 => 1000,
        1 => 0,
        _ => (h % 72) as i32,
    }
}

impl Cfg {
    pub fn cv(&self, name: &str) -> i32 {
        match &self.cvs {
            Some(m) => m.get(name).copied().unwrap_or(0),
            None => cv_value(self.cv_seed, name),
        }
    }
    pub fn plain(&self, d: Vec<u8>) -> Arch {
        Arch { cfg: self.clone(), d, pos: 0, gen: None, reads: 0, strings: 0, nn: 0 }
    }
    pub fn generator(&self, gen: Gen) -> Arch {
        Arch { cfg: self.clone(), d: Vec::new(), pos: 0, gen: Some(gen), reads: 0, strings: 0, nn: 0 }
    }
    pub fn name(&self, s: &str) -> FName {
        let mut nm = self.names.clone();
        let f = nm.get_mut().add_fname(s);
        f
    }
    pub fn name_idx(&self, s: &str) -> i32 {
        let mut nm = self.names.clone();
        let i = nm.get_mut().add_name_reference(s.to_string(), false);
        i
    }
}

impl Arch {
    fn soft(&self) -> bool {
        self.gen.as_ref().map(|g| self.d.len() >= g.soft).unwrap_or(false)
    }
    fn push(&mut self, b: &[u8]) {
        // generator only: append at the end
        debug_assert!(self.pos == self.d.len());
        self.d.extend_from_slice(b);
        self.pos = self.d.len();
    }
    fn fresh(&self) -> bool {
        // past the hard limit the generator behaves like the end of a file
        self.gen.as_ref().map(|g| self.pos >= self.d.len() && self.d.len() < g.hard).unwrap_or(false)
    }
    fn take(&mut self, n: usize) -> io::Result<Vec<u8>> {
        let mut v = vec![0u8; n];
        self.read_exact(&mut v)?;
        Ok(v)
    }
}

impl Read for Arch {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.pos < self.d.len() {
            let n = buf.len().min(self.d.len() - self.pos);
            buf[..n].copy_from_slice(&self.d[self.pos..self.pos + n]);
            self.pos += n;
            return Ok(n);
        }
        let soft = self.soft();
        let at = self.d.len();
        let Some(g) = self.gen.as_mut() else { return Ok(0) };
        if at + buf.len() > g.hard {
            return Ok(0);
        }
        let n = buf.len();
        let r = &mut g.r;
        let b: Vec<u8> = if n > 8 || n == 3 || n == 5 || n == 6 || n == 7 {
            r.bytes(n)
        } else if soft {
            vec![0; n]
        } else if g.tiny {
            let v = (r.u64() & 1).to_le_bytes();
            v[..n].to_vec()
        } else {
            let v: u64 = match (n, r.below(10)) {
                (1, 0..=5) => r.below(4) as u64,
                (1, _) => r.u64(),
                (2, 0..=5) => r.below(4) as u64,
                (2, _) => r.u64(),
                (4, 0..=6) => r.below(4) as u64,
                (4, 7) => r.below(20) as u64,
                (4, 8) => -(r.below(4) as i64) as u64,
                (4, _) => {
                    // bounded: it may be taken for the length of a list of empty elements
                    if r.chance(g.big, 100) {
                        r.u64() % 3000
                    } else {
                        r.below(9) as u64
                    }
                }
                (_, 0..=5) => r.below(4) as u64,
                (_, 6) => -(r.below(4) as i64) as u64,
                _ => r.u64(),
            };
            // no signalling NaNs: widening a float to a double quiets them
            let v = if n == 4 && v & 0x7f80_0000 == 0x7f80_0000 && v & 0x40_0000 == 0 { v ^ 0x40_0000 } else { v };
            v.to_le_bytes()[..n].to_vec()
        };
        buf.copy_from_slice(&b);
        self.push(&b);
        Ok(n)
    }
}
impl Write for Arch {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.pos > self.d.len() {
            self.d.resize(self.pos, 0);
        }
        let over = (self.d.len() - self.pos).min(b.len());
        self.d[self.pos..self.pos + over].copy_from_slice(&b[..over]);
        self.d.extend_from_slice(&b[over..]);
        self.pos += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Arch {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let p = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(x) => self.pos as i128 + x as i128,
            SeekFrom::End(x) => self.d.len() as i128 + x as i128,
        };
        if p < 0 || p > 1 << 40 {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "seek"));
        }
        if self.gen.is_some() && p as usize > self.d.len() {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "generator seek past the end"));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
impl ArchiveTrait<PackageIndex> for Arch {
    fn get_archive_type(&self) -> ArchiveType {
        ArchiveType::UAsset
    }
    fn get_custom_version<T>(&self) -> CustomVersion
    where
        T: CustomVersionTrait + Into<i32>,
    {
        CustomVersion::new(T::GUID, self.cfg.cv(T::FRIENDLY_NAME))
    }
    fn has_unversioned_properties(&self) -> bool {
        false
    }
    fn use_event_driven_loader(&self) -> bool {
        self.cfg.edl
    }
    fn position(&mut self) -> u64 {
        self.pos as u64
    }
    fn get_name_map(&self) -> SharedResource<NameMap> {
        self.cfg.names.clone()
    }
    fn get_array_struct_type_override(&self) -> &IndexedMap<String, String> {
        &self.cfg.array_override
    }
    fn get_map_key_override(&self) -> &IndexedMap<String, String> {
        &self.cfg.key_override
    }
    fn get_map_value_override(&self) -> &IndexedMap<String, String> {
        &self.cfg.value_override
    }
    fn get_engine_version(&self) -> EngineVersion {
        self.cfg.ev
    }
    fn get_object_version(&self) -> ObjectVersion {
        self.cfg.ov
    }
    fn get_object_version_ue5(&self) -> ObjectVersionUE5 {
        self.cfg.ov5
    }
    fn get_mappings(&self) -> Option<&Usmap> {
        None
    }
    fn get_parent_class_export_name(&self) -> Option<FName> {
        None
    }
    fn get_object_name(&self, i: PackageIndex) -> Option<FName> {
        self.get_object_name_packageindex(i)
    }
    fn get_object_name_packageindex(&self, i: PackageIndex) -> Option<FName> {
        if i.index >= 0 || self.cfg.imports.is_empty() {
            return None;
        }
        self.cfg.imports.get((i.index as i64).unsigned_abs() as usize - 1).cloned()
    }
}
impl ArchiveReader<PackageIndex> for Arch {
    fn read_fname(&mut self) -> Result<FName, Error> {
        if self.fresh() {
            let soft = self.soft();
            let (none, n) = (self.cfg.none, self.cfg.names.get_ref().get_name_map_index_list().len());
            let words = self.cfg.fname_words.clone();
            self.nn += 1;
            let g = self.gen.as_mut().unwrap();
            let i = if let Some(i) = g.script.pop_front() {
                i
            } else if soft || g.r.chance(g.none_pct, 100) {
                none
            } else if g.r.chance(3, 4) {
                *g.r.pick(&words)
            } else {
                g.r.below(n) as i32
            };
            let num: i32 = if i == none || soft || words.contains(&i) { 0 } else { *g.r.pick(&[0, 0, 0, 1, 2, 7, i32::MAX]) };
            let mut b = i.to_le_bytes().to_vec();
            b.extend_from_slice(&num.to_le_bytes());
            self.push(&b);
            return Ok(self.cfg.names.get_ref().create_fname(i, num));
        }
        let b = self.take(8)?;
        let i = i32::from_le_bytes(b[..4].try_into().unwrap());
        let num = i32::from_le_bytes(b[4..].try_into().unwrap());
        let n = self.cfg.names.get_ref().get_name_map_index_list().len();
        if i < 0 || i as usize >= n {
            return Err(Error::invalid_file("name index".into()));
        }
        Ok(self.cfg.names.get_ref().create_fname(i, num))
    }
    fn read_fstring(&mut self) -> Result<Option<String>, Error> {
        if self.fresh() {
            let soft = self.soft();
            let g = self.gen.as_mut().unwrap();
            let r = &mut g.r;
            let s: Option<String> = if soft {
                None
            } else {
                match r.below(10) {
                    0 => None,
                    1 => Some(String::new()),
                    2 | 3 => Some((0..r.range(1, 6)).map(|_| *r.pick(&['é', 'Ω', '漢', 'a', '😀', 'Z'])).collect()),
                    _ => Some((0..r.range(1, 9)).map(|_| (b' ' + r.below(90) as u8) as char).collect()),
                }
            };
            self.strings += 1;
            let b = ref_fstring(s.as_deref());
            self.push(&b);
            return Ok(s);
        }
        let len = i32::from_le_bytes(self.take(4)?.try_into().unwrap());
        if len == 0 {
            return Ok(None);
        }
        if len.unsigned_abs() as usize > 1 << 24 {
            return Err(Error::invalid_file("string".into()));
        }
        if len > 0 {
            let mut b = self.take(len as usize)?;
            if b.pop() != Some(0) {
                return Err(Error::invalid_file("string terminator".into()));
            }
            String::from_utf8(b).map(Some).map_err(|_| Error::invalid_file("utf8".into()))
        } else {
            let b = self.take(-len as usize * 2)?;
            let u: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if u.last() != Some(&0) {
                return Err(Error::invalid_file("string terminator".into()));
            }
            String::from_utf16(&u[..u.len() - 1]).map(Some).map_err(|_| Error::invalid_file("utf16".into()))
        }
    }
    fn read_fstring_name_header(&mut self, _: SerializedNameHeader) -> Result<Option<String>, Error> {
        Err(Error::invalid_file("not used".into()))
    }
    fn read_guid(&mut self) -> io::Result<Guid> {
        if self.fresh() && self.gen.as_mut().unwrap().r.chance(1, 4) {
            self.push(&[0; 16]);
            return Ok(Guid::from([0u8; 16]));
        }
        let mut b = [0u8; 16];
        self.read_exact(&mut b)?;
        Ok(Guid::from(b))
    }
    fn read_bool(&mut self) -> io::Result<bool> {
        if self.fresh() {
            let b = !self.soft() && self.gen.as_mut().unwrap().r.bool();
            self.push(&[b as u8]);
            return Ok(b);
        }
        let b = self.take(1)?[0];
        Ok(b > 0)
    }
}
impl ArchiveWriter<PackageIndex> for Arch {
    fn write_fstring(&mut self, v: Option<&str>) -> Result<usize, Error> {
        let b = ref_fstring(v);
        self.write_all(&b)?;
        Ok(b.len())
    }
    fn write_guid(&mut self, g: &Guid) -> io::Result<()> {
        self.write_all(&g.0)
    }
    fn write_bool(&mut self, v: bool) -> io::Result<()> {
        self.write_all(&[v as u8])
    }
}
