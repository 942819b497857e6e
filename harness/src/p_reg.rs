//! R01: asset registries.
use crate::core::*;
use crate::p_base::{ref_fstring, ref_name_hash};
use std::io::Cursor;
use unreal_asset_base::containers::{Chain, NameMap};
use unreal_asset_base::custom_version::FAssetRegistryVersionType;
use unreal_asset_base::flags::EPackageFlags;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::reader::{RawReader, RawWriter};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_registry::objects::depends_node::DependsNode;
use unreal_asset_registry::AssetRegistryState;

/// A name: entry of the name table and number.
type Nm = (i32, i32);
#[derive(Clone, Debug, PartialEq)]
struct MAsset {
    /// object path, package path, class, package name, asset name
    n: [Nm; 5],
    tags: Vec<(Nm, Option<String>)>,
    chunks: Vec<i32>,
    flags: u32,
}
#[derive(Clone, Debug, PartialEq, Default)]
struct MNode {
    id: [Option<Nm>; 4],
    /// before version 7: hard, soft, names, soft manage, hard manage, referencers
    lists: [Vec<i32>; 6],
    /// since version 7: dependencies with the sets of properties they have
    deps: Vec<(i32, u8)>,
    manage: Vec<(i32, bool)>,
}
#[derive(Clone, Debug, PartialEq)]
struct MPkg {
    name: Nm,
    size: i64,
    guid: [u8; 16],
    md5: Option<[u8; 16]>,
}
#[derive(Clone, Debug, PartialEq)]
struct Model {
    version: i32,
    names: Vec<String>,
    assets: Vec<MAsset>,
    nodes: Vec<MNode>,
    pkgs: Vec<MPkg>,
}
const GUID: [u32; 4] = [0x717F9EE7, 0xE9B0493A, 0x88B39132, 0x1B388107];
const NAMES: usize = 2;
const REFS: usize = 5;

fn i32s(b: &mut Vec<u8>, v: i32) {
    b.extend(v.to_le_bytes());
}
fn nm(b: &mut Vec<u8>, n: Nm) {
    i32s(b, n.0);
    i32s(b, n.1);
}
impl Model {
    /// `pad`: bytes of the dependency section that follow the nodes
    fn encode(&self, hashes: bool, pad: usize) -> Vec<u8> {
        let mut b = vec![];
        GUID.iter().for_each(|g| b.extend(g.to_le_bytes()));
        i32s(&mut b, self.version);
        b.extend([0; 8]);
        i32s(&mut b, self.assets.len() as i32);
        for a in &self.assets {
            a.n.iter().for_each(|n| nm(&mut b, *n));
            i32s(&mut b, a.tags.len() as i32);
            for (k, v) in &a.tags {
                nm(&mut b, *k);
                b.extend(ref_fstring(v.as_deref()));
            }
            i32s(&mut b, a.chunks.len() as i32);
            a.chunks.iter().for_each(|c| i32s(&mut b, *c));
            b.extend(a.flags.to_le_bytes());
        }
        let start = b.len();
        if self.version >= 7 {
            b.extend([0; 8]);
        }
        i32s(&mut b, self.nodes.len() as i32);
        for n in &self.nodes {
            b.push((0..4).map(|i| (n.id[i].is_some() as u8) << i).sum());
            n.id.iter().flatten().for_each(|x| nm(&mut b, *x));
            if self.version < 7 {
                let lists: Vec<&Vec<i32>> = (0..6).filter(|i| *i != 4 || self.version >= 5).map(|i| &n.lists[i]).collect();
                lists.iter().for_each(|l| i32s(&mut b, l.len() as i32));
                lists.iter().for_each(|l| l.iter().for_each(|x| i32s(&mut b, *x)));
            } else {
                i32s(&mut b, n.deps.len() as i32);
                n.deps.iter().for_each(|d| i32s(&mut b, d.0));
                let mut words: Vec<u8> = n.deps.iter().map(|d| d.1).collect();
                words.resize((words.len() + 3) / 4 * 4, 0);
                b.extend(words);
                i32s(&mut b, n.lists[NAMES].len() as i32);
                n.lists[NAMES].iter().for_each(|x| i32s(&mut b, *x));
                i32s(&mut b, n.manage.len() as i32);
                n.manage.iter().for_each(|d| i32s(&mut b, d.0));
                for w in n.manage.chunks(32) {
                    let v: u32 = w.iter().enumerate().map(|(i, d)| (d.1 as u32) << i).sum();
                    b.extend(v.to_le_bytes());
                }
                i32s(&mut b, n.lists[REFS].len() as i32);
                n.lists[REFS].iter().for_each(|x| i32s(&mut b, *x));
            }
        }
        if self.version >= 7 {
            b.extend(vec![0xA5; pad]);
            let size = (b.len() - start - 8) as i64;
            b[start..start + 8].copy_from_slice(&size.to_le_bytes());
        }
        i32s(&mut b, self.pkgs.len() as i32);
        for p in &self.pkgs {
            nm(&mut b, p.name);
            b.extend(p.size.to_le_bytes());
            b.extend(p.guid);
            if self.version >= 6 {
                b.extend((p.md5.is_some() as u32).to_le_bytes());
                b.extend(p.md5.iter().flatten());
            }
        }
        let offset = b.len() as i64;
        b[20..28].copy_from_slice(&offset.to_le_bytes());
        i32s(&mut b, self.names.len() as i32);
        for n in &self.names {
            b.extend(ref_fstring(Some(n)));
            if hashes {
                b.extend(ref_name_hash(n).to_le_bytes());
            }
        }
        b
    }
    /// Dependencies in the order of their nodes: the order in a file has no meaning since version 7.
    fn normal(&self) -> Model {
        let mut m = self.clone();
        if m.version >= 7 {
            for n in &mut m.nodes {
                n.deps.sort();
                n.manage.sort();
                n.lists[NAMES].sort();
                n.lists[REFS].sort();
            }
        }
        m
    }
}
/// An own decoder for what the library writes.
struct Dec<'a>(&'a [u8], usize);
impl<'a> Dec<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        let s = self.0.get(self.1..self.1 + n).ok_or(format!("ends at byte {} of {}", self.1, self.0.len()))?;
        self.1 += n;
        Ok(s)
    }
    fn i32(&mut self) -> Result<i32, String> {
        Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn i64(&mut self) -> Result<i64, String> {
        Ok(i64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn count(&mut self) -> Result<usize, String> {
        let n = self.i32()?;
        if n < 0 || n as usize > self.0.len() {
            return Err(format!("count {n} at byte {}", self.1 - 4));
        }
        Ok(n as usize)
    }
    fn nm(&mut self) -> Result<Nm, String> {
        Ok((self.i32()?, self.i32()?))
    }
    fn ints(&mut self) -> Result<Vec<i32>, String> {
        let n = self.count()?;
        (0..n).map(|_| self.i32()).collect()
    }
    fn fstring(&mut self) -> Result<Option<String>, String> {
        let n = self.i32()?;
        if n == 0 {
            return Ok(None);
        }
        if n > 0 {
            let s = self.take(n as usize)?;
            return String::from_utf8(s[..s.len() - 1].to_vec()).map(Some).map_err(|e| e.to_string());
        }
        let s = self.take(-(n as i64) as usize * 2)?;
        let u: Vec<u16> = s.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
        String::from_utf16(&u[..u.len() - 1]).map(Some).map_err(|e| e.to_string())
    }
}
fn decode(d: &[u8], hashes: bool) -> Result<Model, String> {
    let mut r = Dec(d, 0);
    for g in GUID {
        if r.i32()? as u32 != g {
            return Err("not the registry's guid".into());
        }
    }
    let version = r.i32()?;
    let offset = r.i64()?;
    let mut m = Model { version, names: vec![], assets: vec![], nodes: vec![], pkgs: vec![] };
    for _ in 0..r.count()? {
        let mut n = [(0, 0); 5];
        for x in &mut n {
            *x = r.nm()?;
        }
        let mut tags = vec![];
        for _ in 0..r.count()? {
            tags.push((r.nm()?, r.fstring()?));
        }
        m.assets.push(MAsset { n, tags, chunks: r.ints()?, flags: r.i32()? as u32 });
    }
    let end = if version >= 7 { Some(r.i64()? + r.1 as i64) } else { None };
    for _ in 0..r.count()? {
        let mut n = MNode::default();
        let bits = r.take(1)?[0];
        for i in 0..4 {
            if bits >> i & 1 == 1 {
                n.id[i] = Some(r.nm()?);
            }
        }
        if version < 7 {
            let mut counts = [0; 6];
            for i in 0..6 {
                if i != 4 || version >= 5 {
                    counts[i] = r.count()?;
                }
            }
            for i in 0..6 {
                n.lists[i] = (0..counts[i]).map(|_| r.i32()).collect::<Result<_, _>>()?;
            }
        } else {
            let l = r.ints()?;
            let w = r.take((l.len() + 3) / 4 * 4)?;
            n.deps = l.iter().copied().zip(w.iter().copied()).collect();
            n.lists[NAMES] = r.ints()?;
            let l = r.ints()?;
            let w = r.take((l.len() + 31) / 32 * 4)?;
            n.manage = l.iter().enumerate().map(|(i, x)| (*x, w[i / 8] >> (i % 8) & 1 == 1)).collect();
            n.lists[REFS] = r.ints()?;
        }
        m.nodes.push(n);
    }
    if let Some(e) = end {
        if e != r.1 as i64 {
            return Err(format!("the dependency section states its end as {e}, it is {}", r.1));
        }
    }
    for _ in 0..r.count()? {
        let (name, size) = (r.nm()?, r.i64()?);
        let guid = r.take(16)?.try_into().unwrap();
        let mut md5 = None;
        if version >= 6 {
            match r.i32()? {
                0 => {}
                1 => md5 = Some(r.take(16)?.try_into().unwrap()),
                x => return Err(format!("hash flag {x}")),
            }
        }
        m.pkgs.push(MPkg { name, size, guid, md5 });
    }
    if offset != r.1 as i64 {
        return Err(format!("the name table's offset is stated as {offset}, it is {}", r.1));
    }
    for _ in 0..r.count()? {
        let s = r.fstring()?.ok_or("empty name")?;
        if hashes && r.i32()? as u32 != ref_name_hash(&s) {
            return Err(format!("hash of {s:?}"));
        }
        m.names.push(s);
    }
    if r.1 != d.len() {
        return Err(format!("{} bytes follow", d.len() - r.1));
    }
    Ok(m)
}

const FLAGS: u32 = 0xF077_67F7;
fn gen(r: &mut Rng) -> Model {
    let version = r.range(4, 7) as i32;
    let many = r.chance(1, 40);
    let mut names: Vec<String> = vec![];
    for i in 0..r.range(1, if many { 400 } else { 14 }) {
        let s = match r.below(5) {
            0 => gen_string(r, 30),
            1 => format!("/Game/{}/{}", gen_ident(r), gen_ident(r)),
            2 => format!("Name_{i}"),
            _ => gen_ident(r),
        };
        if !s.is_empty() && !s.contains('\0') && !names.contains(&s) {
            names.push(s);
        }
    }
    if names.is_empty() {
        names.push("None".into());
    }
    let k = names.len();
    let n = |r: &mut Rng| (r.below(k) as i32, if r.chance(1, 3) { r.below(2000) as i32 } else { 0 });
    let mut assets = vec![];
    for _ in 0..r.below(if many { 60 } else { 6 }) {
        let mut tags: Vec<(Nm, Option<String>)> = vec![];
        let most = if r.chance(1, 10) { 40 } else { 5 };
        for _ in 0..r.below(most) {
            let key = n(r);
            let v = gen_string(r, 60);
            if tags.iter().all(|t| t.0 != key) && !v.contains('\0') {
                tags.push((key, if v.is_empty() { None } else { Some(v) }));
            }
        }
        let nc = r.below(4);
        assets.push(MAsset {
            n: [n(r), n(r), n(r), n(r), n(r)],
            tags,
            chunks: (0..nc).map(|_| if r.bool() { r.below(10) as i32 } else { r.i32() }).collect(),
            flags: r.u32() & FLAGS & if r.bool() { !0 } else { r.u32() },
        });
    }
    let nodes_n = if many { r.range(30, 120) } else { r.below(9) };
    // each node once at most in every list, in any order
    let list = |r: &mut Rng| {
        if nodes_n == 0 || r.chance(1, 3) {
            return vec![];
        }
        let mut l: Vec<i32> = (0..nodes_n as i32).collect();
        r.shuffle(&mut l);
        l.truncate(r.below(nodes_n + 1));
        if r.chance(1, 3) {
            l.sort();
        }
        l
    };
    let mut nodes = vec![];
    for _ in 0..nodes_n {
        let mut x = MNode::default();
        let all = r.below(16);
        for i in 0..4 {
            if all >> i & 1 == 1 {
                x.id[i] = Some(n(r));
            }
        }
        if version < 7 {
            for i in 0..6 {
                if i != 4 || version >= 5 {
                    x.lists[i] = list(r);
                }
            }
        } else {
            x.lists[NAMES] = list(r);
            x.lists[REFS] = list(r);
            x.deps = list(r)
                .into_iter()
                .map(|d| {
                    let any = r.u32() as u8;
                    (d, *r.pick(&[0x80, 0x40, 0x02, 0x01, 0x10, 0x88, 0xFF, 0xC0, 0, any]))
                })
                .collect();
            x.manage = list(r).into_iter().map(|d| (d, r.bool())).collect();
        }
        nodes.push(x);
    }
    let mut pkgs = vec![];
    for _ in 0..r.below(if many { 60 } else { 5 }) {
        let any = r.u32() as i64;
        pkgs.push(MPkg {
            name: n(r),
            size: *r.pick(&[0, -1, 1 << 40, i64::MAX, any]),
            guid: r.bytes(16).try_into().unwrap(),
            md5: if version >= 6 && r.bool() { Some(r.bytes(16).try_into().unwrap()) } else { None },
        });
    }
    Model { version, names, assets, nodes, pkgs }
}
fn versions(hashes: bool) -> (ObjectVersion, ObjectVersionUE5) {
    versions_of(hashes, true)
}
/// `early`: the first version with hashes
fn versions_of(hashes: bool, early: bool) -> (ObjectVersion, ObjectVersionUE5) {
    (if hashes && early { ObjectVersion::VER_UE4_NAME_HASHES_SERIALIZED } else if hashes { ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG } else { ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG }, ObjectVersionUE5::UNKNOWN)
}
fn load(d: &[u8], hashes: bool) -> Result<AssetRegistryState, String> {
    let (ov, ov5) = versions_of(hashes, d.len() % 2 == 0);
    let mut rd = RawReader::<PackageIndex, _>::new(Chain::new(Cursor::new(d.to_vec()), None), ov, ov5, false, NameMap::new());
    AssetRegistryState::new(&mut rd).map_err(|e| e.to_string())
}
fn save(s: &AssetRegistryState) -> Result<Vec<u8>, String> {
    let mut c = Cursor::new(vec![]);
    s.write(&mut c).map_err(|e| e.to_string())?;
    Ok(c.into_inner())
}
/// The nodes a list refers to, by what the library itself writes for them.
fn indices(l: &[DependsNode]) -> Result<Vec<i32>, String> {
    let mut n = DependsNode::new(0, FAssetRegistryVersionType::RemovedMD5Hash);
    n.hard_dependencies = l.to_vec();
    let mut c = Cursor::new(vec![]);
    let (ov, ov5) = versions(true);
    n.save_dependencies_before_flags(&mut RawWriter::<PackageIndex, _>::new(&mut c, ov, ov5, false, NameMap::new())).map_err(|e| e.to_string())?;
    let b = c.into_inner();
    if b.len() != 21 + l.len() * 4 {
        return Err(format!("{} bytes are written for {} dependencies", b.len(), l.len()));
    }
    Ok(b[21..].chunks(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect())
}
fn nm_of(f: &FName, names: &[String]) -> Result<Nm, String> {
    match f {
        FName::Backed { index, number, .. } => {
            let t = f.get_content(|s| s.to_string());
            if names.get(*index as usize) != Some(&t) {
                return Err(format!("name {index} reads {t:?}, the table says {:?}", names.get(*index as usize)));
            }
            Ok((*index, *number))
        }
        FName::Dummy { .. } => Err("a name that belongs to no table".into()),
    }
}
fn opt(f: &Option<FName>, names: &[String]) -> Result<Option<Nm>, String> {
    f.as_ref().map(|x| nm_of(x, names)).transpose()
}
/// What the library says it has read, checked against the model.
fn same(s: &AssetRegistryState, m: &Model) -> Result<(), String> {
    if i32::from(s.get_version()) != m.version {
        return Err(format!("version {:?}", s.get_version()));
    }
    if (s.assets_data.len(), s.depends_nodes.len(), s.package_data.len()) != (m.assets.len(), m.nodes.len(), m.pkgs.len()) {
        return Err(format!("{} assets, {} nodes, {} packages; there are {}, {}, {}", s.assets_data.len(), s.depends_nodes.len(), s.package_data.len(), m.assets.len(), m.nodes.len(), m.pkgs.len()));
    }
    let n = &m.names;
    for (i, (a, w)) in s.assets_data.iter().zip(&m.assets).enumerate() {
        let class = a.asset_class.as_ref().ok_or(format!("asset {i} has no class"))?;
        let g = MAsset {
            n: [nm_of(&a.object_path, n)?, nm_of(&a.package_path, n)?, nm_of(class, n)?, nm_of(&a.package_name, n)?, nm_of(&a.asset_name, n)?],
            tags: a.tags_and_values.iter().map(|(_, k, v)| Ok((nm_of(k, n)?, v.clone()))).collect::<Result<_, String>>()?,
            chunks: a.chunk_ids.clone(),
            flags: a.package_flags.bits(),
        };
        if g != *w {
            return Err(format!("asset {i} is {g:?}, it should be {w:?}"));
        }
        for (k, v) in a.tags_and_values.iter().map(|(_, k, v)| (k, v)) {
            if a.tags_and_values.get_by_key(k) != Some(v) {
                return Err(format!("tag {k:?} of asset {i} is not found by its name"));
            }
        }
    }
    for (i, (a, w)) in s.depends_nodes.iter().zip(&m.nodes).enumerate() {
        let d = &a.identifier;
        let id = [opt(&d.package_name, n)?, opt(&d.primary_asset_type, n)?, opt(&d.object_name, n)?, opt(&d.value_name, n)?];
        if id != w.id {
            return Err(format!("node {i} is called {id:?}, it should be {:?}", w.id));
        }
        if indices(std::slice::from_ref(a))? != [i as i32] {
            return Err(format!("node {i} is written as another one"));
        }
        let mut g = [
            indices(&a.hard_dependencies)?,
            indices(&a.soft_dependencies)?,
            indices(&a.name_dependencies)?,
            indices(&a.soft_manage_dependencies)?,
            indices(&a.hard_manage_dependencies)?,
            indices(&a.referencers)?,
        ];
        if m.version < 7 {
            if g != w.lists {
                return Err(format!("lists of node {i} are {g:?}, they should be {:?}", w.lists));
            }
            continue;
        }
        g.iter_mut().for_each(|l| l.sort());
        // a dependency with any set of properties that includes "hard" but not the usual one may be either
        let usual: Vec<i32> = w.deps.iter().filter(|d| d.1 & 0x80 != 0).map(|d| d.0).collect();
        let hard: Vec<i32> = w.deps.iter().filter(|d| d.1 & 0xAA != 0).map(|d| d.0).collect();
        if usual.iter().any(|x| !g[0].contains(x)) || g[0].iter().any(|x| !hard.contains(x)) {
            return Err(format!("hard dependencies of node {i} are {:?} of {:x?}", g[0], w.deps));
        }
        let mut rest: Vec<i32> = w.deps.iter().map(|d| d.0).filter(|x| !g[0].contains(x)).collect();
        rest.sort();
        let sorted = |mut l: Vec<i32>| {
            l.sort();
            l
        };
        let direct = sorted(w.manage.iter().filter(|d| d.1).map(|d| d.0).collect());
        let indirect = sorted(w.manage.iter().filter(|d| !d.1).map(|d| d.0).collect());
        if g[0].len() + rest.len() != w.deps.len() || g[1] != rest || g[4] != direct || g[3] != indirect {
            return Err(format!("dependencies of node {i} are {g:?}, they should be {:x?} and {:?}", w.deps, w.manage));
        }
        if g[2] != sorted(w.lists[NAMES].clone()) || g[5] != sorted(w.lists[REFS].clone()) {
            return Err(format!("names and referencers of node {i} are {:?}, {:?}, they should be {:?}, {:?}", g[2], g[5], w.lists[NAMES], w.lists[REFS]));
        }
    }
    for (i, (a, w)) in s.package_data.iter().zip(&m.pkgs).enumerate() {
        let g = MPkg { name: nm_of(&a.package_name, n)?, size: a.disk_size, guid: a.package_guid.0, md5: a.cooked_hash.as_ref().and_then(|h| h.hash) };
        if g != *w || a.cooked_hash.is_some() != (m.version >= 6) {
            return Err(format!("package {i} is {g:?}, it should be {w:?}"));
        }
    }
    Ok(())
}
fn written(o: &mut Obs, s: &AssetRegistryState, m: &Model, hashes: bool, what: &str) -> Result<Vec<u8>, Fail> {
    let out = nopanic("panic", || format!("writing {what}"), || save(s))?;
    let out = match out {
        Ok(x) => x,
        Err(e) => return fail("write", format!("{what} (version {}) is not written: {e}", m.version)),
    };
    let d = match decode(&out, hashes) {
        Ok(x) => x,
        Err(e) => return fail("written", format!("{what} (version {}) is written as no registry: {e}", m.version)),
    };
    o.ev(1);
    if d.normal() != m.normal() {
        return fail("written", format!("{what} is written with another content:\n{:?}\n{:?}", d.normal(), m.normal()));
    }
    Ok(out)
}
fn case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let mut m = gen(r);
    let hashes = r.chance(3, 4);
    let pad = if r.chance(1, 4) { r.below(9) } else { 0 };
    let file = m.encode(hashes, pad);
    let s = match nopanic("panic", || format!("reading a registry of version {}", m.version), || load(&file, hashes))? {
        Ok(s) => s,
        Err(e) => return fail("refused", format!("a registry of version {} with {} nodes is refused: {e}", m.version, m.nodes.len())),
    };
    if let Err(e) = same(&s, &m) {
        return fail("read", e);
    }
    o.ev((m.assets.len() + m.nodes.len() + m.pkgs.len()) as u64);
    let out = written(&mut o, &s, &m, hashes, "a registry as read")?;
    if m.version < 7 && out != file {
        return fail("bytes", format!("a registry of version {} is not written as it was", m.version));
    }
    // changes
    let mut s = match nopanic("panic", || "reading what was written".into(), || load(&out, hashes))? {
        Ok(s) => s,
        Err(e) => return fail("refused", format!("what the library wrote is refused: {e}")),
    };
    if let Err(e) = same(&s, &m) {
        return fail("reread", e);
    }
    let mut kinds = String::new();
    for _ in 0..r.below(5) {
        match r.below(8) {
            0 if !m.assets.is_empty() => {
                // a new asset with a name of its own
                let i = r.below(m.assets.len());
                let mut a = s.assets_data[i].clone();
                let mut w = m.assets[i].clone();
                let text = if r.chance(1, 3) { r.pick(&m.names).clone() } else { format!("/Game/New{}", r.u32()) };
                let at = s.add_fname(&text);
                let want = m.names.iter().position(|x| *x == text).unwrap_or(m.names.len());
                if at as usize != want {
                    return fail("add-name", format!("{text:?} is added as {at}, it should be {want}"));
                }
                if want == m.names.len() {
                    m.names.push(text);
                }
                let FName::Backed { name_map, .. } = a.object_path.clone() else { return fail("read", "a name without table") };
                let num = r.below(3) as i32;
                a.object_path = FName::new(at, num, name_map);
                w.n[0] = (at, num);
                s.assets_data.push(a);
                m.assets.push(w);
                kinds.push('a');
            }
            1 if !m.assets.is_empty() => {
                let i = r.below(m.assets.len());
                s.assets_data.remove(i);
                m.assets.remove(i);
                kinds.push('r');
            }
            2 if !m.assets.is_empty() => {
                let i = r.below(m.assets.len());
                let v = r.i32();
                s.assets_data[i].chunk_ids.push(v);
                m.assets[i].chunks.push(v);
                let f = r.u32() & FLAGS;
                s.assets_data[i].package_flags = EPackageFlags::from_bits(f).unwrap_or(EPackageFlags::PKG_NONE);
                m.assets[i].flags = f;
                kinds.push('c');
            }
            3 if m.assets.iter().any(|a| !a.tags.is_empty()) => {
                let i = (0..m.assets.len()).find(|i| !m.assets[*i].tags.is_empty()).unwrap();
                let t = r.below(m.assets[i].tags.len());
                let key = s.assets_data[i].tags_and_values.iter().nth(t).map(|(_, k, _)| k.clone()).unwrap();
                let v = format!("value {}", r.u32());
                *s.assets_data[i].tags_and_values.get_by_key_mut(&key).unwrap() = Some(v.clone());
                m.assets[i].tags[t].1 = Some(v);
                kinds.push('t');
            }
            4 if !m.pkgs.is_empty() => {
                let i = r.below(m.pkgs.len());
                let v = r.u64() as i64;
                s.package_data[i].disk_size = v;
                m.pkgs[i].size = v;
                if m.version >= 6 {
                    let h: [u8; 16] = r.bytes(16).try_into().unwrap();
                    s.package_data[i].cooked_hash.as_mut().unwrap().hash = Some(h);
                    m.pkgs[i].md5 = Some(h);
                }
                kinds.push('p');
            }
            5 if !m.pkgs.is_empty() => {
                let i = r.below(m.pkgs.len());
                s.package_data.remove(i);
                m.pkgs.remove(i);
                kinds.push('q');
            }
            6 if !m.nodes.is_empty() => {
                // another referencer, and a name of the node taken away
                let (i, j) = (r.below(m.nodes.len()), r.below(m.nodes.len()));
                if !m.nodes[i].lists[REFS].contains(&(j as i32)) {
                    let n = s.depends_nodes[j].clone();
                    s.depends_nodes[i].referencers.push(n);
                    m.nodes[i].lists[REFS].push(j as i32);
                }
                s.depends_nodes[i].identifier.value_name = None;
                m.nodes[i].id[3] = None;
                kinds.push('n');
            }
            7 if !m.nodes.is_empty() && m.version < 7 => {
                let (i, j, l) = (r.below(m.nodes.len()), r.below(m.nodes.len()), r.below(4));
                let n = s.depends_nodes[j].clone();
                let x = &mut s.depends_nodes[i];
                let to = [&mut x.hard_dependencies, &mut x.soft_dependencies, &mut x.name_dependencies, &mut x.soft_manage_dependencies];
                to.into_iter().nth(l).unwrap().push(n);
                m.nodes[i].lists[l].push(j as i32);
                kinds.push('d');
            }
            _ => {}
        }
    }
    if !kinds.is_empty() {
        let out = written(&mut o, &s, &m, hashes, "a changed registry")?;
        match nopanic("panic", || "reading a changed registry".into(), || load(&out, hashes))? {
            Ok(s) => {
                if let Err(e) = same(&s, &m) {
                    return fail("reread", format!("after changes: {e}"));
                }
            }
            Err(e) => return fail("refused", format!("a changed registry is refused: {e}")),
        }
    }
    let k: std::collections::BTreeSet<char> = kinds.chars().collect();
    o.class(format!("version {}, {}{} nodes, changes {:?}", m.version, if hashes { "hashes, " } else { "" }, m.nodes.len().min(3), k.iter().take(1).collect::<String>()));
    if !m.nodes.is_empty() || !m.assets.is_empty() {
        o.nontrivial(&file);
    }
    Ok(o)
}
fn hostile(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let mut m = gen(r);
    if r.chance(1, 3) {
        m.version = r.range(8, 14) as i32;
    }
    let hashes = r.bool();
    let mut d = m.encode(hashes, 0);
    let what = match r.below(4) {
        0 => {
            d.truncate(r.below(d.len()));
            "cut"
        }
        1 => {
            for _ in 0..r.range(1, 6) {
                let i = r.below(d.len());
                let any = r.u32() as u8;
                d[i] = *r.pick(&[0, 1, 0x7F, 0x80, 0xFF, any]);
            }
            "bytes"
        }
        _ => {
            for _ in 0..r.range(1, 3) {
                let i = r.below(d.len() - 8);
                let v = *r.pick(&[-1i32, i32::MIN, i32::MAX, 0x0FFF_FFFF, 0x00FF_FFFF, 0, 100_000]);
                d[i..i + 4].copy_from_slice(&v.to_le_bytes());
                if r.bool() {
                    d[i + 4..i + 8].copy_from_slice(&v.to_le_bytes());
                }
            }
            "numbers"
        }
    };
    let len = d.len();
    let cap = (8 << 20) + len * 2000;
    let s = nopanic("panic", || format!("reading {len} damaged bytes ({what})"), || with_alloc_cap(cap, || load(&d, hashes)))?;
    o.ev(1);
    if let Ok(s) = &s {
        nopanic("panic", || format!("writing what was read from damaged bytes ({what})"), || save(s).map(|x| x.len()))?.ok();
        o.ev(1);
    }
    o.class(format!("{what}, version {}, {}", m.version.min(8), if s.is_ok() { "read" } else { "refused" }));
    o.nontrivial(&d);
    Ok(o)
}
pub fn r01(c: &Ctx) {
    c.rule("Registries of versions 4 to 7 with names, tags, dependency nodes and packages are encoded by an own encoder; what is read is compared with the model, what is written (also after changes) with an own decoder; damaged ones must end without a panic or a huge allocation; non-trivial = at least one asset or node, or damaged.");
    c.assume("a dependency with a hard set of properties other than hard+game+build may be listed as hard or as soft");
    c.cases("registries", c.n(60_000, 1_500_000), |r, _| case(r));
    c.cases("damaged", c.n(100_000, 2_000_000), |r, _| hostile(r));
}
