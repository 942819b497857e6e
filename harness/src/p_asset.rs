//! An independent encoder of cooked packages (.uasset/.uexp): random package
//! models, their canonical bytes, a comparison of a loaded `Asset` with the
//! model, and edits applied to both.
use crate::arch::*;
use crate::core::*;
use crate::p_base::{ref_fstring, ref_name_hash};
use crate::p_kismet::K;
use crate::p_tags::{model_words, same, same_list, want_name, Body, Enc, Model, Node, Str, Val, N};
use std::collections::HashMap;
use std::io::Cursor;
use std::sync::Arc;
use unreal_asset::exports::*;
use unreal_asset::fproperty::{FGenericProperty, FProperty};
use unreal_asset::uproperty::{UGenericProperty, UProperty};
use unreal_asset::{Asset, Export, Import};
use unreal_asset_base::containers::{IndexedMap, NameMap};
use unreal_asset_base::custom_version::*;
use unreal_asset_base::engine_version::EngineVersion;
use unreal_asset_base::flags::*;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::types::fname::ToSerializedName;
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::Guid;
use unreal_asset_properties::Property;

pub type Bytes = Vec<u8>;
/// little-endian output
#[derive(Default, Clone)]
pub struct W(pub Bytes);
impl W {
    pub fn i32(&mut self, v: i32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u32(&mut self, v: u32) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u16(&mut self, v: u16) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn i64(&mut self, v: i64) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u64(&mut self, v: u64) -> &mut Self {
        self.0.extend(v.to_le_bytes());
        self
    }
    pub fn u8(&mut self, v: u8) -> &mut Self {
        self.0.push(v);
        self
    }
    pub fn b(&mut self, v: &[u8]) -> &mut Self {
        self.0.extend_from_slice(v);
        self
    }
    pub fn name(&mut self, n: N) -> &mut Self {
        self.i32(n.0).i32(n.1)
    }
    pub fn s(&mut self, v: Option<&str>) -> &mut Self {
        self.0.extend(ref_fstring(v));
        self
    }
    pub fn idx(&mut self, v: &[i32]) -> &mut Self {
        self.i32(v.len() as i32);
        for i in v {
            self.i32(*i);
        }
        self
    }
    pub fn flag(&mut self, v: bool) -> &mut Self {
        self.i32(v as i32)
    }
}

#[derive(Clone, Debug)]
pub struct FP {
    pub ty: String,
    pub name: N,
    pub flags: u32,
    pub dim: i32,
    pub size: i32,
    pub pflags: u64,
    pub rep: u16,
    pub notify: N,
    pub cond: u8,
    pub idx: Vec<i32>,
    pub inner: Vec<FP>,
    pub boolean: [u8; 6],
}
#[derive(Clone, Debug)]
pub struct UP {
    pub next: Option<i32>,
    pub dim: i32,
    pub pflags: u64,
    pub notify: N,
    pub cond: Option<u8>,
    pub idx: Vec<i32>,
}
#[derive(Clone, Debug)]
pub struct StructM {
    pub next: Option<i32>,
    pub sup: i32,
    pub children: Vec<i32>,
    pub fields: Option<Vec<FP>>,
    pub code: Code,
}
/// a script: expressions (bytes and size in memory) when it is one that gets parsed, else size and bytes
#[derive(Clone, Debug)]
pub enum Code {
    Parsed(Vec<(Bytes, i32)>),
    Raw(i32, Bytes),
}
#[derive(Clone, Debug)]
pub struct ClassM {
    pub funcs: Vec<(N, i32)>,
    pub flags: u32,
    pub within: i32,
    pub config: N,
    pub ifaces: Vec<(i32, i32, bool)>,
    pub generated_by: i32,
    pub force: bool,
    pub cooked: bool,
    pub cdo: i32,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Normal,
    Raw(Bytes),
    StringTable(Option<String>, Vec<(String, String)>),
    DataTable(Vec<(N, Vec<Node>)>),
    /// rows of a struct that has a layout of its own
    Rows(Vec<(N, Str)>),
    Enum(Vec<(N, i64)>, u8),
    Level { actors: Vec<i32>, url: [Option<String>; 4], options: Vec<Option<String>>, port: i32, valid: i32, model: i32, comps: Vec<i32>, script: i32, nav: [i32; 2] },
    World(i32, Vec<i32>, Vec<i32>),
    Function(StructM, u32),
    UserStruct(StructM, u32, Vec<Node>),
    Class(StructM, ClassM),
    Prop(String, UP),
}
#[derive(Clone, Debug)]
pub struct Exp {
    pub class: i32,
    pub sup: i32,
    pub template: i32,
    pub outer: i32,
    pub name: N,
    pub flags: u32,
    pub forced: bool,
    pub not_client: bool,
    pub not_server: bool,
    pub guid: [u8; 16],
    pub inherited: bool,
    pub pkg_flags: u32,
    pub not_always: bool,
    pub is_asset: bool,
    pub gen_hash: bool,
    pub deps: [Vec<i32>; 4],
    pub list: Vec<Node>,
    pub kind: Kind,
    pub extras: Bytes,
}
#[derive(Clone, Debug)]
pub struct Imp {
    pub package: N,
    pub class: N,
    pub outer: i32,
    pub name: N,
    pub optional: bool,
}
#[derive(Clone, Debug)]
pub struct Tile {
    pub pos: [i32; 3],
    pub bounds: [f64; 6],
    pub valid: u8,
    pub layer: Option<String>,
    pub reserved: [i32; 3],
    pub dist: i32,
    pub enabled: bool,
    pub hidden: bool,
    pub parent: Option<String>,
    pub lods: Vec<(i32, f32, f32, i32, i32)>,
    pub z: i32,
}
pub type EV = (u16, u16, u16, u32, Option<String>);
#[derive(Clone)]
pub struct Pkg {
    pub cf: Cfg,
    pub legacy: i32,
    pub unversioned: bool,
    pub licensee: i32,
    pub customs: Vec<([u8; 16], i32)>,
    pub folder: String,
    pub flags: u32,
    pub zero_hash: Vec<String>,
    pub imports: Vec<Imp>,
    pub exports: Vec<Exp>,
    pub depends: Option<Vec<Vec<i32>>>,
    pub soft: Option<Vec<String>>,
    pub guid: [u8; 16],
    pub generations: usize,
    pub recorded: EV,
    pub compatible: EV,
    pub compression: u32,
    pub source: u32,
    pub registry: bool,
    pub tile: Option<Tile>,
    pub chunks: Vec<i32>,
    pub names_referenced: i32,
    pub toc: i64,
    pub resource: i32,
    /// names that stand for nothing special
    pub words: Vec<i32>,
}

use ObjectVersion as V;
use ObjectVersionUE5 as V5;
impl Pkg {
    fn ge(&self, v: V) -> bool {
        self.cf.ov as i32 >= v as i32
    }
    fn ge5(&self, v: V5) -> bool {
        self.cf.ov5 as i32 >= v as i32
    }
    fn cv(&self, n: &str) -> i32 {
        self.cf.cv(n)
    }
    pub fn names(&self) -> Vec<String> {
        self.cf.names.get_ref().get_name_map_index_list().to_vec()
    }
    fn fprop(&self, w: &mut W, f: &FP) {
        w.name((self.cf.name_idx(&f.ty), 0)).name(f.name).u32(f.flags).i32(f.dim).i32(f.size).u64(f.pflags).u16(f.rep).name(f.notify).u8(f.cond);
        for i in &f.idx {
            w.i32(*i);
        }
        if f.ty == "BoolProperty" {
            w.b(&f.boolean);
        }
        for i in &f.inner {
            self.fprop(w, i);
        }
    }
    fn structure(&self, w: &mut W, s: &StructM) {
        w.i32(0);
        if let Some(n) = s.next {
            w.i32(n);
        }
        w.i32(s.sup).idx(&s.children);
        if let Some(f) = &s.fields {
            w.i32(f.len() as i32);
            for f in f {
                self.fprop(w, f);
            }
        }
        let (mem, code) = match &s.code {
            Code::Raw(m, c) => (*m, c.clone()),
            Code::Parsed(v) => (v.iter().map(|e| e.1).sum(), v.concat_bytes()),
        };
        w.i32(mem).i32(code.len() as i32).b(&code);
    }
    fn body(&self, e: &Exp) -> Bytes {
        let enc = Enc { cf: &self.cf };
        let mut w = W::default();
        if let Kind::Raw(b) = &e.kind {
            return b.clone();
        }
        w.b(&enc.list(&e.list));
        match &e.kind {
            Kind::Normal | Kind::Raw(_) => {}
            Kind::StringTable(ns, rows) => {
                w.i32(0).s(ns.as_deref()).i32(rows.len() as i32);
                for (k, v) in rows {
                    w.s(Some(k)).s(Some(v));
                }
            }
            Kind::DataTable(rows) => {
                w.i32(0).i32(rows.len() as i32);
                for (n, l) in rows {
                    w.name(*n).b(&enc.list(l));
                }
            }
            Kind::Rows(rows) => {
                w.i32(0).i32(rows.len() as i32);
                for (n, s) in rows {
                    w.name(*n).b(&enc.payload(&Val::Struct(s.clone()), *n));
                }
            }
            Kind::Enum(names, form) => {
                w.i32(0).i32(names.len() as i32);
                for (n, i) in names {
                    w.name(*n);
                    if self.ge(V::VER_UE4_TIGHTLY_PACKED_ENUMS) {
                        if self.cv(FCoreObjectVersion::FRIENDLY_NAME) >= FCoreObjectVersion::EnumProperties as i32 {
                            w.i64(*i);
                        } else {
                            w.u8(*i as u8);
                        }
                    }
                }
                if self.ge(V::VER_UE4_ENUM_CLASS_SUPPORT) {
                    w.u8(*form);
                } else {
                    w.i32(*form as i32);
                }
            }
            Kind::Level { actors, url, options, port, valid, model, comps, script, nav } => {
                w.i32(0).idx(actors);
                for u in url {
                    w.s(u.as_deref());
                }
                w.i32(options.len() as i32);
                for u in options {
                    w.s(u.as_deref());
                }
                w.i32(*port).i32(*valid).i32(*model).idx(comps).i32(*script).i32(nav[0]).i32(nav[1]);
            }
            Kind::World(p, a, b) => {
                w.i32(0).i32(*p).idx(a).idx(b);
            }
            Kind::Function(s, f) => {
                self.structure(&mut w, s);
                w.u32(*f);
            }
            Kind::UserStruct(s, f, l) => {
                self.structure(&mut w, s);
                w.u32(*f).b(&enc.list(l));
            }
            Kind::Class(s, c) => {
                self.structure(&mut w, s);
                w.i32(c.funcs.len() as i32);
                for (n, i) in &c.funcs {
                    w.name(*n).i32(*i);
                }
                w.u32(c.flags).i32(c.within).name(c.config);
                let ifs = |w: &mut W| {
                    w.i32(c.ifaces.len() as i32);
                    for (a, b, k) in &c.ifaces {
                        w.i32(*a).i32(*b).flag(*k);
                    }
                };
                if self.ge(V::VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING) {
                    w.i32(c.generated_by);
                    ifs(&mut w);
                } else {
                    ifs(&mut w);
                    w.i32(c.generated_by);
                }
                w.flag(c.force).name((self.cf.none, 0));
                if self.ge(V::VER_UE4_ADD_COOKED_TO_UCLASS) {
                    w.flag(c.cooked);
                }
                w.i32(c.cdo);
            }
            Kind::Prop(_, u) => {
                w.i32(0);
                if let Some(n) = u.next {
                    w.i32(n);
                }
                w.i32(u.dim).u64(u.pflags).name(u.notify);
                if let Some(c) = u.cond {
                    w.u8(c);
                }
                for i in &u.idx {
                    w.i32(*i);
                }
            }
        }
        w.b(&e.extras);
        w.0
    }
    fn engine(&self, w: &mut W, e: &EV) {
        w.u16(e.0).u16(e.1).u16(e.2).u32(e.3).s(e.4.as_deref());
    }
    pub fn bodies(&self) -> Vec<Bytes> {
        self.exports.iter().map(|e| self.body(e)).collect()
    }
    /// canonical bytes: main file and, for split packages, the export file
    pub fn encode(&self) -> (Bytes, Option<Bytes>) {
        let bodies: Vec<Bytes> = self.exports.iter().map(|e| self.body(e)).collect();
        let names = self.names();
        let edl = self.cf.edl;
        // offsets: [header, name, import, export, depends, soft, registry, tile, preload, total, bulk]
        let mut off = [0i64; 11];
        let mut w = W::default();
        for pass in 0..2 {
            w = W::default();
            w.b(&[0xc1, 0x83, 0x2a, 0x9e]).i32(self.legacy);
            if self.legacy != -4 {
                w.i32(if self.unversioned { 0 } else { 864 });
            }
            w.i32(if self.unversioned { 0 } else { self.cf.ov as i32 });
            if self.legacy <= -8 {
                w.i32(if self.unversioned { 0 } else { self.cf.ov5 as i32 });
            }
            w.i32(self.licensee).i32(self.customs.len() as i32);
            for (g, v) in &self.customs {
                w.b(g).i32(*v);
            }
            w.i32(off[0] as i32).s(Some(&self.folder)).u32(self.flags);
            w.i32(names.len() as i32).i32(off[1] as i32);
            if self.ge5(V5::ADD_SOFTOBJECTPATH_LIST) {
                w.i32(0).i32(0);
            }
            if self.ge(V::VER_UE4_SERIALIZE_TEXT_IN_PACKAGES) {
                w.i32(0).i32(0);
            }
            w.i32(self.exports.len() as i32).i32(off[3] as i32).i32(self.imports.len() as i32).i32(off[2] as i32).i32(off[4] as i32);
            if self.ge(V::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP) {
                w.i32(self.soft.as_ref().map(|s| s.len()).unwrap_or(0) as i32).i32(off[5] as i32);
            }
            if self.ge(V::VER_UE4_ADDED_SEARCHABLE_NAMES) {
                w.i32(0);
            }
            w.i32(0).b(&self.guid).i32(self.generations as i32);
            for _ in 0..self.generations {
                w.i32(self.exports.len() as i32).i32(names.len() as i32);
            }
            if self.ge(V::VER_UE4_ENGINE_VERSION_OBJECT) {
                self.engine(&mut w, &self.recorded);
            } else {
                w.u32(self.recorded.3);
            }
            if self.ge(V::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION) {
                self.engine(&mut w, &self.compatible);
            }
            w.u32(self.compression).i32(0).u32(self.source).i32(0);
            if self.legacy > -7 {
                w.i32(0);
            }
            w.i32(off[6] as i32).i64(off[10]);
            if self.ge(V::VER_UE4_WORLD_LEVEL_INFO) {
                w.i32(off[7] as i32);
            }
            if self.ge(V::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) {
                w.idx(&self.chunks);
            } else if self.ge(V::VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE) {
                w.i32(self.chunks.first().copied().unwrap_or(0));
            }
            if self.ge(V::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS) {
                let n: usize = self.exports.iter().flat_map(|e| &e.deps).map(|d| d.len()).sum();
                w.i32(if edl { n as i32 } else { -1 }).i32(off[8] as i32);
            }
            if self.ge5(V5::NAMES_REFERENCED_FROM_EXPORT_DATA) {
                w.i32(self.names_referenced);
            }
            if self.ge5(V5::PAYLOAD_TOC) {
                w.i64(self.toc);
            }
            if self.ge5(V5::DATA_RESOURCES) {
                w.i32(self.resource);
            }
            // names
            off[1] = w.0.len() as i64;
            for n in &names {
                w.s(Some(n));
                if self.ge(V::VER_UE4_NAME_HASHES_SERIALIZED) {
                    w.u32(if self.zero_hash.contains(n) { 0 } else { ref_name_hash(n) });
                }
            }
            off[2] = if self.imports.is_empty() { 0 } else { w.0.len() as i64 };
            for i in &self.imports {
                w.name(i.package).name(i.class).i32(i.outer).name(i.name);
                if self.ge5(V5::OPTIONAL_RESOURCES) {
                    w.flag(i.optional);
                }
            }
            off[3] = if self.exports.is_empty() { 0 } else { w.0.len() as i64 };
            let mut at = off[9];
            let mut first = 0;
            for (e, b) in self.exports.iter().zip(&bodies) {
                w.i32(e.class).i32(e.sup);
                if self.ge(V::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS) {
                    w.i32(e.template);
                }
                w.i32(e.outer).name(e.name).u32(e.flags);
                if self.ge(V::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES) {
                    w.i64(b.len() as i64).i64(at);
                } else {
                    w.i32(b.len() as i32).i32(at as i32);
                }
                at += b.len() as i64;
                w.flag(e.forced).flag(e.not_client).flag(e.not_server);
                if !self.ge5(V5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID) {
                    w.b(&e.guid);
                }
                if self.ge5(V5::TRACK_OBJECT_EXPORT_IS_INHERITED) {
                    w.flag(e.inherited);
                }
                w.u32(e.pkg_flags);
                if self.ge(V::VER_UE4_LOAD_FOR_EDITOR_GAME) {
                    w.flag(e.not_always);
                }
                if self.ge(V::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT) {
                    w.flag(e.is_asset);
                }
                if self.ge5(V5::OPTIONAL_RESOURCES) {
                    w.flag(e.gen_hash);
                }
                if self.ge(V::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS) {
                    w.i32(if edl { first } else { -1 });
                    for d in &e.deps {
                        w.i32(d.len() as i32);
                        first += d.len() as i32;
                    }
                }
            }
            off[4] = 0;
            if let Some(d) = &self.depends {
                off[4] = w.0.len() as i64;
                for i in 0..self.exports.len() {
                    w.idx(d.get(i).map(|v| &v[..]).unwrap_or(&[]));
                }
            }
            off[5] = 0;
            if let Some(s) = &self.soft {
                off[5] = w.0.len() as i64;
                for s in s {
                    w.s((!s.is_empty()).then_some(s));
                }
            }
            off[6] = 0;
            if self.registry {
                off[6] = w.0.len() as i64;
                w.i32(0);
            }
            off[7] = 0;
            if let Some(t) = &self.tile {
                off[7] = w.0.len() as i64;
                w.i32(t.pos[0]).i32(t.pos[1]);
                if self.cv(FFortniteMainBranchObjectVersion::FRIENDLY_NAME) >= FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset as i32 {
                    w.i32(t.pos[2]);
                }
                for b in t.bounds {
                    if self.ge5(V5::LARGE_WORLD_COORDINATES) {
                        w.b(&b.to_le_bytes());
                    } else {
                        w.b(&(b as f32).to_le_bytes());
                    }
                }
                w.u8(t.valid).s(t.layer.as_deref());
                for i in t.reserved {
                    w.i32(i);
                }
                if self.ge(V::VER_UE4_WORLD_LEVEL_INFO_UPDATED) {
                    w.i32(t.dist);
                }
                if self.ge(V::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING) {
                    w.flag(t.enabled);
                }
                if self.ge(V::VER_UE4_WORLD_LEVEL_INFO_UPDATED) {
                    w.flag(t.hidden).s(t.parent.as_deref());
                }
                if self.ge(V::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST) {
                    w.i32(t.lods.len() as i32);
                    for l in &t.lods {
                        w.i32(l.0).b(&l.1.to_le_bytes()).b(&l.2.to_le_bytes()).i32(l.3).i32(l.4);
                    }
                }
                if self.ge(V::VER_UE4_WORLD_LEVEL_INFO_ZORDER) {
                    w.i32(t.z);
                }
            }
            off[8] = w.0.len() as i64;
            if edl {
                for d in self.exports.iter().flat_map(|e| &e.deps).flatten() {
                    w.i32(*d);
                }
            }
            off[9] = w.0.len() as i64;
            off[0] = if self.exports.is_empty() { 0 } else { off[9] };
            off[10] = off[9] + bodies.iter().map(|b| b.len() as i64).sum::<i64>();
            let _ = pass;
        }
        let mut tail = bodies.concat();
        tail.extend([0xc1, 0x83, 0x2a, 0x9e]);
        if edl {
            (w.0, Some(tail))
        } else {
            w.b(&tail);
            (w.0, None)
        }
    }
}

// ---------------------------------------------------------------- generation
pub fn idx(r: &mut Rng, p: (usize, usize)) -> i32 {
    let (i, e) = p;
    match r.below(5) {
        0 => 0,
        1 | 2 if e > 0 => 1 + r.below(e) as i32,
        _ if i > 0 => -1 - r.below(i) as i32,
        _ => 0,
    }
}
fn idxs(r: &mut Rng, p: (usize, usize)) -> Vec<i32> {
    (0..r.below(5)).map(|_| idx(r, p)).collect()
}
pub fn word(r: &mut Rng) -> String {
    match r.below(8) {
        0 => "ß漢Ω".chars().take(r.range(1, 4)).collect(),
        1 => "long ".repeat(r.range(1, 60)),
        _ => format!("{}{}", r.pick(&["/Game/Maps/", "Rock", "x", "Script", "A b "]), r.below(1000)),
    }
}
pub fn opt(r: &mut Rng) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => Some(String::new()),
        _ => Some(word(r)),
    }
}
pub fn guid(r: &mut Rng) -> [u8; 16] {
    let mut g = [0; 16];
    if r.bool() {
        g.copy_from_slice(&r.bytes(16));
    }
    g
}
pub fn num(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => 0,
        1 => r.below(100) as i32,
        2 => -1,
        _ => r.u64() as i32,
    }
}
fn engine(r: &mut Rng) -> EV {
    (r.below(6) as u16, r.below(30) as u16, r.u64() as u16, r.u64() as u32, opt(r))
}
const FIELD: &[(&str, usize, usize)] = &[
    // type, object references, inner fields
    ("ArrayProperty", 0, 1),
    ("SetProperty", 0, 1),
    ("ObjectProperty", 1, 0),
    ("SoftObjectProperty", 1, 0),
    ("ClassProperty", 2, 0),
    ("SoftClassProperty", 2, 0),
    ("DelegateProperty", 1, 0),
    ("MulticastDelegateProperty", 1, 0),
    ("MulticastInlineDelegateProperty", 1, 0),
    ("InterfaceProperty", 1, 0),
    ("MapProperty", 0, 2),
    ("BoolProperty", 0, 0),
    ("ByteProperty", 1, 0),
    ("StructProperty", 1, 0),
    ("NumericProperty", 0, 0),
    ("EnumProperty", 1, 1),
    ("IntProperty", 0, 0),
    ("FloatProperty", 0, 0),
    ("StrProperty", 0, 0),
    ("NameProperty", 0, 0),
    ("TextProperty", 0, 0),
];
const UFIELD: &[(&str, usize)] = &[
    ("EnumProperty", 2),
    ("ArrayProperty", 1),
    ("SetProperty", 1),
    ("ObjectProperty", 1),
    ("SoftObjectProperty", 1),
    ("LazyObjectProperty", 1),
    ("ClassProperty", 2),
    ("SoftClassProperty", 2),
    ("DelegateProperty", 1),
    ("MulticastDelegateProperty", 1),
    ("MulticastInlineDelegateProperty", 1),
    ("InterfaceProperty", 1),
    ("MapProperty", 2),
    ("ByteProperty", 1),
    ("StructProperty", 1),
    ("DoubleProperty", 0),
    ("FloatProperty", 0),
    ("IntProperty", 0),
    ("Int8Property", 0),
    ("Int16Property", 0),
    ("Int64Property", 0),
    ("UInt8Property", 0),
    ("UInt16Property", 0),
    ("UInt64Property", 0),
    ("NameProperty", 0),
    ("StrProperty", 0),
    ("TextProperty", 0),
];
const COND: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16];
fn field(r: &mut Rng, cf: &Cfg, p: (usize, usize), d: usize) -> FP {
    let t = loop {
        let t = r.pick(FIELD);
        if d < 4 || t.2 == 0 {
            break t;
        }
    };
    // names that no tagged property uses: the types of map fields are remembered by name
    let name = (cf.name_idx(*r.pick(&["Fld0", "Fld1", "Fld2"])), *r.pick(&[0, 0, 1, 5]));
    FP {
        ty: t.0.into(),
        name,
        flags: r.u64() as u32 & EObjectFlags::all().bits(),
        dim: r.below(3) as i32,
        size: num(r),
        pflags: r.u64() & EPropertyFlags::all().bits(),
        rep: r.u64() as u16,
        notify: (cf.name_idx(*r.pick(&["None", "OnRep_X", "Fld1"])), *r.pick(&[0, 0, 2])),
        cond: *r.pick(COND),
        idx: (0..t.1).map(|_| idx(r, p)).collect(),
        inner: (0..t.2).map(|_| field(r, cf, p, d + 1)).collect(),
        boolean: [r.u64() as u8, r.u64() as u8, r.u64() as u8, r.u64() as u8, r.below(2) as u8, r.below(2) as u8],
    }
}
fn bytecode(r: &mut Rng, cf: &Cfg) -> Code {
    let parse = cf.ev >= EngineVersion::VER_UE4_16;
    if r.chance(1, 4) {
        // bytes that are no script stay as they are
        let n = r.range(0, 30);
        let mut b = vec![0xfe];
        b.extend(r.bytes(n));
        return Code::Raw(num(r), b);
    }
    let mut v = vec![];
    for _ in 0..r.below(6) {
        let mut k = K::new(cf, 8);
        k.expr(r, 0);
        if k.mem_known {
            v.push((k.out, k.mem as i32));
        }
    }
    match parse {
        true => Code::Parsed(v),
        false => Code::Raw(num(r), v.concat_bytes()),
    }
}
trait ConcatBytes {
    fn concat_bytes(&self) -> Bytes;
}
impl ConcatBytes for Vec<(Bytes, i32)> {
    fn concat_bytes(&self) -> Bytes {
        self.iter().flat_map(|e| e.0.clone()).collect()
    }
}
fn structure(r: &mut Rng, cf: &Cfg, p: (usize, usize)) -> StructM {
    let code = bytecode(r, cf);
    StructM {
        next: (cf.cv(FFrameworkObjectVersion::FRIENDLY_NAME) < FFrameworkObjectVersion::RemoveUfieldNext as i32).then(|| idx(r, p)),
        sup: idx(r, p),
        children: idxs(r, p),
        fields: (cf.cv(FCoreObjectVersion::FRIENDLY_NAME) >= FCoreObjectVersion::FProperties as i32)
            .then(|| (0..r.below(4)).map(|_| field(r, cf, p, 0)).collect()),
        code,
    }
}
pub fn mapped(m: &[(EngineVersion, i32)], ev: EngineVersion) -> Option<i32> {
    m.iter().filter(|(e, _)| *e <= ev).max_by_key(|(e, _)| *e).map(|(_, v)| *v)
}
macro_rules! customs {
    ($($t:ident),*) => {
        /// name, guid and engine table of the custom versions that readers ask for
        pub fn known_customs() -> Vec<(&'static str, [u8; 16], &'static [(EngineVersion, i32)])> {
            vec![$(($t::FRIENDLY_NAME, $t::GUID.0, $t::VERSION_MAPPINGS)),*]
        }
    };
}
customs!(
    FAnimPhysObjectVersion,
    FCoreObjectVersion,
    FEditorObjectVersion,
    FFortniteMainBranchObjectVersion,
    FFrameworkObjectVersion,
    FReleaseObjectVersion,
    FSequencerObjectVersion
);
pub fn engines() -> Vec<EngineVersion> {
    (EngineVersion::VER_UE4_0 as i32..=EngineVersion::VER_UE5_2 as i32).filter_map(|i| EngineVersion::try_from(i).ok()).collect()
}
/// a random package
pub fn pkg(r: &mut Rng, budget: usize) -> Pkg {
    let mut nm = NameMap::new();
    // any name may come first, or late
    if r.bool() {
        for _ in 0..r.range(1, 4) {
            let s = *r.pick(&["Root", "Actor", "ArrayProperty", "LinearColor", "/Script/Engine", "Fld1", "Vector", "RowStruct", "Class", "EColor::Red", "LowerBound"]);
            nm.get_mut().add_name_reference(s.into(), false);
        }
    }
    let none = nm.get_mut().add_name_reference("None".into(), false);
    let unversioned = r.chance(1, 4);
    let evs = engines();
    let (ev, ov, ov5, legacy);
    if unversioned {
        ev = *r.pick(&evs);
        (ov, ov5) = ref_object_versions(ev);
        legacy = if ov5 != V5::UNKNOWN { -8 } else { *r.pick(&[-6, -7]) };
    } else {
        let v = crate::p_prop::any_version(r);
        ov = if v.0 == V::UNKNOWN { V::VER_UE4_OLDEST_LOADABLE_PACKAGE } else { v.0 };
        ov5 = v.1;
        legacy = if ov5 != V5::UNKNOWN { -8 } else { *r.pick(&[-4, -5, -6, -7, -7]) };
        // the version given by the user need not match the one in the file
        ev = loop {
            let e = if r.chance(1, 4) { EngineVersion::UNKNOWN } else { *r.pick(&evs) };
            if (ov5 != V5::UNKNOWN) || e < EngineVersion::VER_UE5_0 {
                break e;
            }
        };
    }
    let mut customs = vec![];
    let mut cvs: HashMap<String, i32> = HashMap::new();
    for (n, g, m) in known_customs() {
        if ev != EngineVersion::UNKNOWN {
            if let Some(v) = mapped(m, ev) {
                cvs.insert(n.into(), v);
            }
        }
        if !unversioned && r.chance(2, 3) {
            let v = match r.below(3) {
                0 => 0,
                1 => r.below(70) as i32,
                _ => m.iter().map(|x| x.1).nth(r.below(m.len())).unwrap(),
            };
            customs.push((g, v));
            cvs.insert(n.into(), v);
        }
    }
    if !unversioned {
        for _ in 0..r.below(3) {
            let mut g = [0; 16];
            g.copy_from_slice(&r.bytes(16));
            customs.push((g, num(r)));
        }
        for i in (1..customs.len()).rev() {
            customs.swap(i, r.below(i + 1));
        }
    }
    let edl = ov as i32 >= V::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS as i32 && r.chance(2, 3);
    let mut cf = Cfg {
        ov,
        ov5,
        ev,
        edl,
        cv_seed: 0,
        cvs: Some(Arc::new(cvs)),
        names: nm,
        fname_words: vec![],
        none,
        imports: vec![],
        array_override: IndexedMap::from([("Keys".to_string(), "RichCurveKey".to_string())]),
        key_override: IndexedMap::from([("Tracks".to_string(), "MovieSceneTrackIdentifier".to_string())]),
        value_override: IndexedMap::from([("ColorDatabase".to_string(), "LinearColor".to_string())]),
        tracing: vec![],
    };
    crate::p_prop::seed_names(&mut cf);
    let n_exports = *r.pick(&[0, 1, 1, 2, 3, 5, 8]);
    // imports: one per class that is used, and some more
    let mut imports: Vec<Imp> = vec![];
    let mut class_of: HashMap<String, i32> = HashMap::new();
    let mut classes = vec![];
    for _ in 0..n_exports {
        let c = match r.below(14) {
            0 | 1 | 2 => *r.pick(&["Actor", "StaticMesh", "Wall_C", "Package"]),
            3 => "Raw",
            4 => *r.pick(&["StringTable", "MyStringTable"]),
            5 | 6 => *r.pick(&["DataTable", "FancyDataTable"]),
            7 => *r.pick(&["Enum", "UserDefinedEnum"]),
            8 => "Level",
            9 => "World",
            10 => "Function",
            11 => "UserDefinedStruct",
            12 => *r.pick(&["BlueprintGeneratedClass", "WidgetBlueprintGeneratedClass"]),
            _ => r.pick(UFIELD).0,
        };
        classes.push(c);
    }
    let mut used: Vec<&str> = classes.clone();
    used.push("MyRow");
    let row_type = *r.pick(ROW_TYPES);
    let raw_rows = r.chance(1, 3);
    if raw_rows {
        used.push(row_type);
    }
    used.extend((0..r.below(4)).map(|_| *r.pick(&["Core", "/Script/Engine", "Mesh"])));
    for u in &used {
        if !class_of.contains_key(*u) || r.chance(1, 5) {
            imports.push(Imp {
                package: (cf.name_idx(*r.pick(&["/Script/CoreUObject", "/Script/Engine"])), 0),
                class: (cf.name_idx(*r.pick(&["Class", "Package", "Function"])), *r.pick(&[0, 0, 1])),
                outer: num(r),
                name: (cf.name_idx(u), 0),
                optional: ov5 as i32 >= V5::OPTIONAL_RESOURCES as i32 && r.bool(),
            });
            class_of.insert(u.to_string(), -(imports.len() as i32));
        }
    }
    cf.imports = imports.iter().map(|i| cf.names.get_ref().create_fname(i.name.0, i.name.1)).collect();
    let p = (imports.len(), n_exports);
    let words = model_words(&cf);
    let mut exports = vec![];
    for c in &classes {
        let mut m = Model { cf: &cf, budget: r.range(0, budget), words: words.clone() };
        let mut list = m.list(r, 0);
        let mut extras = if r.chance(1, 3) { let n = r.range(1, 40); if r.bool() { vec![0; 4] } else { r.bytes(n) } } else { vec![] };
        let kind = match *c {
            "Raw" => {
                // starts with a name that does not exist
                let n = r.range(0, 60);
                let mut b = *r.pick(&[-1i32, i32::MAX, 1_000_000]);
                if r.bool() {
                    b = i32::MIN;
                }
                Kind::Raw(if r.chance(1, 5) { vec![] } else { [b.to_le_bytes().to_vec(), 0i32.to_le_bytes().to_vec(), r.bytes(n)].concat() })
            }
            "StringTable" | "MyStringTable" => {
                let mut rows: Vec<(String, String)> = vec![];
                for _ in 0..r.below(5) {
                    let k = if r.chance(1, 6) { String::new() } else { word(r) };
                    if rows.iter().all(|x| x.0 != k) {
                        let v = if r.chance(1, 4) { String::new() } else { word(r) };
                        rows.push((k, v));
                    }
                }
                Kind::StringTable(opt(r), rows)
            }
            "DataTable" | "FancyDataTable" => {
                let of = r.below(4);
                if of > 0 {
                    // a row struct of this package says nothing about the layout
                    let at = if of == 1 { 1 + r.below(n_exports) as i32 } else { class_of[if raw_rows { row_type } else { "MyRow" }] };
                    let n = Node { name: (cf.name_idx("RowStruct"), 0), dup: 0, guid: None, val: Val::Obj(at) };
                    list.insert(r.below(list.len() + 1), n);
                }
                let mut rows = vec![];
                let mut raw = vec![];
                for _ in 0..r.below(4) {
                    let mut m = Model { cf: &cf, budget: r.range(0, budget / 2 + 1), words: words.clone() };
                    if of > 1 && raw_rows {
                        raw.push((m.word(r), m.row(r, row_type)));
                    } else {
                        rows.push((m.word(r), m.list(r, 1)));
                    }
                }
                if of > 1 && raw_rows {
                    Kind::Rows(raw)
                } else {
                    Kind::DataTable(rows)
                }
            }
            "Enum" | "UserDefinedEnum" => {
                let n = r.below(6);
                let wide = cf.ov as i32 >= V::VER_UE4_TIGHTLY_PACKED_ENUMS as i32;
                let big = cf.cv(FCoreObjectVersion::FRIENDLY_NAME) >= FCoreObjectVersion::EnumProperties as i32;
                let names = (0..n)
                    .map(|i| {
                        let v = match (wide, big) {
                            (false, _) => i as i64,
                            (_, false) => r.below(256) as i64,
                            _ => num(r) as i64 * if r.bool() { 1 } else { 1 << 30 },
                        };
                        ((*r.pick(&words), *r.pick(&[0, 1, 9])), v)
                    })
                    .collect();
                let top = if cf.ov as i32 >= V::VER_UE4_ENUM_CLASS_SUPPORT as i32 { 3 } else { 2 };
                Kind::Enum(names, r.below(top) as u8)
            }
            "Level" => Kind::Level {
                actors: idxs(r, p),
                url: [opt(r), opt(r), opt(r), opt(r)],
                options: (0..r.below(3)).map(|_| opt(r)).collect(),
                port: num(r),
                valid: num(r),
                model: idx(r, p),
                comps: idxs(r, p),
                script: idx(r, p),
                nav: [idx(r, p), idx(r, p)],
            },
            "World" => Kind::World(idx(r, p), idxs(r, p), idxs(r, p)),
            "Function" => Kind::Function(structure(r, &cf, p), r.u64() as u32 & EFunctionFlags::all().bits()),
            "UserDefinedStruct" => {
                let s = structure(r, &cf, p);
                let mut m = Model { cf: &cf, budget: r.range(0, budget / 2 + 1), words: words.clone() };
                Kind::UserStruct(s, r.u64() as u32 & EStructFlags::all().bits(), m.list(r, 1))
            }
            "BlueprintGeneratedClass" | "WidgetBlueprintGeneratedClass" => {
                let s = structure(r, &cf, p);
                let mut funcs: Vec<(N, i32)> = vec![];
                for _ in 0..r.below(4) {
                    let n = (cf.name_idx(*r.pick(&["Tick", "BeginPlay", "Use"])), *r.pick(&[0, 1]));
                    if funcs.iter().all(|f| f.0 != n) {
                        funcs.push((n, idx(r, p)));
                    }
                }
                Kind::Class(
                    s,
                    ClassM {
                        funcs,
                        flags: r.u64() as u32 & EClassFlags::all().bits(),
                        within: idx(r, p),
                        config: (cf.name_idx("Engine"), *r.pick(&[0, 0, 3])),
                        ifaces: (0..r.below(3)).map(|_| (idx(r, p), num(r), r.bool())).collect(),
                        generated_by: idx(r, p),
                        force: r.bool(),
                        cooked: r.bool(),
                        cdo: idx(r, p),
                    },
                )
            }
            c if c.ends_with("Property") => {
                let n = UFIELD.iter().find(|f| f.0 == c).unwrap().1;
                Kind::Prop(
                    c.into(),
                    UP {
                        next: (cf.cv(FFrameworkObjectVersion::FRIENDLY_NAME) < FFrameworkObjectVersion::RemoveUfieldNext as i32).then(|| idx(r, p)),
                        dim: r.below(3) as i32,
                        pflags: r.u64() & EPropertyFlags::all().bits(),
                        notify: (cf.name_idx("OnRep_X"), r.below(2) as i32),
                        cond: (cf.cv(FReleaseObjectVersion::FRIENDLY_NAME) >= FReleaseObjectVersion::PropertiesSerializeRepCondition as i32)
                            .then(|| *r.pick(COND)),
                        idx: (0..n).map(|_| idx(r, p)).collect(),
                    },
                )
            }
            _ => Kind::Normal,
        };
        if matches!(kind, Kind::Raw(_)) {
            list.clear();
            extras.clear();
        }
        let class = if *c == "Raw" && r.chance(1, 3) { idx(r, (0, n_exports)) } else { class_of[*c] };
        exports.push(Exp {
            class,
            sup: idx(r, p),
            template: if cf.ov as i32 >= V::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS as i32 { idx(r, p) } else { 0 },
            outer: idx(r, p),
            name: (if r.chance(1, 6) { cf.name_idx(*r.pick(ROW_TYPES)) } else { *r.pick(&words) }, *r.pick(&[0, 0, 1, 77])),
            flags: r.u64() as u32 & EObjectFlags::all().bits(),
            forced: r.bool(),
            not_client: r.bool(),
            not_server: r.bool(),
            guid: if cf.ov5 as i32 >= V5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID as i32 { [0; 16] } else { guid(r) },
            inherited: cf.ov5 as i32 >= V5::TRACK_OBJECT_EXPORT_IS_INHERITED as i32 && r.bool(),
            pkg_flags: r.u64() as u32,
            not_always: cf.ov as i32 >= V::VER_UE4_LOAD_FOR_EDITOR_GAME as i32 && r.bool(),
            is_asset: cf.ov as i32 >= V::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT as i32 && r.bool(),
            gen_hash: cf.ov5 as i32 >= V5::OPTIONAL_RESOURCES as i32 && r.bool(),
            deps: if edl { [idxs(r, p), idxs(r, p), idxs(r, p), idxs(r, p)] } else { Default::default() },
            list,
            kind,
            extras,
        });
    }
    // everything that is referred to by name is in the name table
    for c in known_type_names() {
        cf.name_idx(c);
    }
    let has_soft = ov as i32 >= V::VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP as i32;
    let n_names = cf.names.get_ref().get_name_map_index_list().len();
    let zero_hash = if r.chance(1, 4) && ov as i32 >= V::VER_UE4_NAME_HASHES_SERIALIZED as i32 {
        (0..r.range(1, 4)).map(|_| cf.names.get_ref().get_name_map_index_list()[r.below(n_names)].clone()).collect()
    } else {
        vec![]
    };
    let zero_offset_quirk = ov as i32 >= V::VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS as i32 && (ov as i32) < V::VER_UE4_64BIT_EXPORTMAP_SERIALSIZES as i32;
    Pkg {
        legacy,
        unversioned,
        licensee: num(r),
        customs,
        folder: if r.chance(1, 5) { word(r) } else { "None".into() },
        flags: r.u64() as u32 & EPackageFlags::all().bits() & !EPackageFlags::PKG_UNVERSIONED_PROPERTIES.bits(),
        zero_hash,
        imports,
        depends: (zero_offset_quirk || r.chance(3, 4)).then(|| (0..n_exports).map(|_| (0..r.below(3)).map(|_| num(r)).collect()).collect()),
        soft: (has_soft && r.chance(2, 3)).then(|| (0..r.below(4)).map(|_| if r.chance(1, 5) { String::new() } else { word(r) }).collect()),
        exports,
        guid: guid(r),
        generations: r.below(3),
        recorded: engine(r),
        compatible: engine(r),
        compression: r.below(4) as u32,
        source: r.u64() as u32,
        registry: r.bool(),
        tile: (ov as i32 >= V::VER_UE4_WORLD_LEVEL_INFO as i32 && r.chance(1, 3)).then(|| Tile {
            pos: [num(r), num(r), num(r)],
            bounds: [0; 6].map(|_| (num(r) % 100_000) as f64 / 8.0),
            valid: r.below(2) as u8,
            layer: opt(r),
            reserved: [num(r), num(r), num(r)],
            dist: num(r),
            enabled: r.bool(),
            hidden: r.bool(),
            parent: opt(r),
            lods: (0..r.below(3)).map(|_| (num(r), 0.5 * r.below(50) as f32, -1.25, num(r), num(r))).collect(),
            z: num(r),
        }),
        chunks: {
            let n = if ov as i32 >= V::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS as i32 { r.below(4) } else { 1 };
            (0..n).map(|_| num(r)).collect()
        },
        names_referenced: num(r),
        toc: num(r) as i64,
        resource: num(r),
        words: words.iter().copied().filter(|w| *w != cf.name_idx("ColorDatabase")).collect(),
        cf,
    }
}
/// structs with a layout of their own in every version
pub const ROW_TYPES: &[&str] = &["LinearColor", "Vector", "Rotator", "Guid", "Color", "IntPoint", "SoftObjectPath", "GameplayTagContainer", "Quat", "DateTime"];
/// type names that the encoders above write
fn known_type_names() -> impl Iterator<Item = &'static str> {
    FIELD.iter().map(|f| f.0)
}
/// object versions of the released engines (from the engine's sources)
pub fn ref_object_versions(ev: EngineVersion) -> (V, V5) {
    use EngineVersion as E;
    let ov = match ev {
        E::VER_UE4_0 => 342,
        E::VER_UE4_1 => 352,
        E::VER_UE4_2 => 363,
        E::VER_UE4_3 => 382,
        E::VER_UE4_4 => 385,
        E::VER_UE4_5 => 401,
        E::VER_UE4_6 => 413,
        E::VER_UE4_7 => 434,
        E::VER_UE4_8 => 451,
        E::VER_UE4_9 | E::VER_UE4_10 => 482,
        E::VER_UE4_11 => 498,
        E::VER_UE4_12 => 504,
        E::VER_UE4_13 => 505,
        E::VER_UE4_14 => 508,
        E::VER_UE4_15 => 510,
        E::VER_UE4_16 | E::VER_UE4_17 => 513,
        E::VER_UE4_18 => 514,
        E::VER_UE4_19 | E::VER_UE4_20 => 516,
        E::VER_UE4_21 | E::VER_UE4_22 | E::VER_UE4_23 => 517,
        E::VER_UE4_24 | E::VER_UE4_25 => 518,
        E::VER_UE4_26 => 519,
        _ => 522,
    };
    let ov5 = match ev {
        E::VER_UE5_0 => 1004,
        E::VER_UE5_1 => 1008,
        E::VER_UE5_2 => 1009,
        _ => 0,
    };
    (V::try_from(ov).unwrap_or(V::UNKNOWN), V5::try_from(ov5).unwrap_or(V5::UNKNOWN))
}

// ---------------------------------------------------------------- comparison
pub type A = Asset<Cursor<Bytes>>;
pub fn load(main: &Bytes, exp: &Option<Bytes>, ev: EngineVersion) -> Result<A, unreal_asset::Error> {
    Asset::new(Cursor::new(main.clone()), exp.clone().map(Cursor::new), ev, None)
}
pub fn save(a: &A) -> Result<(Bytes, Option<Bytes>), unreal_asset::Error> {
    let mut m = Cursor::new(vec![]);
    if a.asset_data.use_event_driven_loader {
        let mut e = Cursor::new(vec![]);
        a.write_data(&mut m, Some(&mut e))?;
        Ok((m.into_inner(), Some(e.into_inner())))
    } else {
        a.write_data(&mut m, None)?;
        Ok((m.into_inner(), None))
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(o: &mut Obs, what: &str, got: &T, want: &T) -> Result<(), Fail> {
    o.ev(1);
    if got == want {
        return Ok(());
    }
    let short = |v: &T| -> String { format!("{v:?}").chars().take(300).collect() };
    fail(format!("asset: {what}"), format!("{what} is {} but the package says {}", short(got), short(want)))
}
fn px(v: &[PackageIndex]) -> Vec<i32> {
    v.iter().map(|i| i.index).collect()
}
fn fparts(f: &FProperty) -> (&FGenericProperty, Vec<i32>, Vec<&FProperty>, [u8; 6]) {
    use FProperty as F;
    let z = [0; 6];
    match f {
        F::FGenericProperty(x) => (x, vec![], vec![], z),
        F::FEnumProperty(x) => (&x.generic_property, vec![x.enum_value.index], vec![&x.underlying_prop], z),
        F::FArrayProperty(x) => (&x.generic_property, vec![], vec![&x.inner], z),
        F::FSetProperty(x) => (&x.generic_property, vec![], vec![&x.element_prop], z),
        F::FObjectProperty(x) => (&x.generic_property, vec![x.property_class.index], vec![], z),
        F::FSoftObjectProperty(x) => (&x.generic_property, vec![x.property_class.index], vec![], z),
        F::FClassProperty(x) => (&x.generic_property, vec![x.property_class.index, x.meta_class.index], vec![], z),
        F::FSoftClassProperty(x) => (&x.generic_property, vec![x.property_class.index, x.meta_class.index], vec![], z),
        F::FDelegateProperty(x) => (&x.generic_property, vec![x.signature_function.index], vec![], z),
        F::FMulticastDelegateProperty(x) => (&x.generic_property, vec![x.signature_function.index], vec![], z),
        F::FMulticastInlineDelegateProperty(x) => (&x.generic_property, vec![x.signature_function.index], vec![], z),
        F::FInterfaceProperty(x) => (&x.generic_property, vec![x.interface_class.index], vec![], z),
        F::FMapProperty(x) => (&x.generic_property, vec![], vec![&x.key_prop, &x.value_prop], z),
        F::FBoolProperty(x) => (
            &x.generic_property,
            vec![],
            vec![],
            [x.field_size, x.byte_offset, x.byte_mask, x.field_mask, x.native_bool as u8, x.value as u8],
        ),
        F::FByteProperty(x) => (&x.generic_property, vec![x.enum_value.index], vec![], z),
        F::FStructProperty(x) => (&x.generic_property, vec![x.struct_value.index], vec![], z),
        F::FNumericProperty(x) => (&x.generic_property, vec![], vec![], z),
    }
}
fn same_field(cf: &Cfg, f: &FP, g: &FProperty, o: &mut Obs) -> Result<(), Fail> {
    let (b, i, inner, bl) = fparts(g);
    o.class(format!("field {}", f.ty));
    eq(o, "field type", &g.to_serialized_name(), &f.ty)?;
    eq(o, "field name", &b.name, &want_name(cf, f.name))?;
    eq(
        o,
        "field header",
        &(b.flags.bits(), i32::from(b.array_dim), b.element_size, b.property_flags.bits(), b.rep_index, u8::from(b.blueprint_replication_condition)),
        &(f.flags, f.dim, f.size, f.pflags, f.rep, f.cond),
    )?;
    eq(o, "field notify", &b.rep_notify_func, &want_name(cf, f.notify))?;
    eq(o, "field references", &i, &f.idx)?;
    if f.ty == "BoolProperty" {
        eq(o, "field bool", &bl, &f.boolean)?;
    }
    eq(o, "inner fields", &inner.len(), &f.inner.len())?;
    for (a, b) in f.inner.iter().zip(inner) {
        same_field(cf, a, b, o)?;
    }
    Ok(())
}
fn uparts(u: &UProperty) -> (&'static str, &UGenericProperty, Vec<i32>) {
    macro_rules! m {
        ($($v:ident $t:literal [$($f:ident),*]),* $(,)?) => {
            match u {
                UProperty::UGenericProperty(x) => ("", x, vec![]),
                $(UProperty::$v(x) => ($t, &x.generic_property, vec![$(x.$f.index),*]),)*
                UProperty::UBoolProperty(x) => ("BoolProperty", &x.generic_property, vec![]),
            }
        };
    }
    m!(
        UEnumProperty "EnumProperty" [value, underlying_prop],
        UArrayProperty "ArrayProperty" [inner],
        USetProperty "SetProperty" [element_prop],
        UObjectProperty "ObjectProperty" [property_class],
        USoftObjectProperty "SoftObjectProperty" [property_class],
        ULazyObjectProperty "LazyObjectProperty" [property_class],
        UClassProperty "ClassProperty" [property_class, meta_class],
        USoftClassProperty "SoftClassProperty" [property_class, meta_class],
        UDelegateProperty "DelegateProperty" [signature_function],
        UMulticastDelegateProperty "MulticastDelegateProperty" [signature_function],
        UMulticastInlineDelegateProperty "MulticastInlineDelegateProperty" [signature_function],
        UInterfaceProperty "InterfaceProperty" [interface_class],
        UMapProperty "MapProperty" [key_prop, value_prop],
        UByteProperty "ByteProperty" [enum_value],
        UStructProperty "StructProperty" [struct_value],
        UDoubleProperty "DoubleProperty" [],
        UFloatProperty "FloatProperty" [],
        UIntProperty "IntProperty" [],
        UInt8Property "Int8Property" [],
        UInt16Property "Int16Property" [],
        UInt64Property "Int64Property" [],
        UUInt8Property "UInt8Property" [],
        UUInt16Property "UInt16Property" [],
        UUInt64Property "UInt64Property" [],
        UNameProperty "NameProperty" [],
        UStrProperty "StrProperty" [],
    )
}
fn same_struct(cf: &Cfg, s: &StructM, g: &struct_export::StructExport<PackageIndex>, o: &mut Obs) -> Result<(), Fail> {
    eq(o, "next field", &g.field.next.map(|i| i.index), &s.next)?;
    eq(o, "super struct", &g.super_struct.index, &s.sup)?;
    eq(o, "children", &px(&g.children), &s.children)?;
    let f = s.fields.clone().unwrap_or_default();
    eq(o, "number of fields", &g.loaded_properties.len(), &f.len())?;
    for (a, b) in f.iter().zip(&g.loaded_properties) {
        same_field(cf, a, b, o)?;
    }
    match &s.code {
        Code::Parsed(v) => {
            o.class("script parsed");
            eq(o, "number of expressions", &g.script_bytecode.as_ref().map(|b| b.len()), &Some(v.len()))
        }
        Code::Raw(m, b) => {
            o.class("script raw");
            eq(o, "raw script", &(g.script_bytecode_size, g.script_bytecode_raw.as_ref()), &(*m, Some(b)))
        }
    }
}
fn same_nodes(cf: &Cfg, l: &[Node], ps: &[Property], o: &mut Obs) -> Result<(), Fail> {
    eq(o, "number of properties", &ps.len(), &l.len())?;
    same_list(cf, l, ps, o)
}
/// the loaded asset is the encoded package
pub fn same_asset(p: &Pkg, a: &A, o: &mut Obs) -> Result<(), Fail> {
    same_but(p, a, usize::MAX, o)
}
/// the same, not looking into the content of one export
pub fn same_but(p: &Pkg, a: &A, skip: usize, o: &mut Obs) -> Result<(), Fail> {
    let mut cf = p.cf.clone();
    cf.names = a.get_name_map();
    let cf = &cf;
    eq(o, "name table", &cf.names.get_ref().get_name_map_index_list().to_vec(), &p.names())?;
    let d = &a.asset_data;
    eq(o, "object version", &(d.object_version as i32), &(p.cf.ov as i32))?;
    eq(o, "unversioned flag", &d.summary.unversioned, &p.unversioned)?;
    eq(o, "licensee version", &d.summary.file_licensee_version, &p.licensee)?;
    eq(o, "package flags", &d.summary.package_flags.bits(), &p.flags)?;
    eq(o, "folder name", &a.folder_name, &p.folder)?;
    eq(o, "package guid", &a.package_guid.0, &p.guid)?;
    eq(o, "package source", &a.package_source, &p.source)?;
    eq(o, "generations", &a.generations.len(), &p.generations)?;
    macro_rules! cvs {
        ($($t:ident),*) => { $( eq(o, concat!("custom version ", stringify!($t)), &d.get_custom_version::<$t>().version, &p.cf.cv($t::FRIENDLY_NAME))?; )* };
    }
    cvs!(
        FAnimPhysObjectVersion,
        FCoreObjectVersion,
        FEditorObjectVersion,
        FFortniteMainBranchObjectVersion,
        FFrameworkObjectVersion,
        FReleaseObjectVersion,
        FSequencerObjectVersion
    );
    eq(o, "number of imports", &a.imports.len(), &p.imports.len())?;
    for (i, (m, g)) in p.imports.iter().zip(&a.imports).enumerate() {
        let w = (want_name(cf, m.package), want_name(cf, m.class), m.outer, want_name(cf, m.name), m.optional);
        eq(o, "import", &(g.class_package.clone(), g.class_name.clone(), g.outer_index.index, g.object_name.clone(), g.optional), &w)?;
        eq(o, "import by index", &a.get_import(PackageIndex::new(-1 - i as i32)).as_ref(), &Some(g))?;
    }
    eq(o, "number of exports", &d.exports.len(), &p.exports.len())?;
    if let (Some(t), Some(g)) = (&p.tile, &d.world_tile_info) {
        o.class("world tile");
        let b = &g.bounds;
        eq(
            o,
            "tile bounds",
            &[b.v1.value.x.0, b.v1.value.y.0, b.v1.value.z.0, b.v2.value.x.0, b.v2.value.y.0, b.v2.value.z.0],
            &t.bounds,
        )?;
        eq(o, "tile position", &(g.position.x, g.position.y), &(t.pos[0], t.pos[1]))?;
        eq(o, "tile layer", &(&g.layer.name, g.layer.reserved_0, g.layer.reserved_1.value.x, g.layer.reserved_1.value.y), &(&t.layer, t.reserved[0], t.reserved[1], t.reserved[2]))?;
        let up = p.ge(V::VER_UE4_WORLD_LEVEL_INFO_UPDATED);
        eq(o, "tile distance", &g.layer.streaming_distance, &up.then_some(t.dist))?;
        eq(o, "tile streaming", &g.layer.distance_streaming_enabled, &p.ge(V::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING).then_some(t.enabled))?;
        eq(o, "tile view", &(g.hide_in_tile_view, &g.parent_tile_package_name), &(up.then_some(t.hidden), if up { &t.parent } else { &None }))?;
        let lods = g.lod_list.as_ref().map(|l| l.iter().map(|l| (l.relative_streaming_distance, l.reserved_0.0, l.reserved_1.0, l.reserved_2, l.reserved_3)).collect::<Vec<_>>());
        eq(o, "tile lods", &lods, &p.ge(V::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST).then(|| t.lods.clone()))?;
        eq(o, "tile order", &g.z_order, &p.ge(V::VER_UE4_WORLD_LEVEL_INFO_ZORDER).then_some(t.z))?;
        if p.cv(FFortniteMainBranchObjectVersion::FRIENDLY_NAME) >= FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset as i32 {
            eq(o, "tile height", &g.position.z, &t.pos[2])?;
        }
    } else {
        eq(o, "world tile", &d.world_tile_info.is_some(), &p.tile.is_some())?;
    }
    for (i, (e, g)) in p.exports.iter().zip(&d.exports).enumerate().filter(|(i, _)| *i != skip) {
        same_export(cf, e, g, o).map_err(|f| Fail { key: f.key, msg: format!("export {i} of {}: {}", p.exports.len(), f.msg) })?;
        eq(o, "export by index", &a.get_export(PackageIndex::new(i as i32 + 1)).map(|x| std::ptr::eq(x, g)), &Some(true))?;
    }
    Ok(())
}
fn same_export(cf: &Cfg, e: &Exp, g: &Export<PackageIndex>, o: &mut Obs) -> Result<(), Fail> {
    let b = g.get_base_export();
    eq(o, "export indices", &(b.class_index.index, b.super_index.index, b.template_index.index, b.outer_index.index), &(e.class, e.sup, e.template, e.outer))?;
    eq(o, "export name", &b.object_name, &want_name(cf, e.name))?;
    eq(
        o,
        "export flags",
        &(b.object_flags.bits(), b.forced_export, b.not_for_client, b.not_for_server, b.package_guid.0, b.is_inherited_instance, b.package_flags),
        &(e.flags, e.forced, e.not_client, e.not_server, e.guid, e.inherited, e.pkg_flags),
    )?;
    eq(o, "export flags", &(b.not_always_loaded_for_editor_game, b.is_asset, b.generate_public_hash), &(e.not_always, e.is_asset, e.gen_hash))?;
    eq(
        o,
        "export dependencies",
        &[
            px(&b.serialization_before_serialization_dependencies),
            px(&b.create_before_serialization_dependencies),
            px(&b.serialization_before_create_dependencies),
            px(&b.create_before_create_dependencies),
        ],
        &e.deps,
    )?;
    if let Kind::Raw(d) = &e.kind {
        o.class("kind Raw");
        return match g {
            Export::RawExport(r) => eq(o, "raw export", &r.data, d),
            _ => fail("asset: export kind", format!("unreadable export loaded as {g:?}")),
        };
    }
    let Some(n) = g.get_normal_export() else {
        let s: String = format!("{:?}", e).chars().take(600).collect();
        return fail("asset: export kind", format!("export was not understood: {s}"));
    };
    same_nodes(cf, &e.list, &n.properties, o)?;
    eq(o, "trailing export data", &n.extras, &e.extras)?;
    let bad = |o: &mut Obs| eq(o, "export kind", &format!("{g:?}").chars().take(30).collect::<String>(), &format!("{:?}", e.kind).chars().take(30).collect());
    match (&e.kind, g) {
        (Kind::Normal, Export::NormalExport(_)) => o.class("kind Normal"),
        (Kind::StringTable(ns, rows), Export::StringTableExport(g)) => {
            o.class("kind StringTable");
            eq(o, "string table namespace", &g.namespace, ns)?;
            eq(o, "string table", &g.table.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect(), rows)?;
        }
        (Kind::DataTable(rows), Export::DataTableExport(g)) => {
            o.class("kind DataTable");
            eq(o, "number of rows", &g.table.data.len(), &rows.len())?;
            for ((n, l), s) in rows.iter().zip(&g.table.data) {
                eq(o, "row name", &s.name, &want_name(cf, *n))?;
                same_nodes(cf, l, &s.value, o)?;
            }
        }
        (Kind::Rows(rows), Export::DataTableExport(g)) => {
            eq(o, "number of rows", &g.table.data.len(), &rows.len())?;
            for ((n, s), g) in rows.iter().zip(&g.table.data) {
                o.class("data table row with its own layout");
                eq(o, "row name", &g.name, &want_name(cf, *n))?;
                same(cf, &Val::Struct(s.clone()), &Property::StructProperty(g.clone()), o)?;
            }
        }
        (Kind::Enum(names, form), Export::EnumExport(g)) => {
            o.class("kind Enum");
            eq(o, "enum values", &g.value.names, &names.iter().map(|(n, i)| (want_name(cf, *n), *i)).collect())?;
            eq(o, "enum form", &u8::from(g.value.cpp_form), form)?;
        }
        (Kind::Level { actors, url, options, port, valid, model, comps, script, nav }, Export::LevelExport(g)) => {
            o.class("kind Level");
            eq(o, "actors", &px(&g.actors), actors)?;
            eq(o, "url", &[&g.url.protocol, &g.url.host, &g.url.map, &g.url.portal], &[&url[0], &url[1], &url[2], &url[3]])?;
            eq(o, "url options", &(&g.url.options, g.url.port, g.url.valid), &(options, *port, *valid))?;
            eq(o, "model components", &px(&g.model_components), comps)?;
            eq(o, "level objects", &(g.model.index, g.level_script.index, [g.nav_list_start.index, g.nav_list_end.index]), &(*model, *script, *nav))?;
        }
        (Kind::World(l, x, s), Export::WorldExport(g)) => {
            o.class("kind World");
            eq(o, "world", &(g.persistent_level.index, px(&g.extra_objects), px(&g.streaming_levels)), &(*l, x.clone(), s.clone()))?;
        }
        (Kind::Function(s, f), Export::FunctionExport(g)) => {
            o.class("kind Function");
            same_struct(cf, s, &g.struct_export, o)?;
            eq(o, "function flags", &g.function_flags.bits(), f)?;
        }
        (Kind::UserStruct(s, f, l), Export::UserDefinedStructExport(g)) => {
            o.class("kind UserDefinedStruct");
            same_struct(cf, s, &g.struct_export, o)?;
            eq(o, "struct flags", &g.flags.bits(), f)?;
            same_nodes(cf, l, &g.default_struct_instance, o)?;
        }
        (Kind::Class(s, c), Export::ClassExport(g)) => {
            o.class("kind Class");
            same_struct(cf, s, &g.struct_export, o)?;
            eq(
                o,
                "function map",
                &g.func_map.iter().map(|(_, n, i)| (n.clone(), i.index)).collect(),
                &c.funcs.iter().map(|(n, i)| (want_name(cf, *n), *i)).collect::<Vec<(FName, i32)>>(),
            )?;
            let flip = if (cf.ov as i32) < V::VER_UE4_CLASS_NOTPLACEABLE_ADDED as i32 { EClassFlags::CLASS_NOT_PLACEABLE.bits() } else { 0 };
            eq(o, "class flags", &g.class_flags.bits(), &(c.flags ^ flip))?;
            eq(o, "class config", &g.class_config_name, &want_name(cf, c.config))?;
            eq(
                o,
                "class references",
                &(g.class_within.index, g.class_generated_by.index, g.class_default_object.index, g.deprecated_force_script_order),
                &(c.within, c.generated_by, c.cdo, c.force),
            )?;
            eq(o, "class cooked", &g.cooked, &(cf.ov as i32 >= V::VER_UE4_ADD_COOKED_TO_UCLASS as i32).then_some(c.cooked))?;
            eq(
                o,
                "interfaces",
                &g.interfaces.iter().map(|i| (i.class.index, i.pointer_offset, i.implemented_by_k2)).collect(),
                &c.ifaces,
            )?;
        }
        (Kind::Prop(ty, u), Export::PropertyExport(g)) => {
            o.class(format!("kind {ty}"));
            let (t, b, i) = uparts(&g.property);
            eq(o, "property type", &t, &if ty == "TextProperty" { "" } else { ty.as_str() })?;
            eq(
                o,
                "property header",
                &(b.u_field.next.map(|i| i.index), i32::from(b.array_dim), b.property_flags.bits(), b.blueprint_replication_condition.map(u8::from)),
                &(u.next, u.dim, u.pflags, u.cond),
            )?;
            eq(o, "property notify", &b.rep_notify_func, &want_name(cf, u.notify))?;
            eq(o, "property references", &i, &u.idx)?;
        }
        _ => return bad(o),
    }
    Ok(())
}
pub fn same_bytes(what: &str, got: &(Bytes, Option<Bytes>), want: &(Bytes, Option<Bytes>), o: &mut Obs) -> Result<(), Fail> {
    for (part, g, w) in [("main file", Some(&got.0), Some(&want.0)), ("export file", got.1.as_ref(), want.1.as_ref())] {
        o.ev(1);
        if g != w {
            let (g, w) = (g.cloned().unwrap_or_default(), w.cloned().unwrap_or_default());
            let i = g.iter().zip(&w).take_while(|(a, b)| a == b).count();
            return fail(
                format!("asset: {what} {part}"),
                format!(
                    "{what}: {part} differs at byte {i} ({} bytes, expected {}): ...{:02x?} expected ...{:02x?}",
                    g.len(),
                    w.len(),
                    &g[i.saturating_sub(8)..(i + 24).min(g.len())],
                    &w[i.saturating_sub(8)..(i + 24).min(w.len())]
                ),
            );
        }
    }
    Ok(())
}
fn about(p: &Pkg) -> String {
    let s = format!(
        "[{:?} {:?} engine {:?} legacy {} split {} unversioned {} kinds {:?}]",
        p.cf.ov,
        p.cf.ov5,
        p.cf.ev,
        p.legacy,
        p.cf.edl,
        p.unversioned,
        p.exports.iter().map(|e| format!("{:?}", e.kind).chars().take_while(|c| c.is_alphanumeric()).collect::<String>()).collect::<Vec<_>>()
    );
    s
}
/// what a package index refers to, in range or not
fn lookups(p: &Pkg, a: &mut A, o: &mut Obs) -> Result<(), Fail> {
    let (ni, ne) = (p.imports.len() as i32, p.exports.len() as i32);
    for i in [0, 1, -1, ne, ne + 1, ne + 2, -ni, -ni - 1, -ni - 2, i32::MAX, i32::MIN] {
        let ix = PackageIndex::new(i);
        let got = guard(|| {
            let e = a.get_export(ix).map(|e| e.get_base_export().object_name.clone());
            let m = a.get_export_mut(ix).map(|e| e.get_base_export_mut().object_name.clone());
            (e, m, a.get_import(ix).map(|x| x.object_name))
        });
        let e = (i > 0 && i <= ne).then(|| want_name(&p.cf, p.exports[i as usize - 1].name));
        let m = (i < 0 && i >= -ni).then(|| want_name(&p.cf, p.imports[-(i as i64) as usize - 1].name));
        eq(o, "object by index", &got, &Ok((e.clone(), e, m)))?;
    }
    let class = a.asset_data.get_class_export().map(|c| c.get_base_export().object_name.clone());
    let want = a.asset_data.exports.iter().find(|e| matches!(e, Export::ClassExport(_))).map(|e| e.get_base_export().object_name.clone());
    eq(o, "class of the package", &class, &want)
}
pub fn load_checked(p: &Pkg, b: &(Bytes, Option<Bytes>), o: &mut Obs) -> Result<A, Fail> {
    let a = nopanic("asset: reader panicked", || format!("loading a package {}", about(p)), || load(&b.0, &b.1, p.cf.ev))?;
    let a = match a {
        Ok(a) => a,
        Err(e) => return fail("asset: refused", format!("a valid package is refused: {e} {}", about(p))),
    };
    let mut a = a;
    same_asset(p, &a, o).and_then(|_| lookups(p, &mut a, o)).map_err(|f| Fail { key: f.key, msg: format!("{} {}", f.msg, about(p)) })?;
    Ok(a)
}
pub fn save_checked(what: &str, p: &Pkg, a: &A, want: &(Bytes, Option<Bytes>), o: &mut Obs) -> Result<(), Fail> {
    let out = nopanic("asset: writer panicked", || format!("writing a package {}", about(p)), || save(a))?;
    let out = match out {
        Ok(b) => b,
        Err(e) => return fail("asset: write refused", format!("{what}: a loaded package cannot be written: {e} {}", about(p))),
    };
    same_bytes(what, &out, want, o).map_err(|f| Fail { key: f.key, msg: format!("{} {}", f.msg, about(p)) })
}
/// one part of the package is much larger than in ordinary packages
fn inflate(r: &mut Rng, p: &mut Pkg, o: &mut Obs) {
    let n = *r.pick(&[256usize, 257, 300, 1000, 4096, 20_000, 65_535, 65_536, 66_000, 70_000]);
    let at = (p.imports.len(), p.exports.len());
    let few = n.min(20_000);
    let wide = p.cf.ov as i32 >= V::VER_UE4_TIGHTLY_PACKED_ENUMS as i32;
    let what = match r.below(20) {
        0 => {
            for i in 0..n {
                p.cf.name_idx(&format!("N{i:x}"));
            }
            "names"
        }
        1 => {
            if let Some(i) = p.imports.first().cloned() {
                for k in 0..n {
                    p.imports.push(Imp { outer: -(k as i32), ..i.clone() });
                }
            }
            p.cf.imports = p.imports.iter().map(|i| p.cf.names.get_ref().create_fname(i.name.0, i.name.1)).collect();
            "imports"
        }
        2 => {
            if let Some(mut e) = p.exports.iter().find(|e| matches!(e.kind, Kind::Normal)).cloned() {
                e.list.truncate(1);
                for k in 0..few {
                    e.name.1 = k as i32;
                    e.outer = k as i32;
                    p.exports.push(e.clone());
                }
            }
            if let Some(d) = &mut p.depends {
                d.resize(p.exports.len(), vec![]);
            }
            "exports"
        }
        3 => {
            if let Some(d) = p.depends.as_mut().and_then(|d| d.last_mut()) {
                *d = (0..n as i32).collect();
            }
            "depends map"
        }
        4 => {
            if let Some(s) = &mut p.soft {
                s.extend((0..n).map(|i| format!("/Game/P{i}")));
            }
            "soft references"
        }
        5 => {
            if p.ge(V::VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS) {
                p.chunks = (0..n as i32).collect();
            }
            "chunks"
        }
        6 => {
            p.generations = few;
            "generations"
        }
        7 => {
            if let Some(t) = &mut p.tile {
                t.lods = (0..n as i32).map(|i| (i, 0.5, -1.25, -i, 3)).collect();
            }
            "tile lods"
        }
        8 => {
            if p.cf.edl {
                if let Some(e) = p.exports.last_mut() {
                    e.deps[r.below(4)] = (0..n).map(|_| idx(r, at)).collect();
                }
            }
            "dependencies"
        }
        9 => {
            if !p.unversioned {
                p.customs.extend((0..few).map(|i| {
                    let mut g = [7u8; 16];
                    g[4..8].copy_from_slice(&(i as u32).to_le_bytes());
                    (g, i as i32)
                }));
            }
            "custom versions"
        }
        10 => {
            if let Some(e) = p.exports.iter_mut().find(|e| !matches!(e.kind, Kind::Raw(_))) {
                e.extras = r.bytes(n);
            }
            "trailing export data"
        }
        11 => {
            p.folder = "f".repeat(n);
            "folder name"
        }
        _ => {
            let k = r.below(p.exports.len().max(1));
            let words = p.words.clone();
            match p.exports.get_mut(k).map(|e| &mut e.kind) {
                Some(Kind::Raw(b)) => b.extend(r.bytes(n)),
                Some(Kind::StringTable(_, rows)) => rows.extend((0..n).map(|i| (format!("row{i}"), format!("{i}")))),
                Some(Kind::DataTable(rows)) => rows.extend((0..few).map(|i| ((words[0], i as i32), vec![]))),
                Some(Kind::Rows(rows)) => {
                    if let Some((_, s)) = rows.first().cloned() {
                        rows.extend((0..few).map(|i| ((words[0], i as i32), s.clone())));
                    }
                }
                Some(Kind::Enum(names, _)) => {
                    let k = names.len();
                    names.extend((0..n).map(|i| ((words[i % words.len()], i as i32), if wide { i as i64 & 255 } else { (k + i) as i64 })));
                }
                Some(Kind::Level { actors, comps, options, .. }) => match r.below(3) {
                    0 => actors.extend((0..n).map(|_| idx(r, at))),
                    1 => comps.extend((0..n).map(|_| idx(r, at))),
                    _ => options.extend((0..few).map(|i| Some(format!("o{i}")))),
                },
                Some(Kind::World(_, a, b)) => if r.bool() { a } else { b }.extend((0..n).map(|_| idx(r, at))),
                Some(Kind::Function(s, _) | Kind::UserStruct(s, ..)) => s.children.extend((0..n).map(|_| idx(r, at))),
                Some(Kind::Class(s, c)) => match r.below(4) {
                    0 => s.children.extend((0..n).map(|_| idx(r, at))),
                    1 => c.ifaces.extend((0..n).map(|i| (idx(r, at), i as i32, i % 3 == 0))),
                    2 => {
                        if let Some(f) = s.fields.as_mut().filter(|f| !f.is_empty()) {
                            let x = FP { inner: vec![], idx: vec![], ty: "IntProperty".into(), ..f[0].clone() };
                            f.extend((0..few).map(|i| FP { size: i as i32, ..x.clone() }));
                        }
                    }
                    _ => {
                        let n = p.cf.name_idx("Many");
                        c.funcs.extend((0..few).map(|i| ((n, i as i32), i as i32)));
                    }
                },
                _ => {}
            }
            "export content"
        }
    };
    o.class(format!("large: {what}"));
}
pub fn a01(c: &Ctx) {
    c.rule("Random package models (all object versions, header shapes and export kinds, and packages with one part blown up to 256-70000 entries) are encoded by an independent encoder, loaded by the library, compared field by field with the model, and rewritten; the rewritten files are compared byte for byte. Non-trivial = a distinct encoded package.");
    c.cases("large", c.n(600, 20_000), |r, _| {
        let mut o = Obs::new();
        let mut p = pkg(r, 4);
        inflate(r, &mut p, &mut o);
        let b = p.encode();
        let a = load_checked(&p, &b, &mut o)?;
        save_checked("rewritten large package", &p, &a, &b, &mut o)?;
        o.nontrivial(&b.0);
        Ok(o)
    });
    c.cases("package", c.n(200_000, 6_000_000), |r, _| {
        let mut o = Obs::new();
        let p = pkg(r, 14);
        let b = p.encode();
        let a = load_checked(&p, &b, &mut o)?;
        save_checked("rewritten package", &p, &a, &b, &mut o)?;
        o.class(format!("legacy {} split {}", p.legacy, p.cf.edl));
        o.nontrivial(&b.0);
        Ok(o)
    });
}
pub fn a03(c: &Ctx) {
    c.rule("Histories of 1-3 rounds of 1-6 edits are applied to a loaded asset and to the package model alike; after every round the asset is compared with the model, written twice and compared with the model's encoding, and loaded again. Non-trivial = a distinct history of edits.");
    c.cases("edit-history", c.n(100_000, 4_000_000), |r, _| crate::p_edit::history(r));
}
