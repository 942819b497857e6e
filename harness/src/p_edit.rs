//! Edit histories: the same edits are applied to a loaded asset and to the
//! package model; what the asset then writes must be the model's encoding.
use crate::arch::Cfg;
use crate::core::*;
use crate::p_asset::*;
use crate::p_tags::{want_name, Body, Node, Val, N};
use unreal_asset::exports::*;
use unreal_asset::{Export, Import};
use unreal_asset_base::custom_version::{CustomVersion, CustomVersionTrait, FCoreObjectVersion};
use unreal_asset_base::flags::*;
use unreal_asset_base::object_version::{ObjectVersion as V, ObjectVersionUE5 as V5};
use unreal_asset_base::types::{FName, PackageIndex};
use unreal_asset_base::types::GenerationInfo;
use unreal_asset_base::Guid;
use unreal_asset_properties::int_property::BytePropertyValue;
use unreal_asset_properties::world_tile_property::FWorldTileInfo;
use unreal_asset_properties::{Property, PropertyDataTrait};

/// names of both sides and the indices that may be used
struct E {
    /// the asset's name table
    cf: Cfg,
    words: Vec<i32>,
    p: (usize, usize),
}
impl E {
    fn word(&self, r: &mut Rng) -> (N, FName) {
        let n = (*r.pick(&self.words), *r.pick(&[0, 0, 1, 12]));
        (n, want_name(&self.cf, n))
    }
    fn idx(&self, r: &mut Rng) -> i32 {
        idx(r, self.p)
    }
    /// the same vector edit on both sides
    fn idxs(&self, r: &mut Rng, m: &mut Vec<i32>, g: &mut Vec<PackageIndex>) {
        let i = self.idx(r);
        match r.below(3) {
            0 if !m.is_empty() => {
                let k = r.below(m.len());
                m.remove(k);
                g.remove(k);
            }
            1 if !m.is_empty() => {
                let k = r.below(m.len());
                m[k] = i;
                g[k] = PackageIndex::new(i);
            }
            _ => {
                let k = r.below(m.len() + 1);
                m.insert(k, i);
                g.insert(k, PackageIndex::new(i));
            }
        }
    }
}
/// the same restructuring on both sides; the name of what was done
fn shuffle<A: Clone, B: Clone>(r: &mut Rng, m: &mut Vec<A>, g: &mut Vec<B>, least: usize) -> &'static str {
    if m.is_empty() {
        return "";
    }
    let (i, j) = (r.below(m.len()), r.below(m.len()));
    match r.below(4) {
        0 if m.len() > least => {
            m.remove(i);
            g.remove(i);
            "remove"
        }
        1 => {
            m.swap(i, j);
            g.swap(i, j);
            "swap"
        }
        2 => {
            let (a, b) = (m[i].clone(), g[i].clone());
            m.insert(j, a);
            g.insert(j, b);
            "duplicate"
        }
        _ => {
            let (a, b) = (m[i].clone(), g[i].clone());
            m[j] = a;
            g[j] = b;
            "overwrite"
        }
    }
}
/// a new value for a property, on both sides
fn value(r: &mut Rng, e: &E, v: &mut Val, p: &mut Property) -> String {
    match (v, p) {
        (Val::Num(t, b), p) => {
            let n = b.len();
            let x = if r.bool() { r.u64() } else { r.below(300) as u64 };
            // no NaNs
            let x = match *t {
                "FloatProperty" => (x as i32 as f32).to_bits() as u64,
                "DoubleProperty" => (x as i64 as f64).to_bits(),
                _ => x,
            };
            *b = x.to_le_bytes()[..n].to_vec();
            match p {
                Property::Int8Property(q) => q.value = x as i8,
                Property::Int16Property(q) => q.value = x as i16,
                Property::IntProperty(q) => q.value = x as i32,
                Property::Int64Property(q) => q.value = x as i64,
                Property::UInt16Property(q) => q.value = x as u16,
                Property::UInt32Property(q) => q.value = x as u32,
                Property::UInt64Property(q) => q.value = x,
                Property::FloatProperty(q) => q.value = f32::from_bits(x as u32).into(),
                Property::DoubleProperty(q) => q.value = f64::from_bits(x).into(),
                _ => unreachable!("number is {p:?}"),
            }
            t.to_string()
        }
        (Val::Bool(b), Property::BoolProperty(q)) => {
            *b = !*b;
            q.value = *b;
            "BoolProperty".into()
        }
        (Val::Byte(_, b), Property::ByteProperty(q)) => {
            *b = r.u64() as u8;
            q.value = BytePropertyValue::Byte(*b);
            "ByteProperty".into()
        }
        (Val::ByteName(_, n), Property::ByteProperty(q)) => {
            let w = e.word(r);
            *n = w.0;
            q.value = BytePropertyValue::FName(w.1);
            "ByteProperty name".into()
        }
        (Val::Enum(_, n), Property::EnumProperty(q)) => {
            let w = e.word(r);
            *n = w.0;
            q.value = Some(w.1);
            "EnumProperty".into()
        }
        (Val::Name(n), Property::NameProperty(q)) => {
            let w = e.word(r);
            *n = w.0;
            q.value = w.1;
            "NameProperty".into()
        }
        (Val::Str(s), Property::StrProperty(q)) => {
            *s = opt(r);
            q.value = s.clone();
            "StrProperty".into()
        }
        (Val::Obj(i), Property::ObjectProperty(q)) => {
            *i = e.idx(r);
            q.value = PackageIndex::new(*i);
            "ObjectProperty".into()
        }
        (Val::Unknown(_, b), Property::UnknownProperty(q)) => {
            for x in b.iter_mut() {
                *x ^= r.u64() as u8;
            }
            q.value = b.clone();
            "unknown property".into()
        }
        (Val::Struct(s), Property::StructProperty(q)) => match &mut s.body {
            Body::List(l) if !l.is_empty() && s.ty.0 != e.cf.name_idx("FloatRange") => format!("struct member: {}", list(r, e, l, &mut q.value)),
            Body::Vec3(w) => {
                let x = (r.below(1 << 20) as f64 - 5000.0) / 16.0;
                let i = r.below(3);
                w[i] = x;
                let f = match q.value.first_mut() {
                    Some(Property::VectorProperty(f)) => &mut f.value,
                    Some(Property::RotatorProperty(f)) => &mut f.value,
                    _ => unreachable!(),
                };
                match i {
                    0 => f.x = x.into(),
                    1 => f.y = x.into(),
                    _ => f.z = x.into(),
                }
                "Vector".into()
            }
            _ => String::new(),
        },
        (Val::Array(t, items, _), Property::ArrayProperty(q)) if !items.is_empty() => {
            // an array of the same type: what it holds is named by its elements
            if r.bool() {
                let i = r.below(items.len());
                let what = value(r, e, &mut items[i], &mut q.value[i]);
                return if what.is_empty() { what } else { format!("array element: {what}") };
            }
            let uniform = t != "ByteProperty" || items.iter().all(|i| matches!(i, Val::Byte(..)));
            if !uniform || items.len() > 64 {
                return String::new();
            }
            format!("array {}", shuffle(r, items, &mut q.value, 1))
        }
        (Val::Map(_, _, _, items), Property::MapProperty(q)) if !items.is_empty() => {
            let i = r.below(items.len());
            let Some(g) = q.value.get_by_index_mut(i) else { return String::new() };
            let what = value(r, e, &mut items[i].1, g);
            if what.is_empty() { what } else { format!("map value: {what}") }
        }
        _ => String::new(),
    }
}
fn list(r: &mut Rng, e: &E, m: &mut Vec<Node>, g: &mut Vec<Property>) -> String {
    if m.is_empty() {
        return String::new();
    }
    let i = r.below(m.len());
    match r.below(6) {
        0 => format!("property {}", shuffle(r, m, g, 0)),
        1 => {
            // renaming an array of structs leaves the name in its inner header
            if matches!(m[i].val, Val::Array(..) | Val::Map(..) | Val::Set(..)) {
                return String::new();
            }
            let w = e.word(r);
            if let Val::Struct(_) = m[i].val {
                return String::new();
            }
            m[i].name = w.0;
            *g[i].get_name_mut() = w.1;
            "property name".into()
        }
        _ => value(r, e, &mut m[i].val, &mut g[i]),
    }
}
fn structure(r: &mut Rng, e: &E, m: &mut StructM, g: &mut struct_export::StructExport<PackageIndex>) -> String {
    match r.below(5) {
        0 => {
            m.sup = e.idx(r);
            g.super_struct = PackageIndex::new(m.sup);
            "super struct".into()
        }
        1 => {
            e.idxs(r, &mut m.children, &mut g.children);
            "children".into()
        }
        2 => match &mut m.fields {
            Some(f) if f.len() < 40 => format!("fields {}", shuffle(r, f, &mut g.loaded_properties, 0)),
            _ => String::new(),
        },
        _ => match &mut m.code {
            Code::Parsed(v) => match &mut g.script_bytecode {
                Some(b) if v.len() < 100 => format!("script {}", shuffle(r, v, b, 0)),
                _ => String::new(),
            },
            Code::Raw(s, b) => {
                *s = num(r);
                let n = r.range(0, 40);
                // still no script
                *b = [vec![0xfe], r.bytes(n)].concat();
                g.script_bytecode_size = *s;
                g.script_bytecode_raw = Some(b.clone());
                "raw script".into()
            }
        },
    }
}
fn content(r: &mut Rng, e: &E, m: &mut Exp, g: &mut Export<PackageIndex>) -> String {
    let cf = &e.cf;
    match (&mut m.kind, g) {
        (Kind::Raw(b), Export::RawExport(g)) => {
            let n = r.range(0, 50);
            b.truncate(8);
            b.extend(r.bytes(n));
            g.data = b.clone();
            "raw export".into()
        }
        (Kind::StringTable(ns, rows), Export::StringTableExport(g)) => match r.below(4) {
            0 => {
                *ns = opt(r);
                g.namespace = ns.clone();
                "string table namespace".into()
            }
            1 if !rows.is_empty() => {
                let (k, _) = rows.remove(r.below(rows.len()));
                g.table.remove_by_key(&k);
                "string table remove".into()
            }
            2 if !rows.is_empty() => {
                let i = r.below(rows.len());
                rows[i].1 = word(r);
                *g.table.get_by_key_mut(&rows[i].0).unwrap() = rows[i].1.clone();
                "string table change".into()
            }
            _ => {
                let k = format!("key {}", r.u64());
                rows.push((k.clone(), word(r)));
                g.table.insert(k, rows.last().unwrap().1.clone());
                "string table add".into()
            }
        },
        (Kind::DataTable(rows), Export::DataTableExport(g)) => {
            if rows.is_empty() || rows.len() > 30 {
                return String::new();
            }
            match r.below(3) {
                0 => format!("row {}", shuffle(r, rows, &mut g.table.data, 0)),
                1 => {
                    let i = r.below(rows.len());
                    let w = e.word(r);
                    rows[i].0 = w.0;
                    g.table.data[i].name = w.1;
                    "row name".into()
                }
                _ => {
                    let i = r.below(rows.len());
                    format!("row content: {}", list(r, e, &mut rows[i].1, &mut g.table.data[i].value))
                }
            }
        }
        (Kind::Rows(rows), Export::DataTableExport(g)) if !rows.is_empty() && rows.len() < 30 => match r.below(2) {
            0 => format!("row {}", shuffle(r, rows, &mut g.table.data, 0)),
            _ => {
                let i = r.below(rows.len());
                let w = e.word(r);
                rows[i].0 = w.0;
                g.table.data[i].name = w.1;
                "row name".into()
            }
        },
        (Kind::Enum(names, _), Export::EnumExport(g)) => {
            let wide = cf.ov as i32 >= V::VER_UE4_TIGHTLY_PACKED_ENUMS as i32;
            if !wide {
                // values are positions
                names.pop();
                g.value.names.pop();
                return "enum pop".into();
            }
            if r.bool() {
                return format!("enum {}", shuffle(r, names, &mut g.value.names, 0));
            }
            let big = cf.cv(FCoreObjectVersion::FRIENDLY_NAME) >= FCoreObjectVersion::EnumProperties as i32;
            let v = if big { num(r) as i64 } else { r.below(256) as i64 };
            let w = e.word(r);
            names.push((w.0, v));
            g.value.names.push((w.1, v));
            "enum add".into()
        }
        (Kind::Level { actors, url, options, port, model, comps, script, nav, .. }, Export::LevelExport(g)) => {
            match r.below(5) {
                0 => {
                    *port = num(r);
                    g.url.port = *port;
                }
                1 => {
                    e.idxs(r, comps, &mut g.model_components);
                    *model = e.idx(r);
                    g.model = PackageIndex::new(*model);
                }
                2 => {
                    url[2] = opt(r);
                    g.url.map = url[2].clone();
                    options.push(opt(r));
                    g.url.options = options.clone();
                }
                3 => {
                    *script = e.idx(r);
                    *nav = [e.idx(r), e.idx(r)];
                    g.level_script = PackageIndex::new(*script);
                    g.nav_list_start = PackageIndex::new(nav[0]);
                    g.nav_list_end = PackageIndex::new(nav[1]);
                }
                _ => e.idxs(r, actors, &mut g.actors),
            }
            "level".into()
        }
        (Kind::World(l, x, s), Export::WorldExport(g)) => {
            *l = e.idx(r);
            g.persistent_level = PackageIndex::new(*l);
            e.idxs(r, x, &mut g.extra_objects);
            e.idxs(r, s, &mut g.streaming_levels);
            "world".into()
        }
        (Kind::Function(s, f), Export::FunctionExport(g)) => {
            if r.chance(1, 4) {
                *f = r.u64() as u32 & EFunctionFlags::all().bits();
                g.function_flags = EFunctionFlags::from_bits(*f).unwrap();
                return "function flags".into();
            }
            structure(r, e, s, &mut g.struct_export)
        }
        (Kind::UserStruct(s, f, l), Export::UserDefinedStructExport(g)) => match r.below(4) {
            0 => {
                *f = r.u64() as u32 & EStructFlags::all().bits();
                g.flags = EStructFlags::from_bits(*f).unwrap();
                "struct flags".into()
            }
            1 => format!("struct default: {}", list(r, e, l, &mut g.default_struct_instance)),
            _ => structure(r, e, s, &mut g.struct_export),
        },
        (Kind::Class(s, c), Export::ClassExport(g)) => match r.below(6) {
            0 => {
                c.flags = r.u64() as u32 & EClassFlags::all().bits();
                let flip = if (cf.ov as i32) < V::VER_UE4_CLASS_NOTPLACEABLE_ADDED as i32 { EClassFlags::CLASS_NOT_PLACEABLE.bits() } else { 0 };
                g.class_flags = EClassFlags::from_bits(c.flags ^ flip).unwrap();
                "class flags".into()
            }
            1 => {
                let w = e.word(r);
                if c.funcs.iter().any(|f| f.0 == w.0) {
                    let i = c.funcs.iter().position(|f| f.0 == w.0).unwrap();
                    c.funcs.remove(i);
                    g.func_map.remove_by_key(&w.1);
                    return "function map remove".into();
                }
                let i = e.idx(r);
                c.funcs.push((w.0, i));
                g.func_map.insert(w.1, PackageIndex::new(i));
                "function map add".into()
            }
            2 => {
                c.cdo = e.idx(r);
                c.within = e.idx(r);
                c.generated_by = e.idx(r);
                c.force = !c.force;
                g.class_default_object = PackageIndex::new(c.cdo);
                g.class_within = PackageIndex::new(c.within);
                g.class_generated_by = PackageIndex::new(c.generated_by);
                g.deprecated_force_script_order = c.force;
                if let Some(x) = &mut g.cooked {
                    c.cooked = !c.cooked;
                    *x = c.cooked;
                }
                let w = e.word(r);
                c.config = w.0;
                g.class_config_name = w.1;
                "class references".into()
            }
            3 => {
                let i = (e.idx(r), num(r), r.bool());
                c.ifaces.push(i);
                g.interfaces.push(class_export::SerializedInterfaceReference::new(PackageIndex::new(i.0), i.1, i.2));
                "interface add".into()
            }
            _ => structure(r, e, s, &mut g.struct_export),
        },
        _ => String::new(),
    }
}
fn base(r: &mut Rng, e: &E, m: &mut Exp, g: &mut BaseExport<PackageIndex>) -> String {
    let cf = &e.cf;
    match r.below(6) {
        0 => {
            let w = e.word(r);
            m.name = w.0;
            g.object_name = w.1;
            "export name".into()
        }
        1 => {
            m.flags = r.u64() as u32 & EObjectFlags::all().bits();
            g.object_flags = EObjectFlags::from_bits(m.flags).unwrap();
            "export object flags".into()
        }
        2 => {
            m.sup = e.idx(r);
            m.outer = e.idx(r);
            g.super_index = PackageIndex::new(m.sup);
            g.outer_index = PackageIndex::new(m.outer);
            if cf.ov as i32 >= V::VER_UE4_TemplateIndex_IN_COOKED_EXPORTS as i32 {
                m.template = e.idx(r);
                g.template_index = PackageIndex::new(m.template);
            }
            "export references".into()
        }
        3 if cf.edl => {
            let k = r.below(4);
            let v = match k {
                0 => &mut g.serialization_before_serialization_dependencies,
                1 => &mut g.create_before_serialization_dependencies,
                2 => &mut g.serialization_before_create_dependencies,
                _ => &mut g.create_before_create_dependencies,
            };
            e.idxs(r, &mut m.deps[k], v);
            "export dependencies".into()
        }
        4 if (cf.ov5 as i32) < V5::REMOVE_OBJECT_EXPORT_PACKAGE_GUID as i32 => {
            m.guid = guid(r);
            g.package_guid = Guid(m.guid);
            "export guid".into()
        }
        _ => {
            m.forced = !m.forced;
            m.not_client = r.bool();
            m.not_server = r.bool();
            m.pkg_flags = r.u64() as u32;
            g.forced_export = m.forced;
            g.not_for_client = m.not_client;
            g.not_for_server = m.not_server;
            g.package_flags = m.pkg_flags;
            if cf.ov as i32 >= V::VER_UE4_LOAD_FOR_EDITOR_GAME as i32 {
                m.not_always = !m.not_always;
                g.not_always_loaded_for_editor_game = m.not_always;
            }
            if cf.ov as i32 >= V::VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT as i32 {
                m.is_asset = !m.is_asset;
                g.is_asset = m.is_asset;
            }
            "export flags".into()
        }
    }
}
// Health also serves as an unknown property type, which is looked up by its text
pub const RENAMEABLE: &[&str] = &["Root", "Mesh0", "Ünï", "EColor::Red"];
/// what the package says of itself
fn header(r: &mut Rng, p: &mut Pkg, a: &mut A) -> String {
    let s = &mut a.asset_data.summary;
    match r.below(7) {
        0 => {
            p.licensee = num(r);
            s.file_licensee_version = p.licensee;
            "licensee version".into()
        }
        1 => {
            p.flags = r.u64() as u32 & EPackageFlags::all().bits() & !EPackageFlags::PKG_UNVERSIONED_PROPERTIES.bits();
            s.package_flags = EPackageFlags::from_bits(p.flags).unwrap();
            "package flags".into()
        }
        2 => {
            if r.bool() {
                a.generations.push(GenerationInfo { export_count: 1, name_count: 1 });
            } else {
                a.generations.pop();
            }
            p.generations = a.generations.len();
            "generations".into()
        }
        3 => {
            // a file keeps the parts that its version has
            if !(p.cf.ov as i32 >= V::VER_UE4_ENGINE_VERSION_OBJECT as i32 && p.cf.ov as i32 >= V::VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION as i32) {
                return String::new();
            }
            std::mem::swap(&mut p.recorded, &mut p.compatible);
            std::mem::swap(&mut a.engine_version_recorded, &mut a.engine_version_compatible);
            "engine versions".into()
        }
        4 if p.cf.ov as i32 >= V::VER_UE4_NAME_HASHES_SERIALIZED as i32 => {
            let names = p.names();
            let n = names[r.below(names.len())].clone();
            if p.zero_hash.contains(&n) {
                p.zero_hash.retain(|x| *x != n);
                a.override_name_map_hashes.remove_by_key(&n);
                "name hash computed".into()
            } else {
                a.override_name_map_hashes.insert(n.clone(), 0);
                p.zero_hash.push(n);
                "name hash left out".into()
            }
        }
        5 if !p.unversioned => {
            let mut g = [0; 16];
            g.copy_from_slice(&r.bytes(16));
            let v = num(r);
            s.custom_versions.push(CustomVersion::new(Guid(g), v));
            p.customs.push((g, v));
            "custom version add".into()
        }
        _ if !p.unversioned && !s.custom_versions.is_empty() => {
            let i = r.below(s.custom_versions.len());
            let g = s.custom_versions[i].guid.0;
            let known = known_customs().into_iter().find(|k| k.1 == g);
            // other versions stand for other layouts
            if known.is_some() && !(p.exports.is_empty() && p.tile.is_none()) {
                return String::new();
            }
            let v = loop {
                let v = num(r);
                if v != s.custom_versions[i].version {
                    break v;
                }
            };
            match p.customs.iter_mut().find(|c| c.0 == g) {
                Some(c) => c.1 = v,
                // one that the file leaves to the engine version
                None => {
                    let at = s.custom_versions[..i].iter().filter(|c| p.customs.iter().any(|x| x.0 == c.guid.0)).count();
                    p.customs.insert(at, (g, v));
                }
            }
            s.custom_versions[i].version = v;
            if let Some(k) = known {
                let mut c = p.cf.cvs.as_deref().cloned().unwrap_or_default();
                c.insert(k.0.into(), v);
                p.cf.cvs = Some(std::sync::Arc::new(c));
            }
            "custom version change".into()
        }
        _ => String::new(),
    }
}
fn tile(r: &mut Rng, cf: &Cfg, t: &mut Tile, g: &mut FWorldTileInfo) -> String {
    let ge = |v: V| cf.ov as i32 >= v as i32;
    match r.below(6) {
        0 => {
            t.pos[0] = num(r);
            t.pos[1] = num(r);
            g.position.x = t.pos[0];
            g.position.y = t.pos[1];
        }
        1 => {
            t.layer = opt(r);
            t.reserved[0] = num(r);
            g.layer.name = t.layer.clone();
            g.layer.reserved_0 = t.reserved[0];
        }
        2 if ge(V::VER_UE4_WORLD_LEVEL_INFO_UPDATED) => {
            t.hidden = !t.hidden;
            t.parent = opt(r);
            t.dist = num(r);
            g.hide_in_tile_view = Some(t.hidden);
            g.parent_tile_package_name = t.parent.clone();
            g.layer.streaming_distance = Some(t.dist);
        }
        3 if ge(V::VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING) => {
            t.enabled = !t.enabled;
            g.layer.distance_streaming_enabled = Some(t.enabled);
        }
        4 if ge(V::VER_UE4_WORLD_LEVEL_INFO_ZORDER) => {
            t.z = num(r);
            g.z_order = Some(t.z);
        }
        5 if ge(V::VER_UE4_WORLD_LEVEL_INFO_LOD_LIST) => {
            if let Some(l) = &mut g.lod_list {
                shuffle(r, &mut t.lods, l, 0);
            }
        }
        _ => return String::new(),
    }
    "world tile".into()
}
/// one edit, applied to both sides; the name of it, empty when nothing applied
pub fn edit(r: &mut Rng, p: &mut Pkg, a: &mut A, n: usize) -> Result<String, Fail> {
    let mut cf = p.cf.clone();
    cf.names = a.get_name_map();
    let words: Vec<i32> = p.words.clone();
    let e = E { cf, words, p: (p.imports.len(), p.exports.len()) };
    let top = r.below(22);
    Ok(match top {
        0 => {
            let s = format!("{} {}", r.pick(&["Added", "Naïve", "/Game/New", "漢"]), n);
            let i = p.cf.name_idx(&s);
            let f = a.add_fname(&s);
            if f != want_name(&e.cf, (i, 0)) || a.search_name_reference(&s) != Some(i) {
                return fail("asset: added name", format!("name {s:?} was added as {f:?}, expected index {i}"));
            }
            p.words.push(i);
            "name add".into()
        }
        1 => {
            let old = *r.pick(RENAMEABLE);
            let i = p.names().iter().position(|x| x == old);
            let Some(i) = i else { return Ok(String::new()) };
            let s = format!("Renamed {n}{}", r.pick(&["", "ß"]));
            *p.cf.names.clone().get_mut().get_name_reference_mut(i as i32) = s.clone();
            *a.get_name_map().get_mut().get_name_reference_mut(i as i32) = s;
            "name change".into()
        }
        2 | 3 => {
            let (w, f) = e.word(r);
            let optional = p.cf.ov5 as i32 >= V5::OPTIONAL_RESOURCES as i32 && r.bool();
            let outer = num(r);
            let k = p.cf.name_idx("Class");
            a.add_name_reference("Class".into(), false);
            let class = want_name(&e.cf, (k, 0));
            let i = Import { class_package: f.clone(), class_name: class.clone(), outer_index: PackageIndex::new(outer), object_name: f.clone(), optional };
            if top == 2 || p.imports.is_empty() {
                let at = a.add_import(i);
                p.imports.push(Imp { package: w, class: (k, 0), outer, name: w, optional });
                if at.index != -(p.imports.len() as i32) {
                    return fail("asset: added import", format!("import {} was given index {}", p.imports.len() - 1, at.index));
                }
                // documented to compare names without their numbers
                let want = p.imports.iter().position(|m| m.package.0 == w.0 && m.class.0 == k && m.outer == outer && m.name.0 == w.0);
                let got = a.find_import(&f, &class, PackageIndex::new(outer), &f);
                if got != want.map(|i| -1 - i as i32) {
                    return fail("asset: find import", format!("import {want:?} is found as {got:?}"));
                }
                "import add".into()
            } else {
                let j = r.below(p.imports.len());
                p.imports[j].class = w;
                p.imports[j].package = w;
                p.imports[j].outer = outer;
                a.imports[j].class_name = f.clone();
                a.imports[j].class_package = f;
                a.imports[j].outer_index = PackageIndex::new(outer);
                "import change".into()
            }
        }
        4 => {
            p.guid = guid(r);
            p.folder = word(r);
            p.source = r.u64() as u32;
            a.package_guid = Guid(p.guid);
            a.folder_name = p.folder.clone();
            a.package_source = p.source;
            "package header".into()
        }
        20 => header(r, p, a),
        21 => match (&mut p.tile, &mut a.asset_data.world_tile_info) {
            (Some(t), Some(g)) => tile(r, &p.cf, t, g),
            _ => String::new(),
        },
        5 => {
            if p.exports.len() > 12 {
                return Ok(String::new());
            }
            let ex = &mut a.asset_data.exports;
            // a raw export whose class is another export depends on its position
            if p.exports.iter().any(|e| e.class > 0) {
                return Ok(String::new());
            }
            format!("export {}", shuffle(r, &mut p.exports, ex, 0))
        }
        _ => {
            if p.exports.is_empty() {
                return Ok(String::new());
            }
            let i = r.below(p.exports.len());
            let rows = p.imports.iter().any(|i| want_name(&p.cf, i.name).get_content(|n| ROW_TYPES.contains(&n)));
            let (m, g) = (&mut p.exports[i], &mut a.asset_data.exports[i]);
            match top {
                6 | 7 => base(r, &e, m, g.get_base_export_mut()),
                8 if g.get_normal_export().is_some() => {
                    let k = r.range(0, 30);
                    m.extras = r.bytes(k);
                    g.get_normal_export_mut().unwrap().extras = m.extras.clone();
                    "trailing export data".into()
                }
                9..=13 => content(r, &e, m, g),
                _ => match g.get_normal_export_mut() {
                    // the layout of the rows hangs on a property
                    Some(n) if !matches!(m.kind, Kind::Rows(_)) && !(rows && matches!(m.kind, Kind::DataTable(_))) => list(r, &e, &mut m.list, &mut n.properties),
                    _ => String::new(),
                },
            }
        }
    })
}
/// whether an edit of this export would make the library take it for something else
pub fn history(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let mut p = pkg(r, 12);
    let b = p.encode();
    let mut a = load_checked(&p, &b, &mut o)?;
    let mut log: Vec<String> = vec![];
    let mut n = 0;
    for _ in 0..r.range(1, 4) {
        for _ in 0..r.range(1, 7) {
            n += 1;
            let what = match guard(|| edit(r, &mut p, &mut a, n)) {
                Ok(x) => x?,
                Err(e) => return fail("asset: edit panicked", format!("{e} after {log:?}")),
            };
            if !what.is_empty() {
                o.class(format!("edit {}", what.split(':').next().unwrap()));
                log.push(what);
            }
        }
        let ctx = |f: Fail| Fail { key: f.key, msg: format!("{} after the edits {log:?}", f.msg) };
        same_asset(&p, &a, &mut o).map_err(ctx)?;
        let want = p.encode();
        save_checked("edited package", &p, &a, &want, &mut o).map_err(ctx)?;
        // writing does not change the asset
        save_checked("edited package written again", &p, &a, &want, &mut o).map_err(ctx)?;
        let back = load_checked(&p, &want, &mut o).map_err(ctx)?;
        if r.bool() {
            o.class("history goes on with the reloaded asset");
            a = back;
            let n = p.exports.len();
            if let Some(d) = &mut p.depends {
                d.truncate(n);
            }
        } else {
            o.class("history goes on with the written asset");
        }
    }
    o.nontrivial(format!("{log:?}{}", b.0.len()).as_bytes());
    Ok(o)
}

// ---------------------------------------------------------------- hostile input
fn put(d: &mut [u8], at: usize, v: &[u8]) {
    for (i, b) in v.iter().enumerate() {
        if let Some(x) = d.get_mut(at + i) {
            *x = *b;
        }
    }
}
pub fn damage(r: &mut Rng, d: &mut Vec<u8>) -> &'static str {
    if d.is_empty() {
        return "empty";
    }
    let n = d.len();
    // the header is small next to the rest: aim at it often
    let at = |r: &mut Rng| if r.chance(1, 3) { r.below(n.min(300)) } else { r.below(n) };
    match r.below(8) {
        0 => {
            let k = r.below(n);
            d.truncate(k);
            "truncated"
        }
        1 | 2 => {
            for _ in 0..r.range(1, 5) {
                let i = at(r);
                d[i] ^= 1 << r.below(8);
            }
            "bits flipped"
        }
        3 | 4 => {
            for _ in 0..r.range(1, 3) {
                let v: i32 = *r.pick(&[0, -1, i32::MIN, i32::MAX, 0x10000, 1, 2, -2, 0x7fff_0000, 100, 0x0100_0000]);
                let i = at(r);
                put(d, i, &v.to_le_bytes());
            }
            "integer replaced"
        }
        5 => {
            let (i, j, l) = (at(r), at(r), r.range(1, 40));
            let c: Vec<u8> = d[i..(i + l).min(n)].to_vec();
            put(d, j, &c);
            "piece copied"
        }
        6 => {
            let i = at(r);
            let l = r.range(1, 40).min(n - i);
            d.drain(i..i + l);
            "piece removed"
        }
        _ => {
            let i = at(r);
            let l = r.range(1, 40);
            let c = r.bytes(l);
            d.splice(i..i, c);
            "piece inserted"
        }
    }
}
/// loads whatever bytes; what loads can be written, and what is written loads again
pub fn survive(r: &mut Rng, b: (Vec<u8>, Option<Vec<u8>>), ev: unreal_asset_base::engine_version::EngineVersion, what: &str, o: &mut Obs) -> Result<(), Fail> {
    let size = b.0.len() + b.1.as_ref().map(|x| x.len()).unwrap_or(0);
    let cap = (64 << 20) + 1024 * size;
    let _ = r;
    with_alloc_cap(cap, || {
        let a = nopanic("hostile asset: reader panicked", || format!("loading a damaged package ({what})"), || load(&b.0, &b.1, ev))?;
        o.ev(1);
        let Ok(a) = a else {
            o.class("refused");
            return Ok(());
        };
        o.class("accepted");
        let raw = a.asset_data.exports.iter().filter(|e| matches!(e, Export::RawExport(_))).count();
        if raw > 0 {
            o.class("accepted, with exports kept as raw bytes");
        }
        let out = nopanic("hostile asset: writer panicked", || format!("writing an asset loaded from a damaged package ({what})"), || save(&a))?;
        o.ev(1);
        match out {
            Err(_) => {
                o.class("accepted, cannot be written");
                Ok(())
            }
            Ok(w) => {
                o.class("accepted, written");
                let again = nopanic("hostile asset: reader panicked", || format!("loading the rewritten damaged package ({what})"), || load(&w.0, &w.1, ev))?;
                o.ev(1);
                if again.is_err() {
                    o.class("written, then refused");
                }
                Ok(())
            }
        }
    })
}
/// the small fixture assets of the repository
pub fn fixtures() -> Vec<(String, Vec<u8>, Option<Vec<u8>>)> {
    fn walk(d: &std::path::Path, v: &mut Vec<std::path::PathBuf>) {
        let mut l: Vec<_> = std::fs::read_dir(d).map(|i| i.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
        l.sort();
        for p in l {
            if p.is_dir() {
                walk(&p, v)
            } else {
                v.push(p)
            }
        }
    }
    let mut v = vec![];
    walk(std::path::Path::new("/repo/unreal_asset/tests/assets"), &mut v);
    v.iter()
        .filter(|p| matches!(p.extension().and_then(|e| e.to_str()), Some("uasset" | "umap")))
        .filter_map(|p| {
            let m = std::fs::read(p).ok()?;
            let e = std::fs::read(p.with_extension("uexp")).ok();
            let n = m.len() + e.as_ref().map(|e| e.len()).unwrap_or(0);
            (n < 120_000).then(|| (p.file_name().unwrap().to_string_lossy().into_owned(), m, e))
        })
        .collect()
}
pub fn a04(c: &Ctx) {
    c.rule("Encoded packages and the repository's fixtures are cut, flipped, overwritten with hostile integers and spliced, then loaded and rewritten under an allocation cap; one workload damages a single export and requires all others to be what they were. Non-trivial = distinct damaged bytes.");
    c.cases("damaged-package", c.n(150_000, 6_000_000), |r, _| {
        let mut o = Obs::new();
        let p = pkg(r, 10);
        let mut b = p.encode();
        let what = match &mut b.1 {
            Some(e) if r.bool() => damage(r, e),
            _ => damage(r, &mut b.0),
        };
        if r.chance(1, 40) {
            b.1 = if b.1.is_some() { None } else { Some(r.bytes(50)) };
        }
        o.class(what);
        o.nontrivial(&b.0);
        survive(r, b, p.cf.ev, what, &mut o)?;
        Ok(o)
    });
    c.cases("damaged-export", c.n(100_000, 3_000_000), |r, _| contained(r));
    let f = fixtures();
    let evs = engines();
    c.cases("damaged-fixture", c.n(8_000, 400_000), |r, _| {
        let mut o = Obs::new();
        if f.is_empty() {
            return Ok(o);
        }
        let (name, m, e) = r.pick(&f);
        let mut b = (m.clone(), e.clone());
        for _ in 0..r.range(1, 4) {
            match &mut b.1 {
                Some(e) if r.bool() => damage(r, e),
                _ => damage(r, &mut b.0),
            };
        }
        let ev = *r.pick(&evs);
        o.nontrivial(&[name.as_bytes(), &b.0].concat());
        survive(r, b, ev, name, &mut o)?;
        Ok(o)
    });
}

/// damage inside one export's bytes: the other exports are still what they were
fn contained(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let p = pkg(r, 10);
    let mut b = p.encode();
    if p.exports.is_empty() {
        o.class("no exports");
        return Ok(o);
    }
    let bodies = p.bodies();
    let i = r.below(bodies.len());
    let n = bodies[i].len();
    let at: usize = bodies[..i].iter().map(|x| x.len()).sum();
    let split = b.1.is_some();
    let d = if split { b.1.as_mut().unwrap() } else { &mut b.0 };
    let start = d.len() - 4 - bodies.iter().map(|x| x.len()).sum::<usize>() + at;
    if n == 0 {
        o.class("empty export");
        return Ok(o);
    }
    for _ in 0..r.range(1, 4) {
        let k = r.below(n);
        match r.below(3) {
            0 => d[start + k] ^= 1 << r.below(8),
            1 => {
                let v: i32 = *r.pick(&[0, -1, i32::MIN, i32::MAX, 0x10000, 1, 2, 5, 100]);
                let l = 4.min(n - k);
                d[start + k..start + k + l].copy_from_slice(&v.to_le_bytes()[..l]);
            }
            _ => {
                let l = r.range(1, 20).min(n - k);
                let x = r.bytes(l);
                d[start + k..start + k + l].copy_from_slice(&x);
            }
        }
    }
    let now = d[start..start + n].to_vec();
    if now == bodies[i] {
        o.class("unchanged");
        return Ok(o);
    }
    o.nontrivial(&now);
    let key = "damaged export: ";
    with_alloc_cap((64 << 20) + 1024 * (b.0.len() + n), || {
        let a = nopanic("hostile asset: reader panicked", || "loading a package with a damaged export".into(), || load(&b.0, &b.1, p.cf.ev))?;
        let a = match a {
            Ok(a) => a,
            Err(e) => return fail(format!("{key}package refused"), format!("one damaged export makes the whole package unreadable: {e}")),
        };
        let mut rest = p.clone();
        same_but(&rest, &a, i, &mut o).map_err(|f| Fail { key: format!("{key}{}", f.key), msg: format!("with export {i} damaged: {}", f.msg) })?;
        let raw = match &a.asset_data.exports[i] {
            Export::RawExport(e) => Some(&e.data),
            _ => None,
        };
        o.ev(1);
        o.class(if raw.is_some() { "damaged export kept as raw bytes" } else { "damaged export read" });
        let out = nopanic("hostile asset: writer panicked", || "writing a package with a damaged export".into(), || save(&a))?;
        if let Some(x) = raw {
            if *x != now {
                return fail(format!("{key}raw bytes"), format!("export {i} is kept as {} bytes that are not the {n} bytes it has", x.len()));
            }
            rest.exports[i].kind = Kind::Raw(now.clone());
            let want = rest.encode();
            return match out {
                Ok(w) => same_bytes("package with a damaged export", &w, &want, &mut o),
                Err(e) => fail(format!("{key}write refused"), format!("cannot be written: {e}")),
            };
        }
        if let Ok(w) = out {
            let back = nopanic("hostile asset: reader panicked", || "loading a rewritten package with a damaged export".into(), || load(&w.0, &w.1, p.cf.ev))?;
            if let Ok(back) = back {
                o.class("damaged export rewritten");
                // what was read of the damaged export may need new names
                if back.get_name_map().get_ref().get_name_map_index_list().len() == p.names().len() {
                    same_but(&rest, &back, i, &mut o).map_err(|f| Fail { key: format!("{key}rewritten {}", f.key), msg: format!("rewritten with export {i} damaged: {}", f.msg) })?;
                }
            } else {
                return fail(format!("{key}rewritten refused"), format!("rewritten with export {i} damaged, the package cannot be read"));
            }
        }
        Ok(())
    })?;
    Ok(o)
}
