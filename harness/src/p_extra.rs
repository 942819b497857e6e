//! X01: Ace Combat 7 encryption. U01: mapping files (.usmap).
use crate::core::*;
use crate::p_base::ref_fstring;
use std::collections::BTreeMap;
use std::io::{Cursor, Write};
use unreal_asset::ac7::{self, AC7XorKey};
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::types::FName;
use unreal_asset_base::unversioned::properties::{UsmapProperty, UsmapPropertyData, UsmapPropertyDataTrait};
use unreal_asset_base::unversioned::{Ancestry, Usmap};

// ---------------------------------------------------------------- X01
/// The scheme as documented by the tools of the game's community, written from scratch.
struct RefKey {
    table: &'static [u8],
    a: u64,
    b: u64,
}
impl RefKey {
    fn new(name: &str) -> RefKey {
        let mut k: u32 = 0;
        for c in name.bytes() {
            k ^= c.to_ascii_uppercase() as u32;
            // the new lowest bit is the inverse of bit 7 xor bit 4
            let bit = 1 ^ ((k >> 7) & 1) ^ ((k >> 4) & 1);
            k = (k << 1) | bit;
        }
        let k = k as u64;
        RefKey { table: include_bytes!("/repo/unreal_asset/vendor/AC7Key.bin"), a: (k * 7 + 4) % 217, b: (k * 11 + 4) % 1024 }
    }
    fn apply(&mut self, d: &[u8]) -> Vec<u8> {
        d.iter()
            .map(|x| {
                let v = x ^ self.table[(self.a * 1024 + self.b) as usize] ^ 0x77;
                self.a = (self.a + 1) % 217;
                self.b = (self.b + 1) % 1024;
                v
            })
            .collect()
    }
}
const UE: [u8; 4] = [0xc1, 0x83, 0x2a, 0x9e];
fn x01_case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let ascii = !r.chance(1, 6);
    let name = if ascii {
        let n = r.below(40);
        let cs: Vec<u8> = (0..n).map(|_| *r.pick(b"abcxyzABCXYZ0129_-. ()[]~!")).collect();
        String::from_utf8(cs).unwrap()
    } else {
        gen_string(r, 20)
    };
    let la = *r.pick(&[0usize, 1, 2, 3, 4, 5, 8, 217, 221, 1024, 1028, 2000, 5000, 70000]) + if r.bool() { r.below(300) } else { 0 };
    let le = *r.pick(&[0usize, 1, 3, 4, 217, 1024, 3000, 230_000]) + if r.bool() { r.below(300) } else { 0 };
    let le = if r.chance(3, 4) { le % 4000 } else { le };
    let mut a = r.blob(la);
    let n = a.len().min(4);
    a[..n].copy_from_slice(&UE[..n]);
    let e = r.blob(le);
    let (ea, ee) = nopanic("panic", || format!("encrypting {la}+{le} bytes"), || ac7::encrypt(&a, &e, AC7XorKey::new(&name)))?;
    let (da, de) = nopanic("panic", || format!("decrypting {la}+{le} bytes"), || ac7::decrypt(&ea, &ee, AC7XorKey::new(&name)))?;
    o.ev(2);
    if da != a || de != e {
        return fail("roundtrip", format!("decrypting {la}+{le} encrypted bytes of {name:?} gives something else"));
    }
    if n == 4 && ea[..4] != *b"ACE7" {
        return fail("magic", format!("encrypted package starts with {:?}", &ea[..4]));
    }
    if ascii {
        let mut k = RefKey::new(&name);
        let wa = if a.len() > 4 { k.apply(&a[4..]) } else { vec![] };
        let we = k.apply(&e);
        o.ev(2);
        if ea.get(4..).unwrap_or(&[]) != &wa[..] {
            return fail("scheme", format!("encrypted package of {name:?} ({la} bytes) differs from the scheme"));
        }
        if ee != we {
            return fail("scheme", format!("encrypted exports of {name:?} ({la}+{le} bytes) differ from the scheme"));
        }
        // the name counts without regard to case
        let other: String = name.chars().map(|c| if r.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
        if AC7XorKey::new(&other) != AC7XorKey::new(&name) {
            return fail("case", format!("keys of {name:?} and {other:?} differ"));
        }
    }
    if r.chance(1, 4) {
        // also letters outside ASCII that have one upper and one lower form
        const PAIRS: &[(char, char)] = &[('a', 'A'), ('z', 'Z'), ('\u{e9}', '\u{c9}'), ('\u{fc}', '\u{dc}'), ('\u{436}', '\u{416}'), ('\u{3bb}', '\u{39b}'), ('\u{105}', '\u{104}')];
        let ps: Vec<_> = (0..r.range(1, 12)).map(|_| *r.pick(PAIRS)).collect();
        let mut spell = || ps.iter().map(|p| if r.bool() { p.0 } else { p.1 }).collect::<String>();
        let (x, y) = (spell(), spell());
        o.ev(1);
        let (xa, xe) = ac7::encrypt(&a, &e, AC7XorKey::new(&x));
        if ac7::decrypt(&xa, &xe, AC7XorKey::new(&y)) != (a.clone(), e.clone()) {
            return fail("case", format!("files encrypted as {x:?} do not decrypt as {y:?}"));
        }
    }
    // one part at a time with one key is the same as both at once
    let mut k = AC7XorKey::new(&name);
    if ac7::decrypt_uasset(&ea, &mut k) != a || ac7::decrypt_uexp(&ee, &mut k) != e {
        return fail("parts", "decrypting one file at a time gives something else".to_string());
    }
    let mut k = AC7XorKey::new(&name);
    if ac7::encrypt_uasset(&a, &mut k) != ea || ac7::encrypt_uexp(&e, &mut k) != ee {
        return fail("parts", "encrypting one file at a time gives something else".to_string());
    }
    // whatever is decrypted, the result has the same size and is a package again
    let junk = r.bytes(la);
    let (ja, je) = nopanic("panic", || "decrypting junk".into(), || ac7::decrypt(&junk, &e, AC7XorKey::new(&name)))?;
    if ja.len() != la || je.len() != le || ja[..n] != UE[..n] {
        return fail("junk", "decrypted junk has another size or magic".to_string());
    }
    o.ev(3);
    o.class(format!("{} name, {} package, {} exports", if ascii { "ascii" } else { "other" }, sz(la), sz(le)));
    if la + le > 4 {
        o.nontrivial(&[name.as_bytes(), &a[..la.min(64)], &e[..le.min(64)]].concat());
    }
    Ok(o)
}
fn sz(n: usize) -> &'static str {
    match n {
        0 => "empty",
        1..=3 => "tiny",
        4..=1024 => "small",
        _ => "large",
    }
}
pub fn x01(c: &Ctx) {
    c.rule("Files of 0 to 230000 bytes under names of all kinds are encrypted and decrypted, whole and in parts, and compared with an own implementation of the scheme; non-trivial = more than the magic.");
    c.cases("files", c.n(12_000, 300_000), |r, _| x01_case(r));
    // real packages of the repository's own tests
    c.cases("fixtures", 1, |_, _| {
        let mut o = Obs::new();
        let d = std::path::Path::new("/repo/unreal_asset/tests/assets/ac7");
        for n in std::fs::read_dir(d).map(|x| x.flatten().map(|e| e.path()).collect::<Vec<_>>()).unwrap_or_default() {
            if n.extension().map(|e| e != "uasset").unwrap_or(true) || !n.with_extension("uexp").exists() {
                continue;
            }
            let (a, e) = (std::fs::read(&n).unwrap(), std::fs::read(n.with_extension("uexp")).unwrap());
            let stem = n.file_stem().unwrap().to_string_lossy().into_owned();
            if a[..4] == *b"ACE7" {
                let (da, de) = ac7::decrypt(&a, &e, AC7XorKey::new(&stem));
                let mut k = RefKey::new(&stem);
                if da[4..] != k.apply(&a[4..]) || de != k.apply(&e) {
                    return fail("scheme", format!("{stem} decrypts to something else than the scheme says"));
                }
                o.ev(1);
                o.nontrivial(&a[..64]);
            }
        }
        Ok(o)
    });
}

// ---------------------------------------------------------------- U01
#[derive(Debug, Clone)]
enum Ty {
    Plain(u8),
    Array(Box<Ty>),
    Set(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Enum(Box<Ty>, usize),
    Struct(usize),
}
const PLAIN: [(u8, &str); 23] = [
    (0, "ByteProperty"), (1, "BoolProperty"), (2, "IntProperty"), (3, "FloatProperty"), (4, "ObjectProperty"), (5, "NameProperty"), (6, "DelegateProperty"),
    (7, "DoubleProperty"), (10, "StrProperty"), (11, "TextProperty"), (12, "InterfaceProperty"), (13, "MulticastDelegateProperty"), (14, "WeakObjectProperty"),
    (15, "LazyObjectProperty"), (16, "AssetObjectProperty"), (17, "SoftObjectProperty"), (18, "UInt64Property"), (19, "UInt32Property"), (20, "UInt16Property"),
    (21, "Int64Property"), (22, "Int16Property"), (23, "Int8Property"), (27, "FieldPathProperty"),
];
#[derive(Debug, Clone)]
struct Prop {
    index: u16,
    array: u8,
    name: usize,
    ty: Ty,
}
#[derive(Debug, Clone)]
struct Schema {
    name: usize,
    sup: usize,
    count: u16,
    props: Vec<Prop>,
    path: usize,
}
#[derive(Debug, Clone)]
struct Model {
    version: u8,
    versioning: Option<(i32, i32, Vec<([u8; 16], i32)>, u32)>,
    method: u8,
    names: Vec<String>,
    enums: Vec<(usize, Vec<usize>)>,
    schemas: Vec<Schema>,
    /// None: no extension; Some(None): an empty one
    ext: Option<Option<Vec<String>>>,
}
fn gen_ty(r: &mut Rng, n: usize, depth: usize) -> Ty {
    match r.below(if depth == 0 { 4 } else { 9 }) {
        4 => Ty::Array(Box::new(gen_ty(r, n, depth - 1))),
        5 => Ty::Set(Box::new(gen_ty(r, n, depth - 1))),
        6 => Ty::Map(Box::new(gen_ty(r, n, depth - 1)), Box::new(gen_ty(r, n, depth - 1))),
        7 => Ty::Enum(Box::new(gen_ty(r, n, depth - 1)), r.below(n)),
        8 => Ty::Struct(r.below(n)),
        _ => Ty::Plain(r.pick(&PLAIN).0),
    }
}
fn gen_model(r: &mut Rng, cyclic: bool) -> Model {
    let mut names: Vec<String> = vec!["None".into()];
    for i in 0..r.range(6, 60) {
        let s = match r.below(6) {
            0 => format!("{}{i}", gen_string(r, 12)),
            1 => format!("{}{i}", gen_ident(r).repeat(r.range(1, 20))).chars().take(250).collect(),
            _ => format!("{}{i}", gen_ident(r)),
        };
        if s.len() <= 254 && !names.contains(&s) {
            names.push(s);
        }
    }
    if r.chance(1, 4) {
        names.push(String::new());
    }
    let nn = names.len();
    let enums = {
        let mut used = BTreeMap::new();
        for _ in 0..r.below(6) {
            let k = *r.pick(&[0usize, 1, 3, 3, 255]);
            used.insert(r.below(nn), (0..k).map(|_| r.below(nn)).collect::<Vec<_>>());
        }
        let mut v: Vec<_> = used.into_iter().collect();
        if r.bool() {
            v.reverse();
        }
        v
    };
    let mut schemas: Vec<Schema> = vec![];
    let mut pool: Vec<usize> = (1..nn).collect();
    let want = *r.pick(&[0usize, 1, 2, 4, 7]);
    for _ in 0..want.min(pool.len() / 2) {
        let name = pool.swap_remove(r.below(pool.len()));
        let sup = if schemas.is_empty() || r.chance(1, 4) { 0 } else { schemas[r.below(schemas.len())].name };
        schemas.push(Schema { name, sup, count: 0, props: vec![], path: 0 });
    }
    // names of properties: the rest, shared between schemas
    for s in &mut schemas {
        let mut at = 0u16;
        let mut mine = pool.clone();
        for _ in 0..r.below(7) {
            if mine.is_empty() {
                break;
            }
            let name = mine.swap_remove(r.below(mine.len()));
            let array = *r.pick(&[1u8, 1, 1, 1, 2, 5, 255]);
            s.props.push(Prop { index: at, array, name, ty: gen_ty(r, nn, 3) });
            at += array as u16 + if r.chance(1, 5) { r.below(3) as u16 } else { 0 };
        }
        s.count = at;
        if r.chance(1, 8) {
            r.shuffle(&mut s.props);
        }
    }
    if cyclic && !schemas.is_empty() {
        let (a, b) = (r.below(schemas.len()), r.below(schemas.len()));
        schemas[a].sup = schemas[b].name;
    }
    if r.bool() {
        r.shuffle(&mut schemas);
    }
    let version = r.below(4) as u8;
    let versioning = if version > 0 && r.bool() {
        let ov = loop {
            let v = r.range(214, 522) as i32;
            if ObjectVersion::try_from(v).is_ok() {
                break v;
            }
        };
        let ov5 = loop {
            let v = if r.bool() { 0 } else { r.range(1000, 1012) as i32 };
            if ObjectVersionUE5::try_from(v).is_ok() {
                break v;
            }
        };
        let cvs = (0..r.below(4)).map(|_| (r.bytes(16).try_into().unwrap(), r.i32())).collect();
        Some((ov, ov5, cvs, r.u32()))
    } else {
        None
    };
    let ext = match r.below(3) {
        0 => None,
        1 => Some(None),
        _ => {
            let n = *r.pick(&[1usize, 2, 5, 254, 255, 256, 257, 300]);
            let p: Vec<String> = (0..n).map(|i| format!("/Game/{}{i}", gen_string(r, 6).replace('\0', ""))).collect();
            for s in &mut schemas {
                s.path = if r.bool() { n - 1 } else { r.below(n) };
            }
            Some(Some(p))
        }
    };
    Model { version, versioning, method: *r.pick(&[0u8, 2, 3]), names, enums, schemas, ext }
}
fn put_ty(t: &Ty, b: &mut Vec<u8>) {
    match t {
        Ty::Plain(x) => b.push(*x),
        Ty::Array(i) => {
            b.push(8);
            put_ty(i, b)
        }
        Ty::Struct(n) => {
            b.push(9);
            b.extend((*n as i32).to_le_bytes())
        }
        Ty::Map(k, v) => {
            b.push(24);
            put_ty(k, b);
            put_ty(v, b)
        }
        Ty::Set(i) => {
            b.push(25);
            put_ty(i, b)
        }
        Ty::Enum(i, n) => {
            b.push(26);
            put_ty(i, b);
            b.extend((*n as i32).to_le_bytes())
        }
    }
}
fn body(m: &Model) -> Vec<u8> {
    let mut b = vec![];
    let i = |b: &mut Vec<u8>, n: usize| b.extend((n as u32).to_le_bytes());
    i(&mut b, m.names.len());
    for n in &m.names {
        b.push(n.len() as u8 + 1);
        b.extend(n.as_bytes());
    }
    i(&mut b, m.enums.len());
    for (n, v) in &m.enums {
        i(&mut b, *n);
        b.push(v.len() as u8);
        for x in v {
            i(&mut b, *x);
        }
    }
    i(&mut b, m.schemas.len());
    for s in &m.schemas {
        i(&mut b, s.name);
        i(&mut b, s.sup);
        b.extend(s.count.to_le_bytes());
        b.extend((s.props.len() as u16).to_le_bytes());
        for p in &s.props {
            b.extend(p.index.to_le_bytes());
            b.push(p.array);
            i(&mut b, p.name);
            put_ty(&p.ty, &mut b);
        }
    }
    if let Some(e) = &m.ext {
        i(&mut b, e.is_some() as usize);
        if let Some(paths) = e {
            b.extend((paths.len() as u16).to_le_bytes());
            for p in paths {
                b.extend(ref_fstring(Some(p)));
            }
            for s in &m.schemas {
                if paths.len() > 255 {
                    b.extend((s.path as u16).to_le_bytes());
                } else {
                    b.push(s.path as u8);
                }
            }
        }
    }
    b
}
fn pack(m: &Model, body: &[u8], method: u8, claim: Option<u32>) -> Vec<u8> {
    let mut b = vec![0xc4, 0x30, m.version];
    if m.version > 0 {
        b.push(m.versioning.is_some() as u8);
    }
    if let Some((v4, v5, cv, cl)) = &m.versioning {
        b.extend(v4.to_le_bytes());
        b.extend(v5.to_le_bytes());
        b.extend((cv.len() as i32).to_le_bytes());
        for (g, v) in cv {
            b.extend(g);
            b.extend(v.to_le_bytes());
        }
        b.extend(cl.to_le_bytes());
    }
    b.push(method);
    let z = match method {
        2 => {
            let mut w = brotli::CompressorWriter::new(Vec::new(), 4096, 2, 18);
            w.write_all(body).unwrap();
            w.into_inner()
        }
        3 => zstd::stream::encode_all(body, 1).unwrap(),
        _ => body.to_vec(),
    };
    b.extend((z.len() as u32).to_le_bytes());
    b.extend(claim.unwrap_or(body.len() as u32).to_le_bytes());
    b.extend(z);
    b
}
fn show_ty(m: &Model, t: &Ty) -> String {
    match t {
        Ty::Plain(x) => PLAIN.iter().find(|p| p.0 == *x).unwrap().1.to_string(),
        Ty::Array(i) => format!("Array<{}>", show_ty(m, i)),
        Ty::Set(i) => format!("Set<{}>", show_ty(m, i)),
        Ty::Map(k, v) => format!("Map<{},{}>", show_ty(m, k), show_ty(m, v)),
        Ty::Enum(i, n) => format!("Enum<{},{:?}>", show_ty(m, i), m.names[*n]),
        Ty::Struct(n) => format!("Struct<{:?}>", m.names[*n]),
    }
}
fn lib_ty(t: &UsmapPropertyData) -> String {
    match t {
        UsmapPropertyData::UsmapEnumPropertyData(x) => format!("Enum<{},{:?}>", lib_ty(&x.inner_property), x.name),
        UsmapPropertyData::UsmapStructPropertyData(x) => format!("Struct<{:?}>", x.struct_type),
        UsmapPropertyData::UsmapSetPropertyData(x) => format!("Set<{}>", lib_ty(&x.inner_type)),
        UsmapPropertyData::UsmapArrayPropertyData(x) => format!("Array<{}>", lib_ty(&x.inner_type)),
        UsmapPropertyData::UsmapMapPropertyData(x) => format!("Map<{},{}>", lib_ty(&x.inner_type), lib_ty(&x.value_type)),
        UsmapPropertyData::UsmapShallowPropertyData(_) => t.get_property_type().to_string(),
    }
}
fn lib_prop(p: &UsmapProperty) -> String {
    format!("{:?}[{}/{}] at {}: {}", p.name, p.array_index, p.array_size, p.schema_index, lib_ty(&p.property_data))
}
fn props_of(m: &Model, s: &Schema) -> Vec<(String, u32, u16, String)> {
    let mut v = vec![];
    for p in &s.props {
        for j in 0..p.array as u16 {
            v.push((m.names[p.name].clone(), j as u32, p.index + j, format!("{:?}[{}/{}] at {}: {}", m.names[p.name], j, p.array, p.index + j, show_ty(m, &p.ty))));
        }
    }
    v
}
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), Fail> {
    if got != want {
        let (g, w) = (format!("{got:?}"), format!("{want:?}"));
        let at = g.chars().zip(w.chars()).take_while(|(a, b)| a == b).count().saturating_sub(30);
        let cut = |s: &str| s.chars().skip(at).take(160).collect::<String>();
        return fail(what, format!("{what}: read ..{}, stated ..{}", cut(&g), cut(&w)));
    }
    Ok(())
}
fn u01_case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let m = gen_model(r, false);
    let b = body(&m);
    let f = pack(&m, &b, m.method, None);
    let u = match nopanic("panic", || "loading a mapping file".into(), || Usmap::new(Cursor::new(f)))? {
        Ok(u) => u,
        Err(e) => return fail("refused", format!("well-formed mapping file (version {}, method {}) refused: {e}", m.version, m.method)),
    };
    eq("version", u.version as u8, m.version)?;
    eq("method", u.compression_method as u8, m.method)?;
    let (v4, v5, cv, cl) = m.versioning.clone().unwrap_or((0, 0, vec![], 0));
    eq("object version", u.object_version as i32, v4)?;
    eq("object version 5", u.object_version_ue5 as i32, v5)?;
    eq("custom versions", u.custom_versions.iter().map(|c| (c.guid.0, c.version)).collect::<Vec<_>>(), cv)?;
    eq("changelist", u.net_cl, cl)?;
    eq("names", u.name_map.clone(), m.names.clone())?;
    eq(
        "enums",
        u.enum_map.iter().map(|(_, k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(),
        m.enums.iter().map(|(n, v)| (m.names[*n].clone(), v.iter().map(|x| m.names[*x].clone()).collect::<Vec<_>>())).collect(),
    )?;
    eq("extension", u.extension_version.bits(), matches!(m.ext, Some(Some(_))) as u32)?;
    eq("schemas", u.schemas.keys().cloned().collect::<Vec<_>>(), m.schemas.iter().map(|s| m.names[s.name].clone()).collect())?;
    o.ev(10);
    for s in &m.schemas {
        let n = &m.names[s.name];
        let g = u.schemas.get_by_key(n).unwrap();
        eq("schema", (&g.name, &g.super_type, g.prop_count), (n, &m.names[s.sup], s.count))?;
        let path = match &m.ext {
            Some(Some(p)) => Some(p[s.path].clone()),
            _ => None,
        };
        eq("module path", g.module_path.clone(), path)?;
        let want = props_of(&m, s);
        eq("properties", g.properties.values().map(lib_prop).collect::<Vec<_>>(), want.iter().map(|w| w.3.clone()).collect())?;
        for (name, j, _, text) in &want {
            eq("schema lookup", g.get_property(name, *j).map(lib_prop), Some(text.clone()))?;
        }
        o.ev(3 + want.len() as u64);
    }
    // inherited properties
    let by: BTreeMap<usize, &Schema> = m.schemas.iter().map(|s| (s.name, s)).collect();
    let mut longest = 0;
    for s in &m.schemas {
        let mut chain = vec![];
        let mut at = Some(s);
        while let Some(x) = at {
            chain.push(x);
            at = by.get(&x.sup).copied();
        }
        longest = longest.max(chain.len());
        let n = &m.names[s.name];
        let mut all = vec![];
        let mut seen: BTreeMap<(String, u32), (String, u32)> = BTreeMap::new();
        let mut base = 0u32;
        for x in &chain {
            for (name, j, idx, text) in props_of(&m, x) {
                all.push(text.clone());
                seen.entry((name, j)).or_insert((text, base + idx as u32));
            }
            base += x.count as u32;
        }
        eq("all properties", u.get_all_properties(n).into_iter().map(lib_prop).collect::<Vec<_>>(), all)?;
        let anc = Ancestry::new(FName::new_dummy(n.clone(), 0));
        for ((name, j), (text, idx)) in &seen {
            let f = FName::new_dummy(name.clone(), 0);
            let g = u.get_property_with_duplication_index(&f, &anc, *j).map(|(p, i)| (lib_prop(p), i));
            eq("lookup", g, Some((text.clone(), *idx)))?;
            if *j == 0 {
                eq("lookup of the first", u.get_property(&f, &anc).map(lib_prop), Some(text.clone()))?;
                // an element of an array property is described by the array
                let num = FName::new_dummy(r.below(50).to_string(), 0);
                let free = num.get_content(|c| !m.names.iter().any(|n| n == c)) && !by.keys().any(|k| m.names[*k] == *name);
                if free {
                    let deep = anc.with_parent(f.clone());
                    eq("lookup of an element", u.get_property(&num, &deep).map(lib_prop), Some(text.clone()))?;
                }
            }
            o.ev(2);
        }
        // names that no schema of the chain has
        for x in m.names.iter().take(12).chain(["no such name".to_string()].iter()) {
            for j in [0u32, 1, 300] {
                if !seen.contains_key(&(x.clone(), j)) {
                    let g = u.get_property_with_duplication_index(&FName::new_dummy(x.clone(), 0), &anc, j).map(|(p, i)| (lib_prop(p), i));
                    eq("lookup of something absent", g, None)?;
                    o.ev(1);
                }
            }
        }
    }
    o.class(format!("version {} method {} chain {longest} extension {}", m.version, m.method, m.ext.as_ref().map(|e| e.is_some() as i32).unwrap_or(-1)));
    if !m.schemas.is_empty() {
        o.nontrivial(&b);
    }
    Ok(o)
}
fn u01_hostile(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let m = gen_model(r, true);
    let mut b = body(&m);
    let kind = r.below(8);
    let mut must_fail = false;
    let f = match kind {
        0 => pack(&m, &b, m.method, None),
        1 => {
            // the stated size is not the size
            let d = *r.pick(&[1i64, -1, 5, -5, 1000, 0x7fff_ffff, 0xffff_ffff]);
            let n = (b.len() as i64 + d).clamp(0, u32::MAX as i64) as u32;
            must_fail = n as usize != b.len();
            pack(&m, &b, m.method, Some(n))
        }
        2 => {
            let mut f = pack(&m, &b, m.method, None);
            crate::p_pak::mutate(r, &mut f);
            f
        }
        3 => {
            let mut f = pack(&m, &b, m.method, None);
            f.truncate(r.below(f.len()));
            must_fail = true;
            f
        }
        4 => {
            // a type nested without end
            let n = *r.pick(&[100usize, 300, 5000, 200_000]);
            let mut x = vec![];
            x.extend(1u32.to_le_bytes());
            x.extend([2, b'A']);
            x.extend(0u32.to_le_bytes());
            x.extend(1u32.to_le_bytes());
            x.extend([0; 8]);
            x.extend([1, 0, 1, 0, 0, 0, 1, 0, 0, 0, 0]);
            for _ in 0..n {
                x.push(*r.pick(&[8u8, 25, 8, 24, 26]));
            }
            must_fail = n > 1000;
            pack(&m, &x, m.method, None)
        }
        _ => {
            crate::p_pak::mutate(r, &mut b);
            pack(&m, &b, m.method, None)
        }
    };
    let cap = (32 << 20) + f.len().max(b.len()) * 64;
    let n = f.len();
    let u = with_alloc_cap(cap, || nopanic("panic", || format!("loading a damaged mapping file (kind {kind}, {n} bytes)"), || Usmap::new(Cursor::new(f))))?;
    o.ev(1);
    match u {
        Err(_) => o.class(format!("kind {kind} refused")),
        Ok(u) => {
            o.class(format!("kind {kind} accepted"));
            if must_fail {
                return fail("accepted", format!("damaged mapping file accepted (kind {kind})"));
            }
            let keys: Vec<String> = u.schemas.keys().cloned().collect();
            for k in keys.iter().take(8) {
                let all = nopanic("panic", || "properties of a damaged mapping file".into(), || u.get_all_properties(k).len())?;
                let anc = Ancestry::new(FName::new_dummy(k.clone(), 0));
                nopanic("panic", || "lookup in a damaged mapping file".into(), || u.get_property(&FName::new_dummy("no such name".to_string(), 0), &anc).is_some())?;
                o.ev(2);
                if kind == 0 && all > 0 {
                    o.class("cycle or chain walked");
                }
            }
        }
    }
    o.nontrivial(&[kind as u8, n as u8, (n >> 8) as u8, b.get(b.len() / 2).copied().unwrap_or(0)]);
    Ok(o)
}
pub fn u01(c: &Ctx) {
    c.rule("Mapping files of every version and compression, with enums, inheritance, static arrays and module paths, are encoded by an own encoder; what is loaded and every lookup is compared with the model; damaged ones must end in an error; non-trivial = at least one schema, or damaged.");
    c.assume("a name's length byte states one more than its bytes, as the library has it; oodle files are not generated");
    c.cases("files", c.n(6_000, 150_000), |r, _| u01_case(r));
    c.cases("damaged", c.n(25_000, 600_000), |r, _| u01_hostile(r));
}
