//! A05.. : codecs of properties, exports and expressions under the generating archive.
use crate::arch::*;
use crate::core::*;
use std::fmt::Debug;
use unreal_asset_base::containers::{IndexedMap, NameMap};
use unreal_asset_base::engine_version::{get_object_versions, guess_engine_version, EngineVersion};
use unreal_asset_base::error::Error;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::unversioned::Ancestry;
use unreal_asset_properties::{Property, PropertyTrait};

pub const TAG_TYPES: &[&str] = &[
    "BoolProperty", "UInt16Property", "UInt32Property", "UInt64Property", "FloatProperty", "Int16Property",
    "Int64Property", "Int8Property", "IntProperty", "ByteProperty", "DoubleProperty", "NameProperty", "StrProperty",
    "TextProperty", "ObjectProperty", "AssetObjectProperty", "SoftObjectProperty", "SetProperty", "ArrayProperty",
    "MapProperty", "DelegateProperty", "MulticastDelegateProperty", "MulticastSparseDelegateProperty",
    "MulticastInlineDelegateProperty", "StructProperty", "EnumProperty",
];
pub const STRUCT_TYPES: &[&str] = &[
    "IntPoint", "Vector", "Vector4", "Vector2D", "Box", "Box2D", "Quat", "Rotator", "Plane", "LinearColor", "Color",
    "Timespan", "DateTime", "Guid", "PerPlatformBool", "PerPlatformInt", "PerPlatformFloat",
    "MaterialAttributesInput", "ExpressionInput", "ColorMaterialInput", "ScalarMaterialInput",
    "ShadingModelMaterialInput", "VectorMaterialInput", "Vector2MaterialInput", "WeightedRandomSampler",
    "SkeletalMeshAreaWeightedTriangleSampler", "SkeletalMeshSamplingLODBuiltData", "SoftAssetPath", "SoftObjectPath",
    "SoftClassPath", "StringAssetReference", "RichCurveKey", "ViewTargetBlendParams", "GameplayTagContainer",
    "SmartName", "ClothLODData", "FontCharacter", "UniqueNetIdRepl", "NiagaraVariable", "NiagaraVariableWithOffset",
    "FontData", "FloatRange", "RawStructProperty", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr",
    "MovieSceneEvaluationFieldEntityTree", "MovieSceneSubSequenceTree", "MovieSceneSequenceInstanceDataPtr",
    "SectionEvaluationDataTree", "MovieSceneTrackFieldData", "MovieSceneEventParameters", "MovieSceneFloatChannel",
    "MovieSceneFloatValue", "MovieSceneFrameRange", "MovieSceneSegment", "MovieSceneSegmentIdentifier",
    "MovieSceneTrackIdentifier", "MovieSceneSequenceId", "MovieSceneEvaluationKey",
];
/// contain tagged properties, whose sizes the generator does not know
pub const NESTED: &[&str] = &[
    "StructProperty", "ArrayProperty", "MapProperty", "SetProperty", "ClothLODData", "NiagaraVariable",
    "NiagaraVariableWithOffset", "MovieSceneEvalTemplatePtr", "MovieSceneTrackImplementationPtr", "MovieSceneSegment",
    "SectionEvaluationDataTree",
];
/// contain flags stored as integers or counts that may not be negative
const INT_FLAGS: &[&str] = &[
    "FontData", "MovieSceneEvaluationFieldEntityTree", "MovieSceneFloatChannel", "MovieSceneSubSequenceTree",
    "MovieSceneTrackFieldData", "MulticastDelegateProperty", "MulticastInlineDelegateProperty",
    "MulticastSparseDelegateProperty", "UniqueNetIdRepl", "ViewTargetBlendParams",
];
const WORDS: &[&str] = &["Health", "LowerBound", "Root", "Mesh0", "Ünï", "Keys", "Tracks", "ColorDatabase", "EColor", "EColor::Red"];

use ObjectVersion::*;
/// object versions at which some layout changes
pub const OV: &[ObjectVersion] = &[
    VER_UE4_UCLASS_SERIALIZE_INTERFACES_AFTER_LINKING,
    VER_UE4_PRELOAD_DEPENDENCIES_IN_COOKED_EXPORTS,
    VER_UE4_WORLD_LEVEL_INFO_UPDATED,
    VER_UE4_NAME_HASHES_SERIALIZED,
    VER_UE4_FTEXT_HISTORY,
    VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG,
    VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG,
    VER_UE4_INNER_ARRAY_TAG_INFO,
    VER_UE4_ADDED_SOFT_OBJECT_PATH,
    VER_UE4_64BIT_EXPORTMAP_SERIALSIZES,
    VER_UE4_WORLD_LEVEL_INFO_ZORDER,
    VER_UE4_WORLD_LEVEL_INFO_LOD_LIST,
    VER_UE4_WORLD_LEVEL_INFO,
    VER_UE4_WORLD_LAYER_ENABLE_DISTANCE_STREAMING,
    VER_UE4_TemplateIndex_IN_COOKED_EXPORTS,
    VER_UE4_TIGHTLY_PACKED_ENUMS,
    VER_UE4_SERIALIZE_TEXT_IN_PACKAGES,
    VER_UE4_SERIALIZE_RICH_CURVE_KEY,
    VER_UE4_PACKAGE_SUMMARY_HAS_COMPATIBLE_ENGINE_VERSION,
    VER_UE4_LOAD_FOR_EDITOR_GAME,
    VER_UE4_ENUM_CLASS_SUPPORT,
    VER_UE4_ENGINE_VERSION_OBJECT,
    VER_UE4_COOKED_ASSETS_IN_EDITOR_SUPPORT,
    VER_UE4_CLASS_NOTPLACEABLE_ADDED,
    VER_UE4_CHANGE_SETARRAY_BYTECODE,
    VER_UE4_CHANGED_CHUNKID_TO_BE_AN_ARRAY_OF_CHUNKIDS,
    VER_UE4_ADD_STRING_ASSET_REFERENCES_MAP,
    VER_UE4_ADD_COOKED_TO_UCLASS,
    VER_UE4_ADDED_SEARCHABLE_NAMES,
    VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT,
    VER_UE4_ADDED_CHUNKID_TO_ASSETDATA_AND_UPACKAGE,
];
pub fn max_ov() -> ObjectVersion {
    get_object_versions(EngineVersion::VER_UE5_2).0
}
pub fn any_version(r: &mut Rng) -> (ObjectVersion, ObjectVersionUE5) {
    match r.below(4) {
        0 => {
            let v = *r.pick(OV) as i32 - r.below(2) as i32;
            (ObjectVersion::try_from(v).unwrap(), ObjectVersionUE5::UNKNOWN)
        }
        1 => {
            let v = r.range(ObjectVersion::VER_UE4_OLDEST_LOADABLE_PACKAGE as usize, max_ov() as usize);
            (ObjectVersion::try_from(v as i32).unwrap(), ObjectVersionUE5::UNKNOWN)
        }
        2 => (max_ov(), ObjectVersionUE5::UNKNOWN),
        _ => (max_ov(), ObjectVersionUE5::try_from(r.range(1000, 1009) as i32).unwrap()),
    }
}
pub fn cfg(r: &mut Rng) -> Cfg {
    let mix = r.bool();
    cfg_with(r, mix)
}
fn cfg_with(r: &mut Rng, mix: bool) -> Cfg {
    let mut nm = NameMap::new();
    let mut idx = |s: &str| nm.get_mut().add_name_reference(s.to_string(), false);
    // any name may come first, or late
    if mix {
        let mut all: Vec<&str> = ["None"].iter().chain(TAG_TYPES).chain(STRUCT_TYPES).chain(WORDS).copied().collect();
        all.extend(["LowerBound", "UpperBound"]);
        for _ in 0..r.range(1, 4) {
            let i = r.below(all.len());
            idx(all.swap_remove(i));
        }
        if r.chance(1, 3) {
            r.shuffle(&mut all);
            all.iter().for_each(|s| {
                idx(s);
            });
        }
    }
    let none = idx("None");
    let mut words: Vec<i32> = TAG_TYPES.iter().map(|s| idx(s)).collect();
    for s in STRUCT_TYPES {
        words.push(idx(s));
    }
    for s in WORDS {
        idx(s);
    }
    // bias towards the plain tag types
    for _ in 0..2 {
        let w: Vec<i32> = words[..TAG_TYPES.len()].to_vec();
        words.extend(w);
    }
    let (ov, ov5) = any_version(r);
    let imports = ["Class", "BlueprintGeneratedClass", "DataTable", "Package"]
        .iter()
        .map(|s| nm.get_mut().add_fname(s))
        .collect();
    Cfg {
        ov,
        ov5,
        ev: guess_engine_version(ov, ov5, &[]),
        edl: r.bool(),
        cv_seed: r.u64(),
        cvs: None,
        names: nm,
        fname_words: words,
        none,
        imports,
        array_override: IndexedMap::from([("Keys".to_string(), "RichCurveKey".to_string())]),
        key_override: IndexedMap::from([("Tracks".to_string(), "MovieSceneTrackIdentifier".to_string())]),
        value_override: IndexedMap::from([("ColorDatabase".to_string(), "LinearColor".to_string())]),
        tracing: vec![],
    }
}
/// puts the names that matter to property readers into the name table
pub fn seed_names(cf: &mut Cfg) {
    let mut words: Vec<i32> = TAG_TYPES.iter().map(|s| cf.name_idx(s)).collect();
    for s in STRUCT_TYPES {
        words.push(cf.name_idx(s));
    }
    for s in WORDS {
        cf.name_idx(s);
    }
    for _ in 0..2 {
        let w: Vec<i32> = words[..TAG_TYPES.len()].to_vec();
        words.extend(w);
    }
    cf.fname_words = words;
}
pub fn gen(r: &mut Rng, tiny: bool) -> Gen {
    Gen {
        r: Rng::new(r.u64()),
        tiny,
        soft: r.range(40, 600),
        hard: 20000,
        none_pct: r.range(15, 50),
        script: Default::default(),
        big: 60,
    }
}

pub enum Out<T> {
    /// the generated input was refused
    Refused(String),
    Done(T, Vec<u8>),
}
fn hex(b: &[u8]) -> String {
    let s: String = b.iter().take(160).map(|x| format!("{x:02x}")).collect();
    s
}
fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!("first difference at byte {i} of {}/{}: read {} wrote {}", a.len(), b.len(), hex(a), hex(b))
}
/// generate, replay, write, reread. `exact`: the written bytes must be the read ones.
pub fn round_trip<T: PartialEq + Debug>(
    what: &str,
    cfg: &Cfg,
    g: Gen,
    exact: bool,
    parse: &dyn Fn(&mut Arch) -> Result<T, Error>,
    write: &dyn Fn(&T, &mut Arch) -> Result<(), Error>,
    o: &mut Obs,
) -> Result<Out<T>, Fail> {
    let mut a = cfg.generator(g);
    let x0 = match guard(|| parse(&mut a)) {
        Err(m) => return fail(format!("{what}: panic in reader"), format!("{what}: reader panicked: {m}; bytes {}", hex(&a.d))),
        Ok(Err(e)) => return Ok(Out::Refused(format!("{e}"))),
        Ok(Ok(x)) => x,
    };
    // readers may look ahead
    let b0 = a.d[..a.pos].to_vec();
    let ahead = a.d.clone();
    o.ev(1);
    let mut p = cfg.plain(ahead);
    match guard(|| parse(&mut p)) {
        Ok(Ok(x)) if x == x0 && p.pos == b0.len() => {}
        Ok(Ok(_)) => return fail(format!("{what}: reread"), format!("{what}: reading the same bytes twice differs: {}", hex(&b0))),
        Ok(Err(e)) => return fail(format!("{what}: reread"), format!("{what}: second reading of the same bytes fails: {e}; {}", hex(&b0))),
        Err(m) => return fail(format!("{what}: reread"), format!("{what}: second reading panics: {m}")),
    }
    let mut w = cfg.plain(vec![]);
    match guard(|| write(&x0, &mut w)) {
        Err(m) => return fail(format!("{what}: panic in writer"), format!("{what}: writer panicked: {m}; value {x0:?}")),
        Ok(Err(e)) => {
            return fail(format!("{what}: write refused"), format!("{what}: cannot write what was read: {e}; read bytes {}; value {x0:?}", hex(&b0)))
        }
        Ok(Ok(())) => {}
    }
    o.ev(1);
    if w.pos != w.d.len() {
        return fail(format!("{what}: writer position"), format!("{what}: writer left the position at {} of {}", w.pos, w.d.len()));
    }
    let b1 = w.d;
    if exact && b1 != b0 {
        return fail(
            format!("{what}: bytes"),
            format!("{what} (object version {:?}/{:?}): {}; value {x0:?}", cfg.ov, cfg.ov5, diff(&b0, &b1)),
        );
    }
    let mut p = cfg.plain(b1.clone());
    match guard(|| parse(&mut p)) {
        Err(m) => return fail(format!("{what}: panic rereading"), format!("{what}: reading the written bytes panics: {m}")),
        Ok(Err(e)) => {
            return fail(format!("{what}: written unreadable"), format!("{what}: written bytes are refused: {e}; {}", hex(&b1)))
        }
        Ok(Ok(x)) => {
            o.ev(1);
            if x != x0 {
                return fail(
                    format!("{what}: value"),
                    format!("{what}: value changed by writing and reading: {x0:?} became {x:?}; {}", diff(&b0, &b1)),
                );
            }
            if p.pos != b1.len() {
                return fail(
                    format!("{what}: consumed"),
                    format!("{what}: {} of {} written bytes are read back", p.pos, b1.len()),
                );
            }
        }
    }
    Ok(Out::Done(x0, b1))
}

pub fn a05(c: &Ctx) {
    c.rule("Payloads of every registered type invented through the type's own reads, recorded encodings, layouts known from the engine, long properties and random tagged lists from an independent encoder are read, compared with the model and rewritten. Non-trivial = a distinct encoded value.");
    // texts have encodings that no engine writes; the `list` workload has its own model of them
    let types: Vec<&str> = TAG_TYPES.iter().chain(STRUCT_TYPES).copied().filter(|t| !NESTED.contains(t) && *t != "TextProperty").collect();
    let n = c.n(3000, 60_000);
    c.cases("payload", types.len() as u64 * n, |r, k| {
        let ty = types[k as usize % types.len()];
        payload_case(r, ty)
    });
    let rec = recorded();
    c.cases("recorded", rec.len() as u64, |r, k| recorded_case(r, rec[k as usize]));
    c.cases("known", c.n(20_000, 400_000), |r, _| crate::p_tags::known_case(r));
    c.cases("large", c.n(64, 2_000), |r, k| crate::p_tags::large_case(r, k));
    c.cases("list", c.n(300_000, 8_000_000), |r, _| crate::p_tags::list_case(r));
}
/// Encodings and values as they were when recorded. Layouts belong to the engine: a type whose
/// reader and writer agree on another layout can no longer read real packages.
fn recorded() -> Vec<&'static str> {
    include_str!("../recorded/properties.txt").lines().filter(|l| !l.is_empty()).collect()
}
/// the public value as sorted "path = value" lines
pub fn value_lines(x: &dyn Debug) -> Vec<String> {
    let text = format!("{x:#?}");
    let mut out = vec![];
    // (indent, path, unnamed children so far)
    let mut stack: Vec<(usize, String, usize)> = vec![(0, String::new(), 0)];
    let mut skip: Option<usize> = None;
    for line in text.lines() {
        let ind = line.len() - line.trim_start().len();
        let t = line.trim().trim_end_matches(',');
        if let Some(s) = skip {
            if ind > s {
                continue;
            }
            skip = None;
        }
        if t.starts_with('}') || t.starts_with(')') || t.starts_with(']') {
            continue;
        }
        while stack.len() > 1 && stack.last().unwrap().0 >= ind {
            stack.pop();
        }
        let up = stack.last_mut().unwrap();
        let named = t.split_once(": ").is_some_and(|(a, _)| a.chars().all(|c| c.is_alphanumeric() || c == '_'));
        let own = if named {
            t.to_string()
        } else {
            up.2 += 1;
            format!("[{}] {t}", up.2 - 1)
        };
        if own.starts_with("key_map: ") {
            skip = Some(ind);
            continue;
        }
        let path = format!("{}/{own}", up.1);
        if t.ends_with('{') || t.ends_with('(') || t.ends_with('[') {
            stack.push((ind, path.clone(), 0));
        }
        out.push(path);
    }
    out.sort();
    out
}
struct Rec {
    ty: String,
    header: bool,
    len: i64,
    dup: i32,
    name: String,
}
fn rec_parse(cf: &Cfg, rc: &Rec, a: &mut Arch) -> Result<Property, Error> {
    Property::from_type(a, &cf.name(&rc.ty), cf.name(&rc.name), Ancestry::new(cf.name("Root")), rc.header, rc.len, rc.len, rc.dup, false)
}
pub fn record(n: usize) -> String {
    let mut out = String::new();
    let types: Vec<&str> = TAG_TYPES.iter().chain(STRUCT_TYPES).copied().filter(|t| !NESTED.contains(t)).collect();
    for ty in types {
        let (mut got, mut tries) = (0, 0);
        while got < n && tries < 50 * n {
            tries += 1;
            let mut r = Rng::new(fnv(format!("{ty}/{tries}").as_bytes()));
            let cf = cfg_with(&mut r, false);
            let tiny = r.chance(1, 2);
            let len: i64 = if ty == "ByteProperty" { *r.pick(&[1, 8]) } else { *r.pick(&[0, 1, 4, 8, 16]) };
            let rc = Rec { ty: ty.into(), header: r.chance(1, 4), len, dup: *r.pick(&[0, 1]), name: r.pick(WORDS).to_string() };
            let mut g = gen(&mut r, tiny);
            g.soft = r.range(20, 150);
            let mut a = cf.generator(g);
            let Ok(Ok(p)) = guard(|| rec_parse(&cf, &rc, &mut a)) else { continue };
            let b = a.d[..a.pos].to_vec();
            let mut w = cf.plain(vec![]);
            if !matches!(guard(|| p.write(&mut w, rc.header)), Ok(Ok(_))) || w.d != b || b.len() > 600 {
                continue;
            }
            got += 1;
            let h: String = a.d.iter().map(|x| format!("{x:02x}")).collect();
            out += &format!(
                "{ty}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{h}\t{:016x}\n",
                cf.ov as i32, cf.ov5 as i32, cf.cv_seed, cf.edl, rc.header, rc.len, rc.dup, rc.name, b.len(),
                fnv(value_lines(&p).join("\n").as_bytes())
            );
        }
    }
    out
}
fn recorded_case(r: &mut Rng, line: &str) -> CaseRes {
    let mut o = Obs::new();
    let f: Vec<&str> = line.split('\t').collect();
    let mut cf = cfg_with(r, false);
    cf.ov = ObjectVersion::try_from(f[1].parse::<i32>().unwrap()).unwrap();
    cf.ov5 = ObjectVersionUE5::try_from(f[2].parse::<i32>().unwrap()).unwrap();
    cf.ev = guess_engine_version(cf.ov, cf.ov5, &[]);
    cf.cv_seed = f[3].parse().unwrap();
    cf.edl = f[4] == "true";
    let rc = Rec { ty: f[0].into(), header: f[5] == "true", len: f[6].parse().unwrap(), dup: f[7].parse().unwrap(), name: f[8].into() };
    let n: usize = f[9].parse().unwrap();
    let d: Vec<u8> = (0..f[10].len() / 2).map(|i| u8::from_str_radix(&f[10][2 * i..2 * i + 2], 16).unwrap()).collect();
    let ty = &rc.ty;
    let ver = format!("{:?}/{:?}", cf.ov, cf.ov5);
    let mut a = cf.plain([d.clone(), vec![1, 0, 0, 0, 1, 0, 0, 0]].concat());
    o.ev(3);
    let p = match guard(|| rec_parse(&cf, &rc, &mut a)) {
        Err(m) => return fail(format!("{ty}: recorded panic"), format!("{ty} ({ver}): reading its known encoding panics: {m}; {}", hex(&d))),
        Ok(Err(e)) => return fail(format!("{ty}: recorded refused"), format!("{ty} ({ver}): its known encoding is refused: {e}; {}", hex(&d))),
        Ok(Ok(p)) => p,
    };
    if a.pos != n {
        return fail(format!("{ty}: recorded length"), format!("{ty} ({ver}): {} of the {n} bytes of its known encoding are read: {}", a.pos, hex(&d)));
    }
    let lines = value_lines(&p);
    if format!("{:016x}", fnv(lines.join("\n").as_bytes())) != f[11] {
        return fail(format!("{ty}: recorded value"), format!("{ty} ({ver}): its known encoding {} is read as another value: {p:?}", hex(&d[..n])));
    }
    let mut w = cf.plain(vec![]);
    match guard(|| p.write(&mut w, rc.header)) {
        Ok(Ok(_)) if w.d == d[..n] => {}
        x => return fail(format!("{ty}: recorded bytes"), format!("{ty} ({ver}): writing its known value gives {x:?}, {}", diff(&d[..n], &w.d))),
    }
    o.class(format!("recorded {ty}"));
    o.nontrivial(line.as_bytes());
    Ok(o)
}
fn payload_case(r: &mut Rng, ty: &str) -> CaseRes {
    let mut o = Obs::new();
    let cf = cfg(r);
    let tiny = r.chance(1, 3);
    let include_header = r.chance(1, 2);
    // without a size the reader of bytes has to guess
    let len: i64 = if ty == "ByteProperty" { *r.pick(&[1, 8]) } else { *r.pick(&[0, 1, 1, 4, 8, 8, 12, 16]) };
    let tn = cf.name(ty);
    let nm = cf.name(*r.pick(WORDS));
    let dup = *r.pick(&[0, 0, 1, 5]);
    let anc = Ancestry::new(cf.name("Root"));
    let g = gen(r, tiny);
    let exact = ty != "UniqueNetIdRepl" && (tiny || !INT_FLAGS.contains(&ty));
    let res = round_trip(
        ty,
        &cf,
        g,
        exact,
        &|a| Property::from_type(a, &tn, nm.clone(), anc.clone(), include_header, len, len, dup, false),
        &|p, a| p.write(a, include_header).map(|_| ()),
        &mut o,
    )?;
    match res {
        Out::Refused(e) => {
            o.class(format!("{ty}: refused"));
            let _ = e;
        }
        Out::Done(_, b) => {
            o.class(format!("{ty}: ok"));
            o.nontrivial(&b);
        }
    }
    Ok(o)
}
