//! An independent encoder of tagged property lists: random models, their
//! canonical bytes, and a comparison of parsed properties with the model.
use crate::arch::*;
use crate::core::*;
use crate::p_base::ref_fstring;
use crate::p_prop::{NESTED, STRUCT_TYPES};
use unreal_asset_base::custom_version::{FAnimPhysObjectVersion, 
    CustomVersionTrait, FEditorObjectVersion, FFortniteMainBranchObjectVersion, FSequencerObjectVersion,
};
use unreal_asset_base::reader::ArchiveTrait;
use unreal_asset_base::object_version::{ObjectVersion, ObjectVersionUE5};
use unreal_asset_base::types::fname::ToSerializedName;
use unreal_asset_base::types::FName;
use unreal_asset_base::unversioned::Ancestry;
use unreal_asset_base::Guid;
use unreal_asset_properties::int_property::BytePropertyValue;
use unreal_asset_properties::{Property, PropertyDataTrait};

pub type N = (i32, i32);
#[derive(Clone, Debug)]
pub enum Val {
    /// tag type, little-endian bytes
    Num(&'static str, Vec<u8>),
    Bool(bool),
    Byte(N, u8),
    ByteName(N, N),
    Enum(N, N),
    Name(N),
    Str(Option<String>),
    Obj(i32),
    Text(Txt),
    Unknown(String, Vec<u8>),
    /// payload made by the generating archive
    Opaque(String, Vec<u8>),
    Struct(Str),
    /// element type, elements (payloads without headers), inner struct
    Array(String, Vec<Val>, Option<(N, [u8; 16])>),
    Set(String, Vec<Val>, Vec<Val>),
    Map(String, String, Vec<Val>, Vec<(Val, Val)>),
}
/// text as the engine stores it
#[derive(Clone, Debug)]
pub struct Txt {
    pub flags: u32,
    /// -1 none, 0 base, 11 string table entry; older versions always base
    pub history: i8,
    pub table: N,
    pub namespace: Option<String>,
    pub value: Option<String>,
    pub source: Option<String>,
}
#[derive(Clone, Debug)]
pub struct Str {
    pub ty: N,
    pub guid: [u8; 16],
    pub body: Body,
}
#[derive(Clone, Debug)]
pub enum Body {
    List(Vec<Node>),
    Bytes(Vec<u8>),
    /// a list wrapped in a special layout: bytes before, list (without terminator if false), bytes after
    Wrapped(Vec<u8>, Vec<Node>, Vec<u8>),
    /// bytes, several lists, bytes
    Lists(Vec<u8>, Vec<Vec<Node>>, Vec<u8>),
    Empty,
    Vec3([f64; 3]),
}
#[derive(Clone, Debug)]
pub struct Node {
    pub name: N,
    pub dup: i32,
    pub guid: Option<[u8; 16]>,
    pub val: Val,
}
pub struct Enc<'a> {
    pub cf: &'a Cfg,
}

fn nm(n: N) -> Vec<u8> {
    let mut b = n.0.to_le_bytes().to_vec();
    b.extend_from_slice(&n.1.to_le_bytes());
    b
}
pub fn tag_name(v: &Val) -> String {
    match v {
        Val::Num(t, _) => t.to_string(),
        Val::Bool(_) => "BoolProperty".into(),
        Val::Byte(..) | Val::ByteName(..) => "ByteProperty".into(),
        Val::Enum(..) => "EnumProperty".into(),
        Val::Name(_) => "NameProperty".into(),
        Val::Str(_) => "StrProperty".into(),
        Val::Obj(_) => "ObjectProperty".into(),
        Val::Text(_) => "TextProperty".into(),
        Val::Unknown(t, _) | Val::Opaque(t, _) => t.clone(),
        Val::Struct(_) => "StructProperty".into(),
        Val::Array(..) => "ArrayProperty".into(),
        Val::Set(..) => "SetProperty".into(),
        Val::Map(..) => "MapProperty".into(),
    }
}
impl Enc<'_> {
    /// culture invariant text is stored with its string
    fn keyed_text(&self) -> bool {
        self.cf.plain(vec![]).get_custom_version::<FEditorObjectVersion>().version
            >= FEditorObjectVersion::CultureInvariantTextSerializationKeyStability as i32
    }
    fn n(&self, s: &str) -> Vec<u8> {
        nm((self.cf.name_idx(s), 0))
    }
    fn guid_tag(&self, g: &Option<[u8; 16]>) -> Vec<u8> {
        if (self.cf.ov as i32) < ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG as i32 {
            return vec![];
        }
        match g {
            None => vec![0],
            Some(g) => {
                let mut b = vec![1];
                b.extend_from_slice(g);
                b
            }
        }
    }
    /// the value without any header
    pub fn payload(&self, v: &Val, name: N) -> Vec<u8> {
        let mut o = vec![];
        match v {
            Val::Num(_, b) | Val::Unknown(_, b) | Val::Opaque(_, b) => o.extend(b),
            Val::Bool(b) => o.push(*b as u8),
            Val::Byte(_, b) => o.push(*b),
            Val::ByteName(_, n) | Val::Enum(_, n) | Val::Name(n) => o.extend(nm(*n)),
            Val::Str(s) => o.extend(ref_fstring(s.as_deref())),
            Val::Obj(i) => o.extend(i.to_le_bytes()),
            Val::Text(t) => {
                let ov = self.cf.ov as i32;
                let st = |s: &Option<String>| ref_fstring(s.as_deref());
                if ov < ObjectVersion::VER_UE4_FTEXT_HISTORY as i32 {
                    o.extend(st(&t.source));
                    if ov >= ObjectVersion::VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT as i32 {
                        o.extend(st(&t.namespace));
                    }
                    o.extend(st(&t.value));
                    o.extend(t.flags.to_le_bytes());
                } else {
                    o.extend(t.flags.to_le_bytes());
                    o.push(t.history as u8);
                    match t.history {
                        -1 => {
                            if self.keyed_text() {
                                o.extend((t.source.is_some() as i32).to_le_bytes());
                                if t.source.is_some() {
                                    o.extend(st(&t.source));
                                }
                            }
                        }
                        0 => {
                            o.extend(st(&t.namespace));
                            o.extend(st(&t.value));
                            o.extend(st(&t.source));
                        }
                        _ => {
                            o.extend(nm(t.table));
                            o.extend(st(&t.value));
                        }
                    }
                }
            }
            Val::Struct(s) => o.extend(self.body(s)),
            Val::Array(ty, items, inner) => {
                o.extend((items.len() as i32).to_le_bytes());
                let mut els = vec![];
                for i in items {
                    els.extend(self.payload(i, name));
                }
                if let (true, Some((st, g))) = (ty == "StructProperty", inner) {
                    if self.cf.ov as i32 >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO as i32 {
                        o.extend(nm(name));
                        o.extend(self.n("StructProperty"));
                        o.extend((els.len() as i32).to_le_bytes());
                        o.extend(0i32.to_le_bytes());
                        o.extend(nm(*st));
                        o.extend(g);
                        o.extend(self.guid_tag(&None));
                    }
                }
                o.extend(els);
            }
            Val::Set(_, rem, items) => {
                for l in [rem, items] {
                    o.extend((l.len() as i32).to_le_bytes());
                    for i in l {
                        o.extend(self.payload(i, name));
                    }
                }
            }
            Val::Map(_, _, rem, items) => {
                o.extend((rem.len() as i32).to_le_bytes());
                for i in rem {
                    o.extend(self.payload(i, name));
                }
                o.extend((items.len() as i32).to_le_bytes());
                for (k, v) in items {
                    o.extend(self.payload(k, name));
                    o.extend(self.payload(v, name));
                }
            }
        }
        o
    }
    fn body(&self, s: &Str) -> Vec<u8> {
        match &s.body {
            Body::List(l) => self.list(l),
            Body::Bytes(b) => b.clone(),
            Body::Empty => vec![],
            Body::Wrapped(a, l, z) => [a.clone(), self.list(l), z.clone()].concat(),
            Body::Lists(a, l, z) => {
                let m: Vec<u8> = l.iter().flat_map(|l| self.list(l)).collect();
                [a.clone(), m, z.clone()].concat()
            }
            Body::Vec3(v) => {
                let big = self.cf.ov5 as i32 >= ObjectVersionUE5::LARGE_WORLD_COORDINATES as i32;
                v.iter().flat_map(|x| if big { x.to_le_bytes().to_vec() } else { (*x as f32).to_le_bytes().to_vec() }).collect()
            }
        }
    }
    pub fn tag(&self, n: &Node) -> Vec<u8> {
        let mut o = nm(n.name);
        o.extend(self.n(&tag_name(&n.val)));
        let p = self.payload(&n.val, n.name);
        let size = if matches!(n.val, Val::Bool(_)) { 0 } else { p.len() };
        o.extend((size as i32).to_le_bytes());
        o.extend(n.dup.to_le_bytes());
        match &n.val {
            Val::Struct(s) => {
                o.extend(nm(s.ty));
                if self.cf.ov as i32 >= ObjectVersion::VER_UE4_STRUCT_GUID_IN_PROPERTY_TAG as i32 {
                    o.extend(s.guid);
                }
            }
            Val::Bool(b) => o.push(*b as u8),
            Val::Byte(e, _) | Val::ByteName(e, _) | Val::Enum(e, _) => o.extend(nm(*e)),
            Val::Array(t, ..) | Val::Set(t, ..) => o.extend(self.n(t)),
            Val::Map(k, v, ..) => {
                o.extend(self.n(k));
                o.extend(self.n(v));
            }
            _ => {}
        }
        o.extend(self.guid_tag(&n.guid));
        if !matches!(n.val, Val::Bool(_)) {
            o.extend(p);
        }
        o
    }
    pub fn list(&self, l: &[Node]) -> Vec<u8> {
        let mut o: Vec<u8> = l.iter().flat_map(|n| self.tag(n)).collect();
        o.extend(self.n("None"));
        o
    }
}

fn frame_range(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..2 {
        v.push(r.below(3) as u8);
        v.extend(r.bytes(4));
    }
    v
}
pub struct Model<'a> {
    pub cf: &'a Cfg,
    pub budget: usize,
    /// property and value names (indices into the name map)
    pub words: Vec<i32>,
}
const NUMS: &[(&str, usize)] = &[
    ("Int8Property", 1),
    ("Int16Property", 2),
    ("IntProperty", 4),
    ("Int64Property", 8),
    ("UInt16Property", 2),
    ("UInt32Property", 4),
    ("UInt64Property", 8),
    ("FloatProperty", 4),
    ("DoubleProperty", 8),
];
const OPAQUE: &[&str] = &[
    "SoftObjectProperty",
    "AssetObjectProperty",
    "DelegateProperty",
    "MulticastDelegateProperty",
    "MulticastSparseDelegateProperty",
    "MulticastInlineDelegateProperty",
];
fn text(r: &mut Rng) -> Option<String> {
    match r.below(8) {
        0 => None,
        1 => Some(String::new()),
        2 => Some((0..r.range(1, 6)).map(|_| *r.pick(&['é', 'Ω', '漢', 'a', '😀', 'Z'])).collect()),
        3 => Some("x".repeat(r.range(100, 400))),
        _ => Some((0..r.range(1, 9)).map(|_| (b' ' + r.below(90) as u8) as char).collect()),
    }
}
impl Model<'_> {
    pub fn word(&self, r: &mut Rng) -> N {
        (*r.pick(&self.words), *r.pick(&[0, 0, 0, 1, 2, 7, i32::MAX]))
    }
    fn guid(&self, r: &mut Rng) -> [u8; 16] {
        if r.bool() {
            [0; 16]
        } else {
            let mut g = [0; 16];
            g.copy_from_slice(&r.bytes(16));
            g
        }
    }
    fn num(&self, r: &mut Rng, t: &'static str, n: usize) -> Val {
        let b = match r.below(4) {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => r.bytes(n),
        };
        // no signalling NaNs
        if t == "FloatProperty" && b[3] & 0x7f == 0x7f && b[2] & 0x80 == 0x80 {
            return Val::Num(t, vec![0, 0, 0xc0, 0x7f]);
        }
        if t == "DoubleProperty" && b[7] & 0x7f == 0x7f && b[6] & 0xf0 == 0xf0 {
            return Val::Num(t, vec![0, 0, 0, 0, 0, 0, 0xf8, 0x7f]);
        }
        Val::Num(t, b)
    }
    /// the bytes of a value of the given type without header, invented through its own reader
    fn opaque(&self, r: &mut Rng, ty: &str) -> Option<Vec<u8>> {
        let mut g = crate::p_prop::gen(r, true);
        g.soft = r.range(20, 200);
        let mut a = self.cf.generator(g);
        let tn = self.cf.name(ty);
        let n = self.cf.name("Root");
        match guard(|| Property::from_type(&mut a, &tn, n.clone(), Ancestry::new(n.clone()), false, 0, 0, 0, false)) {
            Ok(Ok(_)) => Some(a.d[..a.pos].to_vec()),
            _ => None,
        }
    }
    fn version<T: CustomVersionTrait + Into<i32>>(&self) -> i32 {
        self.cf.plain(vec![]).get_custom_version::<T>().version
    }
    fn structure(&mut self, r: &mut Rng, depth: usize) -> Str {
        let guid = self.guid(r);
        let known = |s: &str| (self.cf.name_idx(s), 0);
        match r.below(12) {
            0 => Str { ty: known("Vector"), guid, body: Body::Vec3([r.below(1000) as f64 / 8.0, -1.5, r.below(77) as f64]) },
            1 => Str { ty: known("Rotator"), guid, body: Body::Vec3([0.25, r.below(360) as f64, -90.0]) },
            2..=5 => {
                let t = *r.pick(STRUCT_TYPES);
                // Plane and Box2D are read as ordinary structs
                if NESTED.contains(&t) || ["UniqueNetIdRepl", "SmartName", "Plane", "Box2D", "FloatRange", "RichCurveKey", "MovieSceneTrackIdentifier", "MovieSceneFloatChannel", "RawStructProperty"].contains(&t) {
                    return self.special(r, t, depth, guid);
                }
                match self.opaque(r, t) {
                    Some(b) if !b.is_empty() => Str { ty: known(t), guid, body: Body::Bytes(b) },
                    Some(_) => Str { ty: known(t), guid, body: Body::Empty },
                    None => Str { ty: known("Guid"), guid, body: Body::Bytes(r.bytes(16)) },
                }
            }
            6 => {
                let t = *r.pick(&["Vector", "Guid", "Health", "SoftObjectPath"]);
                Str { ty: known(t), guid, body: Body::Empty }
            }
            _ => {
                let ty = loop {
                    let w = self.word(r);
                    if w.1 == 0 || r.chance(1, 4) {
                        break w;
                    }
                };
                Str { ty, guid, body: Body::List(self.list(r, depth + 1)) }
            }
        }
    }
    /// a value of a struct that has a layout of its own
    pub fn row(&mut self, r: &mut Rng, t: &str) -> Str {
        let body = match t {
            "Vector" | "Rotator" => Body::Vec3([r.below(1000) as f64 / 8.0, -1.5, r.below(77) as f64]),
            t => Body::Bytes(self.opaque(r, t).unwrap_or_default()),
        };
        Str { ty: (self.cf.name_idx(t), 0), guid: [0; 16], body }
    }
    fn special(&mut self, r: &mut Rng, t: &str, depth: usize, guid: [u8; 16]) -> Str {
        let ty = (self.cf.name_idx(t), 0);
        let body = match t {
            "UniqueNetIdRepl" => {
                if r.bool() {
                    Body::Bytes(vec![0; 4])
                } else {
                    let s = ref_fstring(text(r).as_deref());
                    let mut b = ((12 + s.len()) as i32).to_le_bytes().to_vec();
                    b.extend(nm(self.word(r)));
                    b.extend(s);
                    Body::Bytes(b)
                }
            }
            "SmartName" => {
                let mut b = nm(self.word(r));
                let v = self.version::<FAnimPhysObjectVersion>();
                if v < FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize as i32 {
                    b.extend(r.bytes(2));
                }
                if v < FAnimPhysObjectVersion::SmartNameRefactorForDeterministicCooking as i32 {
                    b.extend(r.bytes(16));
                }
                Body::Bytes(b)
            }
            "NiagaraVariable" | "NiagaraVariableWithOffset" => {
                let a = nm(self.word(r));
                Body::Wrapped(a, self.list(r, depth + 1), r.bytes(4))
            }
            "ClothLODData" => {
                let l = self.list(r, depth + 1);
                let mut z = vec![];
                let big = self.cf.ov5 as i32 >= ObjectVersionUE5::LARGE_WORLD_COORDINATES as i32;
                for _ in 0..2 {
                    let n = r.below(3);
                    z.extend((n as i32).to_le_bytes());
                    for _ in 0..n {
                        for _ in 0..12 {
                            let x = r.below(1000) as f64 / 16.0;
                            if big {
                                z.extend(x.to_le_bytes())
                            } else {
                                z.extend((x as f32).to_le_bytes())
                            }
                        }
                        for _ in 0..4 {
                            z.extend((r.u64() as u16).to_le_bytes());
                        }
                        z.extend(1.5f32.to_le_bytes());
                        z.extend(r.bytes(4));
                    }
                }
                Body::Wrapped(vec![], l, z)
            }
            "MovieSceneEvalTemplatePtr" | "MovieSceneTrackImplementationPtr" => {
                if r.chance(1, 3) {
                    Body::Bytes(vec![0; 4])
                } else {
                    let s = loop {
                        if let Some(s) = text(r) {
                            break s;
                        }
                    };
                    Body::Wrapped(ref_fstring(Some(&s)), self.list(r, depth + 1), vec![])
                }
            }
            "MovieSceneSegment" => {
                let n = r.below(3);
                let mut a = frame_range(r);
                a.extend(r.bytes(4));
                a.extend((r.below(2) as i32).to_le_bytes());
                a.extend((n as i32).to_le_bytes());
                Body::Lists(a, (0..n).map(|_| self.list(r, depth + 1)).collect(), vec![])
            }
            "SectionEvaluationDataTree" => {
                let node = |r: &mut Rng| [frame_range(r), r.bytes(16)].concat();
                let mut a = node(r);
                let (e, i) = (r.below(3), r.below(4));
                a.extend((e as i32).to_le_bytes());
                a.extend(r.bytes(12 * e));
                a.extend((i as i32).to_le_bytes());
                for _ in 0..i {
                    a.extend(node(r));
                }
                let (e, i) = (r.below(3), r.below(3));
                a.extend((e as i32).to_le_bytes());
                a.extend(r.bytes(12 * e));
                a.extend((i as i32).to_le_bytes());
                Body::Lists(a, (0..i).map(|_| self.list(r, depth + 1)).collect(), vec![])
            }
            // either two floats or an ordinary struct that begins with its lower bound
            "FloatRange" if r.bool() => {
                let mut l = self.list(r, depth + 1);
                let val = match r.below(3) {
                    0 => Val::Struct(Str { ty: (self.cf.name_idx("Health"), 0), guid: self.guid(r), body: Body::List(self.list(r, depth + 1)) }),
                    1 => self.num(r, "FloatProperty", 4),
                    _ => Val::Bool(r.bool()),
                };
                l.insert(0, Node { name: (self.cf.name_idx("LowerBound"), 0), dup: 0, guid: None, val });
                Body::List(l)
            }
            "FloatRange" => Body::Bytes([1.5f32.to_le_bytes(), (-(r.below(99) as f32) - 0.5).to_le_bytes()].concat()),
            "RichCurveKey" if self.cf.ov as i32 >= ObjectVersion::VER_UE4_SERIALIZE_RICH_CURVE_KEY as i32 => {
                match self.opaque(r, t) {
                    Some(b) => Body::Bytes(b),
                    None => Body::Empty,
                }
            }
            "MovieSceneTrackIdentifier"
                if self.version::<FEditorObjectVersion>() >= FEditorObjectVersion::MovieSceneMetaDataSerialization as i32 =>
            {
                Body::Bytes(r.bytes(4))
            }
            "MovieSceneFloatChannel"
                if self.version::<FSequencerObjectVersion>()
                    >= FSequencerObjectVersion::SerializeFloatChannelCompletely as i32
                    || self.version::<FFortniteMainBranchObjectVersion>()
                        >= FFortniteMainBranchObjectVersion::SerializeFloatChannelShowCurve as i32 =>
            {
                match self.opaque(r, t) {
                    Some(b) => Body::Bytes(b),
                    None => Body::Empty,
                }
            }
            "RichCurveKey" | "MovieSceneTrackIdentifier" | "MovieSceneFloatChannel" | "Plane" | "Box2D" => {
                Body::List(self.list(r, depth + 1))
            }
            // other layouts depend on the presence of particular names: keep to ordinary structs
            _ => {
                let ty = (self.cf.name_idx("Health"), 0);
                return Str { ty, guid, body: Body::List(self.list(r, depth + 1)) };
            }
        };
        Str { ty, guid, body }
    }
    fn txt(&self, r: &mut Rng) -> Val {
        let ov = self.cf.ov as i32;
        let mut t = Txt { flags: *r.pick(&[0, 1, 8, 0x10, u32::MAX]), history: 0, table: self.word(r), namespace: text(r), value: text(r), source: text(r) };
        if ov < ObjectVersion::VER_UE4_FTEXT_HISTORY as i32 {
            if ov < ObjectVersion::VER_UE4_ADDED_NAMESPACE_AND_KEY_DATA_TO_FTEXT as i32 {
                t.namespace = None;
            }
            return Val::Text(t);
        }
        t.history = *r.pick(&[-1, -1, 0, 0, 11]);
        if t.history == -1 {
            t.namespace = None;
            t.value = None;
            // an empty string is stored as none at all
            t.source = t.source.filter(|s| !s.is_empty() && Enc { cf: self.cf }.keyed_text());
        } else if t.history == 11 {
            t.namespace = None;
            t.source = None;
        }
        Val::Text(t)
    }
    fn scalar(&mut self, r: &mut Rng) -> Val {
        match r.below(13) {
            12 => self.txt(r),
            0..=3 => {
                let (t, n) = *r.pick(NUMS);
                self.num(r, t, n)
            }
            4 => Val::Bool(r.bool()),
            5 => Val::Enum(self.word(r), self.word(r)),
            6 | 7 => Val::Name(self.word(r)),
            8 | 9 => Val::Str(text(r)),
            10 => Val::Obj(*r.pick(&[0, 1, -1, -3, 4, i32::MAX])),
            _ => {
                let t = *r.pick(OPAQUE);
                match self.opaque(r, t) {
                    Some(b) => Val::Opaque(t.into(), b),
                    None => Val::Obj(0),
                }
            }
        }
    }
    /// another value of the same shape
    fn alike(&mut self, r: &mut Rng, v: &Val, depth: usize) -> Val {
        match v {
            Val::Num(t, b) => self.num(r, t, b.len()),
            Val::Bool(_) => Val::Bool(r.bool()),
            Val::Byte(n, _) => Val::Byte(*n, r.u64() as u8),
            Val::ByteName(n, _) => Val::ByteName(*n, self.word(r)),
            Val::Enum(n, _) => Val::Enum(*n, self.word(r)),
            Val::Name(_) => Val::Name(self.word(r)),
            Val::Str(_) => Val::Str(text(r)),
            Val::Obj(_) => Val::Obj(r.below(9) as i32 - 4),
            Val::Text(_) => self.txt(r),
            Val::Opaque(t, b) => Val::Opaque(t.clone(), self.opaque(r, t).unwrap_or(b.clone())),
            Val::Struct(s) => {
                let body = match &s.body {
                    Body::List(_) if s.ty.0 != self.cf.name_idx("FloatRange") => Body::List(self.list(r, depth + 1)),
                    b => b.clone(),
                };
                Val::Struct(Str { ty: s.ty, guid: s.guid, body })
            }
            v => v.clone(),
        }
    }
    fn fill(&mut self, r: &mut Rng, first: Val, depth: usize, max: usize) -> Vec<Val> {
        let n = r.below(max + 1);
        (0..n).map(|_| self.alike(r, &first, depth)).collect()
    }
    /// what sets and maps can hold; structs there are plain tagged lists
    fn element(&mut self, r: &mut Rng, depth: usize) -> Val {
        if depth < 3 && r.chance(1, 4) {
            Val::Struct(Str { ty: (0, 0), guid: [0; 16], body: Body::List(self.list(r, depth + 1)) })
        } else {
            self.scalar(r)
        }
    }
    pub fn value(&mut self, r: &mut Rng, depth: usize, name: N) -> Val {
        match r.below(if depth < 4 { 20 } else { 9 }) {
            0..=6 => self.scalar(r),
            7 => {
                if r.bool() {
                    Val::Byte(self.word(r), r.u64() as u8)
                } else {
                    Val::ByteName(self.word(r), self.word(r))
                }
            }
            8 => {
                let t = *r.pick(&["Health", "WeakObjectProperty", "FieldPathProperty"]);
                let l = r.below(20);
                Val::Unknown(t.into(), r.bytes(l))
            }
            9..=12 => Val::Struct(self.structure(r, depth)),
            13..=15 => {
                if r.bool() {
                    let first = match r.below(4) {
                        0 => Val::Byte((0, 0), 0),
                        1 => Val::ByteName((0, 0), (0, 0)),
                        _ => self.scalar(r),
                    };
                    let t = tag_name(&first);
                    Val::Array(t, self.fill(r, first, depth, 6), None)
                } else {
                    let mut s = self.structure(r, depth);
                    let inner_tag = self.cf.ov as i32 >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO as i32;
                    if !inner_tag || matches!(s.body, Body::Empty) {
                        s = Str { ty: s.ty, guid: s.guid, body: Body::List(self.list(r, depth + 1)) };
                        // without the inner tag the type of the elements is not stored; arrays named
                        // like an override would be read as that type
                        if Property::has_custom_serialization(&self.cf.names.get_ref().get_owned_name(s.ty.0)) {
                            s.ty = (self.cf.name_idx("Health"), 0);
                        }
                    }
                    let (ty, guid) = (s.ty, s.guid);
                    let items = self.fill(r, Val::Struct(s), depth, 4);
                    Val::Array("StructProperty".into(), items, Some((ty, guid)))
                }
            }
            16 | 17 => {
                let first = self.element(r, depth);
                let t = tag_name(&first);
                let rem = if r.chance(1, 3) { self.fill(r, first.clone(), depth, 3) } else { vec![] };
                Val::Set(t, rem, self.fill(r, first, depth, 5))
            }
            _ => {
                let k = self.element(r, depth);
                let mut v = self.element(r, depth);
                if let Val::Struct(s) = &mut v {
                    // the type of struct values comes from an override by name
                    if name.0 == self.cf.name_idx("ColorDatabase") {
                        *s = Str { ty: (0, 0), guid: [0; 16], body: Body::Bytes(r.bytes(4).repeat(4)) };
                        if let Body::Bytes(b) = &mut s.body {
                            b[3] &= 0x3f;
                            b[7] &= 0x3f;
                            b[11] &= 0x3f;
                            b[15] &= 0x3f;
                        }
                    }
                }
                let (kt, vt) = (tag_name(&k), tag_name(&v));
                let rem = if r.chance(1, 3) { self.fill(r, k.clone(), depth, 3) } else { vec![] };
                let e = Enc { cf: self.cf };
                let mut seen = std::collections::HashSet::new();
                let mut items = vec![];
                for key in self.fill(r, k, depth, 5) {
                    if seen.insert(e.payload(&key, (0, 0))) {
                        let val = self.alike(r, &v, depth);
                        items.push((key, val));
                    }
                }
                Val::Map(kt, vt, rem, items)
            }
        }
    }
    pub fn list(&mut self, r: &mut Rng, depth: usize) -> Vec<Node> {
        let mut l = vec![];
        let n = if depth == 0 { r.range(0, 7) } else { r.range(0, 3) };
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            let name = self.word(r);
            let guid = if r.chance(1, 3) && self.cf.ov as i32 >= ObjectVersion::VER_UE4_PROPERTY_GUID_IN_PROPERTY_TAG as i32 {
                let mut g = [0; 16];
                g.copy_from_slice(&r.bytes(16));
                Some(g)
            } else {
                None
            };
            let dup = *r.pick(&[0, 0, 0, 1, 2, 300]);
            let val = self.value(r, depth, name);
            l.push(Node { name, dup, guid, val });
        }
        l
    }
}

pub fn want_name(cf: &Cfg, n: N) -> FName {
    cf.names.get_ref().create_fname(n.0, n.1)
}
fn ck(ok: bool, what: &str, p: &dyn std::fmt::Debug, v: &Val) -> Result<(), Fail> {
    if ok {
        return Ok(());
    }
    fail(format!("parsed {what} differs"), format!("parsed {what} differs from what was encoded: {v:?} read as {p:?}"))
}
/// the parsed property is the encoded one
pub fn same(cf: &Cfg, v: &Val, p: &Property, o: &mut Obs) -> Result<(), Fail> {
    o.ev(1);
    let le = |b: &[u8]| {
        let mut x = [0u8; 8];
        x[..b.len()].copy_from_slice(b);
        u64::from_le_bytes(x)
    };
    o.class(format!("value {}", tag_name(v)));
    match (v, p) {
        (Val::Num(_, b), p) => {
            let got: Option<u64> = match p {
                Property::Int8Property(x) => Some(x.value as u8 as u64),
                Property::Int16Property(x) => Some(x.value as u16 as u64),
                Property::IntProperty(x) => Some(x.value as u32 as u64),
                Property::Int64Property(x) => Some(x.value as u64),
                Property::UInt16Property(x) => Some(x.value as u64),
                Property::UInt32Property(x) => Some(x.value as u64),
                Property::UInt64Property(x) => Some(x.value),
                Property::FloatProperty(x) => Some(x.value.0.to_bits() as u64),
                Property::DoubleProperty(x) => Some(x.value.0.to_bits()),
                _ => None,
            };
            ck(got == Some(le(b)), &tag_name(v), p, v)
        }
        (Val::Bool(b), Property::BoolProperty(x)) => ck(*b == x.value, "BoolProperty", p, v),
        (Val::Byte(_, b), Property::ByteProperty(x)) => ck(x.value == BytePropertyValue::Byte(*b), "ByteProperty", p, v),
        (Val::ByteName(_, n), Property::ByteProperty(x)) => {
            ck(x.value == BytePropertyValue::FName(want_name(cf, *n)), "ByteProperty", p, v)
        }
        (Val::Enum(_, n), Property::EnumProperty(x)) => ck(x.value == Some(want_name(cf, *n)), "EnumProperty", p, v),
        (Val::Name(n), Property::NameProperty(x)) => ck(x.value == want_name(cf, *n), "NameProperty", p, v),
        (Val::Str(s), Property::StrProperty(x)) => ck(*s == x.value, "StrProperty", p, v),
        (Val::Text(t), Property::TextProperty(x)) => {
            let table = (t.history == 11).then(|| want_name(cf, t.table));
            ck(
                x.flags == t.flags
                    && i8::from(x.history_type) == t.history
                    && x.table_id == table
                    && x.namespace == t.namespace
                    && x.value == t.value
                    && x.culture_invariant_string == t.source,
                "TextProperty",
                p,
                v,
            )
        }
        (Val::Obj(i), Property::ObjectProperty(x)) => ck(*i == x.value.index, "ObjectProperty", p, v),
        (Val::Unknown(_, b), Property::UnknownProperty(x)) => ck(*b == x.value, "unknown property", p, v),
        (Val::Opaque(t, _), p) => ck(p.to_serialized_name() == *t, t, p, v),
        (Val::Struct(s), Property::StructProperty(x)) => match &s.body {
            Body::List(l) => {
                ck(l.len() == x.value.len(), "number of struct members", p, v)?;
                same_list(cf, l, &x.value, o)
            }
            Body::Empty => ck(x.value.is_empty(), "empty struct", p, v),
            Body::Vec3(w) => match x.value.first() {
                Some(Property::VectorProperty(q)) => {
                    ck([q.value.x.0, q.value.y.0, q.value.z.0] == *w, "Vector", p, v)
                }
                Some(Property::RotatorProperty(q)) => {
                    ck([q.value.x.0, q.value.y.0, q.value.z.0] == *w, "Rotator", p, v)
                }
                _ => ck(false, "Vector", p, v),
            },
            _ => ck(x.value.len() == 1, "struct payload", p, v),
        },
        (Val::Array(_, items, inner), Property::ArrayProperty(x)) => {
            ck(items.len() == x.value.len(), "array length", p, v)?;
            for (a, b) in items.iter().zip(&x.value) {
                same(cf, a, b, o)?;
                if let (Some((ty, g)), Property::StructProperty(s)) = (inner, b) {
                    if cf.ov as i32 >= ObjectVersion::VER_UE4_INNER_ARRAY_TAG_INFO as i32 {
                        ck(s.struct_type == Some(want_name(cf, *ty)) && s.struct_guid == Some(Guid(*g)), "array struct type", p, v)?;
                    }
                }
            }
            Ok(())
        }
        (Val::Set(_, rem, items), Property::SetProperty(x)) => {
            ck(items.len() == x.value.value.len() && rem.len() == x.removed_items.value.len(), "set length", p, v)?;
            for (a, b) in items.iter().zip(&x.value.value).chain(rem.iter().zip(&x.removed_items.value)) {
                same(cf, a, b, o)?;
            }
            Ok(())
        }
        (Val::Map(_, _, rem, items), Property::MapProperty(x)) => {
            let got = x.keys_to_remove.clone().unwrap_or_default();
            ck(items.len() == x.value.len() && rem.len() == got.len(), "map length", p, v)?;
            for ((a, b), (_, c, d)) in items.iter().zip(x.value.iter()) {
                same(cf, a, c, o)?;
                same(cf, b, d, o)?;
            }
            for (a, b) in rem.iter().zip(&got) {
                same(cf, a, b, o)?;
            }
            Ok(())
        }
        _ => ck(false, &format!("type {}", tag_name(v)), p, v),
    }
}
pub fn same_list(cf: &Cfg, l: &[Node], ps: &[Property], o: &mut Obs) -> Result<(), Fail> {
    for (n, p) in l.iter().zip(ps) {
        ck(p.get_name() == want_name(cf, n.name), "property name", p, &n.val)?;
        ck(p.get_duplication_index() == n.dup, "array index", p, &n.val)?;
        ck(p.get_property_guid() == n.guid.map(Guid), "property guid", p, &n.val)?;
        same(cf, &n.val, p, o)?;
    }
    Ok(())
}

pub fn model_words(cf: &Cfg) -> Vec<i32> {
    // names that mean something to the readers (LowerBound, TypeName) are left out
    ["Health", "Root", "Mesh0", "Ünï", "EColor", "EColor::Red", "ColorDatabase"].iter().map(|s| cf.name_idx(s)).collect()
}
fn parse_list(cf: &Cfg, a: &mut Arch) -> Result<Vec<Property>, unreal_asset_base::error::Error> {
    let anc = Ancestry::new(cf.name("Root"));
    let mut v = vec![];
    while let Some(p) = Property::new(a, anc.clone(), None, true)? {
        v.push(p);
    }
    Ok(v)
}
/// every tagged property list is read as encoded and written back byte for byte
pub fn list_case(r: &mut Rng) -> CaseRes {
    let cf = crate::p_prop::cfg(r);
    let mut m = Model { cf: &cf, budget: r.range(1, 40), words: model_words(&cf) };
    let l = m.list(r, 0);
    list_check(r, &cf, l)
}
/// counts, lengths and name indices beyond what one or two bytes hold
pub fn large_case(r: &mut Rng, k: u64) -> CaseRes {
    let mut cf = crate::p_prop::cfg(r);
    let n = *r.pick(&[256usize, 32767, 32768, 65535, 65536, 70_001, 131_073]);
    if k % 8 == 7 {
        for i in 0..n {
            cf.names.get_mut().add_name_reference(format!("Filler{i}"), true);
        }
    }
    let late = ["LateA", "LateB"].map(|s| cf.name_idx(s));
    let mut words = model_words(&cf);
    words.extend(late);
    let cf = &mut cf;
    let mut m = Model { cf, budget: 3, words };
    let name = m.word(r);
    let w = |m: &Model, r: &mut Rng| m.word(r);
    let num = |x: usize| Val::Num("IntProperty", (x as u32).to_le_bytes().to_vec());
    let text = |r: &mut Rng| {
        let t = if r.bool() { "x" } else { "漢" }.repeat(n.min(100_000));
        Some(t)
    };
    let val = match k % 8 {
        0 => Val::Array("IntProperty".into(), (0..n).map(num).collect(), None),
        1 => Val::Array("NameProperty".into(), (0..n).map(|_| Val::Name(w(&m, r))).collect(), None),
        2 => Val::Str(text(r)),
        3 => Val::Set("IntProperty".into(), (0..n / 2).map(num).collect(), (0..n).map(num).collect()),
        4 => Val::Map("IntProperty".into(), "IntProperty".into(), vec![], (0..n).map(|i| (num(i), num(i * 7))).collect()),
        5 => {
            let ty = (m.cf.name_idx("Health"), 0);
            let n = n.min(70_001);
            let items = (0..n).map(|i| Node { name, dup: 0, guid: None, val: num(i) });
            let items = items.map(|x| Val::Struct(Str { ty, guid: [7; 16], body: Body::List(vec![x]) })).collect();
            Val::Array("StructProperty".into(), items, Some((ty, [7; 16])))
        }
        6 => Val::Struct(Str {
            ty: (m.cf.name_idx("Health"), 0),
            guid: [9; 16],
            body: Body::List((0..n).map(|i| Node { name: w(&m, r), dup: 0, guid: None, val: num(i) }).collect()),
        }),
        _ => Val::Array("NameProperty".into(), (0..9).map(|_| Val::Name((late[r.below(2)], 3))).collect(), None),
    };
    let mut l = m.list(r, 2);
    l.insert(r.below(l.len() + 1), Node { name, dup: *r.pick(&[0, 65536]), guid: None, val });
    list_check(r, cf, l)
}
fn brief(x: &dyn std::fmt::Debug) -> String {
    format!("{x:?}").chars().take(20_000).collect()
}
fn list_check(r: &mut Rng, cf: &Cfg, l: Vec<Node>) -> CaseRes {
    let mut o = Obs::new();
    let b0 = Enc { cf: cf }.list(&l);
    let tail = r.bytes(8);
    let mut a = cf.plain([b0.clone(), tail].concat());
    let ps = match guard(|| parse_list(cf, &mut a)) {
        Err(m) => return fail("property list: reader panicked", format!("reading a property list panicked: {m}: {}", brief(&l))),
        Ok(Err(e)) => return fail("property list: refused", format!("a valid property list is refused: {e} ({:?}): {}", cf.ov, brief(&l))),
        Ok(Ok(p)) => p,
    };
    if ps.len() != l.len() || a.pos != b0.len() {
        return fail(
            "property list: consumed",
            format!("{} of {} properties read, {} of {} bytes consumed: {} as {}", ps.len(), l.len(), a.pos, b0.len(), brief(&l), brief(&ps)),
        );
    }
    same_list(cf, &l, &ps, &mut o)?;
    let mut w = cf.plain(vec![]);
    match guard(|| ps.iter().try_for_each(|p| Property::write(p, &mut w, true).map(|_| ()))) {
        Err(m) => return fail("property list: writer panicked", format!("writing a property list panicked: {m}: {}", brief(&ps))),
        Ok(Err(e)) => return fail("property list: write refused", format!("what was read cannot be written: {e}: {}", brief(&ps))),
        Ok(Ok(())) => {}
    }
    w.d.extend(Enc { cf: cf }.list(&[]));
    o.ev(1);
    if w.d != b0 {
        let i = w.d.iter().zip(&b0).take_while(|(a, b)| a == b).count();
        return fail(
            "property list: bytes",
            format!("rewriting changed byte {i} of {} ({:?}/{:?}); wrote {} bytes; model {}", b0.len(), cf.ov, cf.ov5, w.d.len(), brief(&l)),
        );
    }
    if !l.is_empty() {
        o.nontrivial(&b0);
    }
    Ok(o)
}

/// structs of known layout: the fields of the parsed value are the encoded ones
pub fn known_case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let cf = crate::p_prop::cfg(r);
    let big = cf.ov5 as i32 >= ObjectVersionUE5::LARGE_WORLD_COORDINATES as i32;
    let f: Vec<f64> = (0..8).map(|_| (r.below(100_000) as f64 - 50_000.0) / 16.0).collect();
    let fl = |n: usize| -> Vec<u8> {
        f[..n].iter().flat_map(|x| if big { x.to_le_bytes().to_vec() } else { (*x as f32).to_le_bytes().to_vec() }).collect()
    };
    let f32s: Vec<u8> = f[..4].iter().flat_map(|x| (*x as f32).to_le_bytes()).collect();
    let raw = r.bytes(16);
    let i = |k: usize| i32::from_le_bytes(raw[k..k + 4].try_into().unwrap());
    let l = i64::from_le_bytes(raw[..8].try_into().unwrap());
    let ty = *r.pick(&[
        "Vector", "Rotator", "Vector2D", "Vector4", "Quat", "Box", "LinearColor", "Color", "IntPoint", "Guid", "DateTime",
        "Timespan", "PerPlatformInt", "GameplayTagContainer",
    ]);
    let n = r.below(4);
    let words = model_words(&cf);
    let tags: Vec<N> = (0..n).map(|_| (*r.pick(&words), r.below(3) as i32)).collect();
    let bytes = match ty {
        "Vector" | "Rotator" => fl(3),
        "Vector2D" => fl(2),
        "Vector4" | "Quat" => fl(4),
        "Box" => [fl(6), vec![raw[0] & 1]].concat(),
        "LinearColor" => f32s.clone(),
        "Color" => raw[..4].to_vec(),
        "IntPoint" | "DateTime" | "Timespan" => raw[..8].to_vec(),
        "Guid" => raw.clone(),
        "PerPlatformInt" => [(n as i32).to_le_bytes().to_vec(), raw[..4 * n].to_vec()].concat(),
        _ => [(n as i32).to_le_bytes().to_vec(), tags.iter().flat_map(|t| nm(*t)).collect()].concat(),
    };
    let (tn, name) = (cf.name(ty), cf.name("Root"));
    let mut a = cf.plain([bytes.clone(), vec![9; 8]].concat());
    let p = match guard(|| Property::from_type(&mut a, &tn, name.clone(), Ancestry::new(name.clone()), false, 0, 0, 0, false)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return fail(format!("{ty}: refused"), format!("{ty}: valid bytes refused: {e}")),
        Err(e) => return fail(format!("{ty}: panic"), format!("{ty}: reader panicked: {e}")),
    };
    let v4 = |v: [f64; 4], n: usize| v[..n] == f[..n];
    let ok = match &p {
        Property::VectorProperty(x) => v4([x.value.x.0, x.value.y.0, x.value.z.0, 0.0], 3),
        Property::RotatorProperty(x) => v4([x.value.x.0, x.value.y.0, x.value.z.0, 0.0], 3),
        Property::Vector2DProperty(x) => v4([x.value.x.0, x.value.y.0, 0.0, 0.0], 2),
        Property::Vector4Property(x) => v4([x.value.x.0, x.value.y.0, x.value.z.0, x.value.w.0], 4),
        Property::QuatProperty(x) => v4([x.value.x.0, x.value.y.0, x.value.z.0, x.value.w.0], 4),
        Property::BoxProperty(x) => {
            let (p, q) = (&x.v1.value, &x.v2.value);
            [p.x.0, p.y.0, p.z.0, q.x.0, q.y.0, q.z.0] == f[..6] && x.is_valid == (raw[0] & 1 == 1)
        }
        Property::LinearColorProperty(x) => {
            [x.color.r.0, x.color.g.0, x.color.b.0, x.color.a.0] == [f[0] as f32, f[1] as f32, f[2] as f32, f[3] as f32]
        }
        // stored as blue, green, red, alpha
        Property::ColorProperty(x) => [x.color.b, x.color.g, x.color.r, x.color.a] == raw[..4],
        Property::IntPointProperty(x) => (x.value.x, x.value.y) == (i(0), i(4)),
        Property::GuidProperty(x) => x.value.0[..] == raw[..],
        Property::DateTimeProperty(x) => x.ticks == l,
        Property::TimeSpanProperty(x) => x.ticks == l,
        Property::PerPlatformIntProperty(x) => x.value == (0..n).map(|k| i(4 * k)).collect::<Vec<_>>(),
        Property::GameplayTagContainerProperty(x) => {
            x.value.len() == n && x.value.iter().zip(&tags).all(|(a, b)| *a == want_name(&cf, *b))
        }
        _ => false,
    };
    o.ev(1);
    if !ok || a.pos != bytes.len() {
        return fail(
            format!("{ty}: fields"),
            format!("{ty} ({:?}/{:?}): bytes {bytes:02x?} read as {p:?}, {} bytes consumed", cf.ov, cf.ov5, a.pos),
        );
    }
    o.class(format!("known layout {ty}"));
    o.nontrivial(&bytes);
    Ok(o)
}
