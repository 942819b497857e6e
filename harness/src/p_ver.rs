//! B06: engine versions and the format versions they stand for.
use crate::core::*;
use crate::p_asset::{engines, known_customs, ref_object_versions};
use std::fmt::Write as _;
use unreal_asset_base::custom_version::*;
use unreal_asset_base::engine_version::*;
use unreal_asset_base::object_version::*;
use unreal_asset_base::Guid;

fn sorted(mut v: Vec<CustomVersion>) -> Vec<CustomVersion> {
    v.sort_by_key(|c| c.guid.0);
    v
}
fn hex(g: &[u8; 16]) -> String {
    g.iter().map(|b| format!("{b:02x}")).collect()
}
/// everything that belongs to the engine, one fact per line
pub fn facts() -> String {
    let mut s = String::new();
    for i in -3000..3000 {
        if let Ok(v) = ObjectVersion::try_from(i) {
            writeln!(s, "object version {i} {v:?}").unwrap();
        }
        if let Ok(v) = ObjectVersionUE5::try_from(i) {
            writeln!(s, "UE5 object version {i} {v:?}").unwrap();
        }
    }
    for (n, g, _) in known_customs() {
        writeln!(s, "custom version {n} {}", hex(&g)).unwrap();
    }
    for e in engines() {
        let (a, b) = get_object_versions(e);
        writeln!(s, "engine {e:?} {} {}", a as i32, b as i32).unwrap();
        for c in sorted(CustomVersion::get_default_custom_version_container(e)) {
            writeln!(s, "engine {e:?} {:?} {} {}", c.friendly_name, hex(&c.guid.0), c.version).unwrap();
        }
    }
    macro_rules! gates {
        ($($t:ident::$v:ident),* $(,)?) => { $( writeln!(s, "gate {} {} {}", stringify!($t), stringify!($v), $t::$v as i32).unwrap(); )* };
    }
    gates!(
        FEditorObjectVersion::AddedFontFaceAssets,
        FEditorObjectVersion::MovieSceneMetaDataSerialization,
        FEditorObjectVersion::CultureInvariantTextSerializationKeyStability,
        FCoreObjectVersion::EnumProperties,
        FCoreObjectVersion::FProperties,
        FSequencerObjectVersion::SerializeFloatChannelCompletely,
        FFortniteMainBranchObjectVersion::WorldCompositionTile3DOffset,
        FFortniteMainBranchObjectVersion::SerializeFloatChannelShowCurve,
        FFrameworkObjectVersion::RemoveUfieldNext,
        FReleaseObjectVersion::PropertiesSerializeRepCondition,
        FAnimPhysObjectVersion::RemoveUIDFromSmartNameSerialize,
        FAnimPhysObjectVersion::SmartNameRefactorForDeterministicCooking,
    );
    s
}
fn engine_case(e: EngineVersion, o: &mut Obs) -> Result<(), Fail> {
    let at = get_object_versions(e);
    let (a, b) = ref_object_versions(e);
    o.ev(1);
    if at != (a, b) {
        return fail("versions: object version", format!("{e:?} is given {at:?}, it writes {a:?} {b:?}"));
    }
    let customs = CustomVersion::get_default_custom_version_container(e);
    let possible = get_possible_versions(at.0, at.1);
    o.ev(1);
    if !possible.contains(&e) {
        return fail("versions: possible engines", format!("{e:?} writes {at:?}, whose possible engines are {possible:?}"));
    }
    for (list, what) in [(&customs[..], "all custom versions"), (&[][..], "no custom versions")] {
        let g = nopanic("versions: guess panicked", || format!("guessing {e:?}"), || guess_engine_version(at.0, at.1, list))?;
        o.ev(1);
        let same = get_object_versions(g) == at && (list.is_empty() || sorted(CustomVersion::get_default_custom_version_container(g)) == sorted(customs.clone()));
        if !same {
            return fail("versions: guess", format!("{e:?} writes {at:?}; with {what} that is guessed to be {g:?}, which writes other versions"));
        }
        o.class(format!("guess with {what}"));
    }
    for (n, g, _) in known_customs() {
        let c: Vec<&CustomVersion> = customs.iter().filter(|c| c.guid.0 == g).collect();
        o.ev(1);
        if c.len() != 1 || c[0].friendly_name.as_deref() != Some(n) {
            return fail("versions: custom version", format!("{e:?} has {} times the custom version {n}", c.len()));
        }
    }
    Ok(())
}
pub fn b06(c: &Ctx) {
    c.rule("Every line of the recorded engine facts (numbers and names of object versions, custom version ids, the versions of every engine, the versions at which layouts change) is compared with what the library says now; every released engine is taken to its versions and back; random custom versions are guessed from. Non-trivial = a recorded fact, an engine or a random history with at least one custom version.");
    let want: Vec<&str> = include_str!("../recorded/versions.txt").lines().collect();
    c.cases("facts", want.len() as u64, |_, k| {
        let mut o = Obs::new();
        let now = facts();
        let w = want[k as usize];
        o.ev(1);
        o.class(w.split(' ').next().unwrap_or(""));
        o.nontrivial(w.as_bytes());
        match now.lines().any(|l| l == w) {
            true => Ok(o),
            false => fail("versions: fact", format!("{w:?} no longer holds")),
        }
    });
    let evs = engines();
    c.cases("engine", evs.len() as u64, |_, k| {
        let mut o = Obs::new();
        engine_case(evs[k as usize], &mut o)?;
        // later engines never write older versions
        if k > 0 {
            let (e, f) = (evs[k as usize - 1], evs[k as usize]);
            let (a, b) = (get_object_versions(e), get_object_versions(f));
            o.ev(1);
            if a.0 as i32 > b.0 as i32 || a.1 as i32 > b.1 as i32 {
                return fail("versions: order", format!("{e:?} writes {a:?}, {f:?} writes {b:?}"));
            }
            for (n, g, _) in known_customs() {
                let v = |e| CustomVersion::new(Guid(g), 0).get_version_number_from_engine_version(e);
                o.ev(1);
                if v(e) > v(f) {
                    return fail("versions: order", format!("{n} is {:?} in {e:?} and {:?} in {f:?}", v(e), v(f)));
                }
            }
        }
        o.nontrivial(format!("{k}").as_bytes());
        Ok(o)
    });
    c.cases("guess", c.n(100_000, 2_000_000), |r, _| {
        let mut o = Obs::new();
        let known = known_customs();
        let (ov, ov5) = match r.below(4) {
            0 => get_object_versions(*r.pick(&evs)),
            _ => crate::p_prop::any_version(r),
        };
        let list: Vec<CustomVersion> = (0..r.below(6))
            .map(|_| {
                let mut g = [0; 16];
                g.copy_from_slice(&r.bytes(16));
                if r.chance(4, 5) {
                    g = r.pick(&known).1;
                }
                let v = match r.below(5) {
                    0 => *r.pick(&[i32::MAX, i32::MIN, -1]),
                    _ => r.below(70) as i32,
                };
                CustomVersion::new(Guid(g), v)
            })
            .collect();
        let possible = get_possible_versions(ov, ov5);
        let g = nopanic("versions: guess panicked", || format!("guessing from {ov:?} {ov5:?} {list:?}"), || guess_engine_version(ov, ov5, &list))?;
        o.ev(1);
        let ok = if possible.is_empty() { g == EngineVersion::UNKNOWN } else { possible.contains(&g) };
        if !ok {
            return fail("versions: guess", format!("{ov:?} {ov5:?} with {list:?} is guessed to be {g:?}, possible are {possible:?}"));
        }
        // an engine that wrote both object versions is preferred to one that did not
        let exact: Vec<_> = evs.iter().filter(|e| get_object_versions(**e) == (ov, ov5)).collect();
        o.ev(1);
        if !exact.is_empty() && !exact.contains(&&g) {
            return fail("versions: guess", format!("{ov:?} {ov5:?} with {list:?} is guessed to be {g:?}, but {exact:?} write these versions"));
        }
        for c in &list {
            o.ev(1);
            if let Some(e) = c.get_engine_version_from_version_number(c.version) {
                if c.get_version_number_from_engine_version(e) != Some(c.version) && e <= EngineVersion::VER_UE5_2 {
                    return fail("versions: custom version engine", format!("{c:?} came with {e:?}, which has another number"));
                }
            }
        }
        o.class(format!("possible engines {}", possible.len().min(3)));
        if !list.is_empty() {
            o.nontrivial(format!("{ov:?}{ov5:?}{list:?}").as_bytes());
        }
        Ok(o)
    });
    c.cases("numbers", c.n(20_000, 400_000), |r, _| {
        let mut o = Obs::new();
        let i = match r.below(3) {
            0 => r.u64() as i32,
            1 => r.below(1100) as i32,
            _ => -(r.below(600) as i32),
        };
        o.ev(3);
        if let Ok(v) = ObjectVersion::try_from(i) {
            if v as i32 != i {
                return fail("versions: number", format!("object version {i} is taken for {v:?}"));
            }
            o.class("object version");
        } else if i == 0 || (214..=522).contains(&i) {
            return fail("versions: number", format!("object version {i} is refused"));
        }
        if let Ok(v) = ObjectVersionUE5::try_from(i) {
            if v as i32 != i {
                return fail("versions: number", format!("UE5 object version {i} is taken for {v:?}"));
            }
            o.class("UE5 object version");
        } else if i == 0 || (1000..=1009).contains(&i) {
            return fail("versions: number", format!("UE5 object version {i} is refused"));
        }
        o.nontrivial(&i.to_le_bytes());
        Ok(o)
    });
}
