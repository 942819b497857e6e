//! Helpers and base containers: H01 strings/arrays, H02 guids, H03 game paths,
//! B01 ordered map, B02 name table, B03 chained stream, B04 name hashes, B05 decompression.
use crate::core::*;
use crate::p_pak::Short;
use std::io::{Cursor, Read, Seek, SeekFrom};
use std::str::FromStr;
use unreal_asset_base::compression::{decompress, CompressionMethod};
use unreal_asset_base::containers::{Chain, IndexedMap, NameMap};
use unreal_asset_base::types::FName;
use unreal_helpers::{game_to_absolute, BitVecExt, Guid, UnrealReadExt, UnrealWriteExt};

// ------------------------------------------------------------------ H01
/// independent encoder of the on-disk string format
pub fn ref_fstring(s: Option<&str>) -> Vec<u8> {
    let mut o = vec![];
    match s {
        None => o.extend(0i32.to_le_bytes()),
        Some(s) if s.bytes().all(|b| b < 0x80) => {
            o.extend((s.len() as i32 + 1).to_le_bytes());
            o.extend(s.as_bytes());
            o.push(0);
        }
        Some(s) => {
            let u: Vec<u16> = s.encode_utf16().collect();
            o.extend((-(u.len() as i32) - 1).to_le_bytes());
            for c in u {
                o.extend(c.to_le_bytes());
            }
            o.extend([0, 0]);
        }
    }
    o
}
enum Want {
    Str(Option<String>, usize),
    Err,
}
/// independent decoder: what a reader must make of arbitrary bytes
fn ref_read(d: &[u8]) -> Want {
    if d.len() < 4 {
        return Want::Err;
    }
    let n = i32::from_le_bytes(d[..4].try_into().unwrap()) as i64;
    if n == 0 {
        return Want::Str(None, 4);
    }
    let (cnt, w) = if n < 0 { ((-n) as usize, 2) } else { (n as usize, 1) };
    if cnt - 1 > 131072 {
        return Want::Err;
    }
    let end = 4 + cnt * w;
    if d.len() < end {
        return Want::Err;
    }
    let body = &d[4..end];
    if w == 1 {
        if body[cnt - 1] != 0 {
            return Want::Err;
        }
        match std::str::from_utf8(&body[..cnt - 1]) {
            Ok(s) => Want::Str(Some(s.to_string()), end),
            Err(_) => Want::Err,
        }
    } else {
        let u: Vec<u16> = body.chunks(2).map(|c| c[0] as u16 | (c[1] as u16) << 8).collect();
        if u[cnt - 1] != 0 {
            return Want::Err;
        }
        match String::from_utf16(&u[..cnt - 1]) {
            Ok(s) => Want::Str(Some(s), end),
            Err(_) => Want::Err,
        }
    }
}
fn any_string(r: &mut Rng) -> Option<String> {
    match r.below(12) {
        0 => None,
        1 => Some("x".repeat(*r.pick(&[127usize, 128, 255, 256, 65535, 65536, 131072]))),
        2 => Some("é".repeat(*r.pick(&[1usize, 2, 127, 128, 32767, 65536]))),
        3 => Some(format!("{}\0{}", gen_string(r, 6), gen_string(r, 6))),
        _ => Some(gen_string(r, 60)),
    }
}
pub fn h01(c: &Ctx) {
    c.rule("non-trivial: a distinct value list or byte stream of at least one element");
    c.cases("string sequences written, compared with an independent encoder, read back", c.n(12000, 240000), |r, _| {
        let mut o = Obs::new();
        let n = r.range(1, 12);
        let vals: Vec<_> = (0..n).map(|_| any_string(r)).collect();
        let mut real: Vec<u8> = vec![];
        let mut want: Vec<u8> = vec![];
        let k = *r.pick(&[1usize, 3, 4096, 1 << 20]);
        for v in &vals {
            let mut w = Short { s: &mut real, k };
            let n = nopanic("write", || format!("{v:?}"), || w.write_fstring(v.as_deref()))?.map_err(|e| Fail { key: "write-error".into(), msg: format!("{v:?}: {e}") })?;
            let e = ref_fstring(v.as_deref());
            if n != e.len() {
                return fail("size", format!("writing {v:?} reports {n} bytes, {} were expected", e.len()));
            }
            want.extend(e);
            o.class(match v {
                None => "absent",
                Some(s) if s.is_empty() => "empty",
                Some(s) if s.is_ascii() => "narrow",
                _ => "wide",
            });
        }
        if real != want {
            return fail("bytes", format!("bytes of {vals:?} differ from the format"));
        }
        let mut rd = Short { s: Cursor::new(&real), k };
        for v in &vals {
            let g = nopanic("read", || format!("{v:?}"), || rd.read_fstring())?.map_err(|e| Fail { key: "read-error".into(), msg: format!("{v:?}: {e}") })?;
            if g != *v {
                return fail("value", format!("{v:?} read back as {g:?}"));
            }
            o.ev(3);
        }
        if rd.s.position() as usize != real.len() {
            return fail("position", "reader did not consume exactly what was written");
        }
        o.nontrivial(&real);
        o.sample = Some(format!("{n} strings, {} bytes", real.len()));
        Ok(o)
    });
    c.cases("arbitrary, truncated and corrupted bytes against an independent decoder", c.n(150000, 3000000), |r, _| {
        let mut o = Obs::new();
        let mut d = match r.below(4) {
            0 if r.chance(1, 8) => {
                // a terminator only, narrow or wide
                let mut d = r.pick(&[vec![1, 0, 0, 0, 0], vec![255, 255, 255, 255, 0, 0]]).clone();
                let n = r.below(4);
                d.extend(r.bytes(n));
                d
            }
            0 => {
                let n = r.below(40);
                r.bytes(n)
            }
            _ => {
                let s = if r.chance(1, 40) { any_string(r) } else { Some(gen_string(r, 20)) };
                ref_fstring(s.as_deref())
            }
        };
        for _ in 0..r.below(4) {
            if d.is_empty() {
                break;
            }
            match r.below(4) {
                0 => {
                    let n = r.below(d.len() + 1);
                    d.truncate(n);
                }
                1 => {
                    let i = r.below(d.len());
                    d[i] ^= 1 << r.below(8);
                }
                2 => {
                    let i = r.below(4.min(d.len()));
                    d[i] = *r.pick(&[0, 1, 0x7f, 0x80, 0xff]);
                }
                _ if d.len() >= 4 => {
                    let n: i32 = *r.pick(&[i32::MIN, i32::MIN + 1, i32::MAX, -1, 1, 2, -2, 131072, 131073, 131074, -131073, -131074, 0]);
                    d[..4].copy_from_slice(&n.to_le_bytes());
                }
                _ => {}
            }
        }
        let want = ref_read(&d);
        let mut cur = Cursor::new(&d);
        let got = nopanic("panic", || format!("read_fstring of {:?}", &d[..d.len().min(64)]), || with_alloc_cap(8 << 20, || cur.read_fstring()))?;
        o.ev(1);
        match (want, got) {
            (Want::Err, Err(_)) => o.class("malformed refused"),
            (Want::Str(s, end), Ok(g)) => {
                if s != g {
                    return fail("value", format!("{:?}: want {s:?} got {g:?}", &d[..d.len().min(64)]));
                }
                if cur.position() as usize != end {
                    return fail("position", format!("consumed {} of {end}", cur.position()));
                }
                o.class("well-formed accepted");
            }
            (Want::Err, Ok(g)) => return fail("accepts-malformed", format!("{:?} read as {g:?}", &d[..d.len().min(64)])),
            (Want::Str(s, _), Err(e)) => return fail("refuses-valid", format!("{s:?}: {e}")),
        }
        o.nontrivial(&d);
        Ok(o)
    });
    c.cases("arrays, byte vectors, booleans, guids and bit ranges", c.n(30000, 400000), |r, _| {
        let mut o = Obs::new();
        let n = if r.chance(1, 200) { r.range(65_000, 70_000) } else { r.below(40) };
        let vals: Vec<u32> = (0..n).map(|_| r.u32()).collect();
        let g = Guid(r.bytes(16).try_into().unwrap());
        let raw = {
            let n = r.below(300);
            r.bytes(n)
        };
        let b = r.bool();
        let mut real = vec![];
        use byteorder::{ReadBytesExt, WriteBytesExt, LE};
        real.write_array(&vals, |w, v| w.write_u32::<LE>(*v)).unwrap();
        real.write_guid(&g).unwrap();
        real.write_bool(b).unwrap();
        real.extend(&raw);
        let mut want = (n as i32).to_le_bytes().to_vec();
        vals.iter().for_each(|v| want.extend(v.to_le_bytes()));
        want.extend(g.0);
        want.push(b as u8);
        want.extend(&raw);
        if real != want {
            return fail("bytes", "array/guid/bool bytes differ from the format");
        }
        let cut = if r.chance(1, 3) { r.below(real.len() + 1) } else { real.len() };
        let mut cur = Short { s: Cursor::new(&real[..cut]), k: r.range(1, 9) };
        let res = nopanic("panic", || "array/guid/bool read".into(), || -> std::io::Result<_> {
            let a = cur.read_array(|x| x.read_u32::<LE>())?;
            let g = cur.read_guid()?;
            let b = cur.read_bool()?;
            let v = cur.read_vec(raw.len())?;
            Ok((a, g, b, v))
        })?;
        match res {
            Ok(x) if cut == real.len() => {
                if x != (vals.clone(), g, b, raw.clone()) {
                    return fail("value", "array/guid/bool/bytes read back differently");
                }
                o.class("complete");
            }
            Ok(_) => return fail("accepts-truncated", format!("cut at {cut} of {}", real.len())),
            Err(_) if cut == real.len() => return fail("refuses-valid", "complete stream refused"),
            Err(_) => o.class("truncation reported"),
        }
        // any other byte than zero is true
        let any = r.u32() as u8;
        if Cursor::new(&[any][..]).read_bool().ok() != Some(any != 0) {
            return fail("value", format!("flag byte {any}"));
        }
        // hostile counts: no allocation beyond the data, an error and not a panic
        let bad = *r.pick(&[u32::MAX, i32::MAX as u32, 0x8000_0000, 1 << 30]);
        let mut d = bad.to_le_bytes().to_vec();
        let extra = r.below(40);
        d.extend(r.bytes(extra));
        let hostile = with_alloc_cap(16 << 20, || {
            nopanic("panic", || "hostile array count".into(), || Cursor::new(&d).read_array(|x| x.read_u32::<LE>()).is_err() && Cursor::new(&d).read_vec(bad as usize).is_err())
        })?;
        if !hostile {
            return fail("accepts-malformed", "a count beyond the data was accepted");
        }
        // bit ranges copy bit for bit; bits outside the source read as zero
        let (a, bl) = (r.range(1, 80), r.range(1, 80));
        let mut dst: bitvec::vec::BitVec<u32> = (0..a).map(|_| r.bool()).collect();
        let src: bitvec::vec::BitVec<u32> = (0..bl).map(|_| r.bool()).collect();
        let at = r.below(a);
        let num = r.below(a - at + 1);
        let from = r.below(bl + 4);
        let expect: Vec<bool> = (0..a).map(|i| if i >= at && i < at + num { src.get(from + i - at).as_deref().copied().unwrap_or(false) } else { dst[i] }).collect();
        dst.set_range_from_range(at as i32, num as i32, &src, from as i32);
        if dst.iter().by_vals().collect::<Vec<_>>() != expect {
            return fail("bits", format!("copying {num} bits from {from} to {at}"));
        }
        o.ev(4);
        o.nontrivial(&real[..cut]);
        Ok(o)
    });
}

// ------------------------------------------------------------------ H02
pub fn h02(c: &Ctx) {
    c.rule("non-trivial: a distinct identifier or text");
    c.cases("all representations of an identifier agree", c.n(200000, 400000), |r, i| {
        let mut o = Obs::new();
        let mut b: [u8; 16] = r.bytes(16).try_into().unwrap();
        if i < 128 {
            b = [0; 16];
            b[i as usize / 8] = 1 << (i % 8);
        } else if i == 128 {
            b = [0; 16];
        } else if r.chance(1, 4) {
            for x in b.iter_mut() {
                if r.bool() {
                    *x = *r.pick(&[0, 0xff, 0x0f, 0xf0]);
                }
            }
        }
        let g = Guid::new(b);
        let w = |k: usize| u32::from_le_bytes(b[k * 4..k * 4 + 4].try_into().unwrap());
        let ints = (w(0), w(1), w(2), w(3));
        let u = u128::from_le_bytes(b);
        let text: String = b.iter().map(|x| format!("{x:02X}")).collect();
        let dashed = format!("{}-{}-{}-{}-{}", &text[..8], &text[8..12], &text[12..16], &text[16..20], &text[20..]);
        let shown = if u == 0 { "0".into() } else { dashed.clone() };
        let checks: Vec<(&str, bool)> = vec![
            ("bytes", <[u8; 16]>::from(g) == b && Guid::from(b) == g),
            ("ints", Guid::from_ints(ints.0, ints.1, ints.2, ints.3) == g && <(u32, u32, u32, u32)>::from(g) == ints && Guid::from(ints) == g),
            ("u128", Guid::from(u) == g && u128::from(g) == u),
            ("zero", g.is_zero() == (u == 0)),
            ("display", g.to_string() == shown),
            ("parse shown", Guid::from_str(&shown).ok() == Some(g)),
            ("parse dashed", Guid::from_str(&dashed).ok() == Some(g)),
            ("parse lower", Guid::from_str(&text.to_lowercase()).ok() == Some(g)),
            ("parse braced", Guid::from_str(&format!("{{{dashed}}}")).ok() == Some(g)),
            ("serialized", serde_json::to_value(g).ok() == Some(serde_json::Value::String(shown.clone()))),
            ("deserialized", serde_json::from_str::<Guid>(&format!("\"{shown}\"")).ok() == Some(g)),
        ];
        for (n, ok) in checks {
            o.ev(1);
            if !ok {
                return fail(format!("guid-{}", n.replace(' ', "-")), format!("{n} disagrees for {text}"));
            }
        }
        o.class(if u == 0 { "zero" } else { "non-zero" });
        o.nontrivial(&b);
        o.sample = Some(shown);
        Ok(o)
    });
    c.cases("arbitrary text", c.n(200000, 400000), |r, _| {
        let mut o = Obs::new();
        let mut s = match r.below(3) {
            0 => gen_string(r, 40),
            _ => {
                let mut t: String = (0..32).map(|_| *r.pick(b"0123456789abcdefABCDEF") as char).collect();
                for p in [20, 16, 12, 8] {
                    if r.bool() {
                        t.insert(p, '-');
                    }
                }
                t
            }
        };
        for _ in 0..r.below(3) {
            let mut v: Vec<char> = s.chars().collect();
            let at = r.below(v.len() + 1);
            match r.below(3) {
                0 => v.insert(at, *r.pick(&['+', '-', 'g', 'é', '{', '}', ' ', '0', '\u{0661}', '😀'])),
                1 if at < v.len() => {
                    v[at] = *r.pick(&['+', 'x', 'é', ' ', '-', '_', '中']);
                }
                _ if at < v.len() => {
                    v.remove(at);
                }
                _ => {}
            }
            s = v.into_iter().collect();
        }
        let got = nopanic("panic", || format!("parsing {s:?}"), || Guid::from_str(&s))?;
        o.ev(1);
        // the digits of an accepted text, in order, are the identifier
        let digits: String = s.chars().filter(|c| !matches!(c, '-' | '{' | '}') && !c.is_whitespace()).collect();
        match got {
            Ok(g) => {
                let hex: String = g.0.iter().map(|x| format!("{x:02x}")).collect();
                let zero = digits == "0" && g.is_zero();
                if digits.to_lowercase() != hex && !zero {
                    return fail("accepts-wrong", format!("{s:?} accepted as {g}"));
                }
                o.class("accepted");
            }
            Err(_) => {
                if s.len() == 32 && s.bytes().all(|b| b.is_ascii_hexdigit()) {
                    return fail("refuses-valid", format!("{s:?} refused"));
                }
                o.class("refused");
            }
        }
        o.nontrivial(s.as_bytes());
        Ok(o)
    });
}

// ------------------------------------------------------------------ H03
pub fn h03(c: &Ctx) {
    c.rule("non-trivial: a distinct (game, path) pair under the game root");
    c.cases("game paths mapped to files", c.n(200000, 400000), |r, _| {
        let mut o = Obs::new();
        let comp = |r: &mut Rng| -> String {
            match r.below(6) {
                0 => format!("{}$1", gen_ident(r)),
                1 => format!("{}{}", r.pick(&["Ünï", "日本", "ñ"]), gen_ident(r)),
                2 => format!("{} {}", gen_ident(r), gen_ident(r)),
                _ => gen_ident(r),
            }
        };
        let game = match r.below(4) {
            0 => format!("{}$0{}", gen_ident(r), gen_ident(r)),
            1 => format!("{}${{x}}", gen_ident(r)),
            2 => format!("{}\\{}", gen_ident(r), gen_ident(r)),
            _ => gen_ident(r),
        };
        let n = r.range(1, 5);
        let mut parts: Vec<String> = (0..n).map(|_| comp(r)).collect();
        for p in parts.iter_mut() {
            if r.chance(1, 6) {
                *p = format!("{p}.{}", gen_ident(r));
            }
            if r.chance(1, 20) {
                *p = "Game".into();
            }
        }
        let ext = r.below(5);
        if ext < 2 {
            let l = parts.last_mut().unwrap();
            *l = format!("{l}.{}", r.pick(&["umap", "uasset", "uexp"]));
        }
        let rest = parts.join("/");
        let prefix = *r.pick(&["/Game/", "/Game/", "/Game/", "/game/", "Game/", "//Game/", "/Gamer/", "/Script/", "", "/X/Game/", "\n/Game/"]);
        let path = format!("{prefix}{rest}");
        let got = nopanic("panic", || format!("{game:?} {path:?}"), || game_to_absolute(&game, &path))?;
        let want = path.strip_prefix("/Game/").map(|rest| {
            let last = rest.rsplit('/').next().unwrap();
            let has = last.rfind('.').map(|i| i > 0).unwrap_or(false);
            format!("{game}/Content/{rest}{}", if has { "" } else { ".uasset" })
        });
        o.ev(1);
        if got != want {
            return fail("path", format!("game {game:?} path {path:?}: got {got:?} want {want:?}"));
        }
        o.class(match (&want, ext < 2) {
            (None, _) => "outside the game root: refused",
            (_, true) => "extension kept",
            _ => "extension added",
        });
        if want.is_some() {
            o.nontrivial(format!("{game}\0{path}").as_bytes());
        }
        o.sample = Some(format!("{path} -> {got:?}"));
        Ok(o)
    });
}

// ------------------------------------------------------------------ B01
pub type M = Vec<(usize, String, u64)>;
/// every read-only view of the map agrees with the model
pub fn check_map(m: &IndexedMap<String, u64>, model: &M) -> Result<u64, Fail> {
    let ev = model.len() as u64 * 6 + 6;
    if m.len() != model.len() || m.is_empty() != model.is_empty() {
        return fail("len", format!("len {} want {}", m.len(), model.len()));
    }
    let it: M = m.iter().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    if it != *model {
        return fail("iter", format!("iteration gives {it:?}, want {model:?}"));
    }
    let mut back: M = m.iter().rev().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    back.reverse();
    if back != *model || m.iter().len() != model.len() {
        return fail("iter-rev", "reverse iteration differs");
    }
    if !m.values().copied().eq(model.iter().map(|x| x.2)) || !m.keys().eq(model.iter().map(|x| &x.1)) {
        return fail("values", "values()/keys() differ from insertion order");
    }
    if !m.values().rev().copied().eq(model.iter().rev().map(|x| x.2)) || !m.keys().rev().eq(model.iter().rev().map(|x| &x.1)) {
        return fail("values-rev", "reversed values()/keys() differ from insertion order");
    }
    let mut bykey: M = m.iter_key().map(|(i, k, v)| (i, k.clone(), *v)).collect();
    bykey.sort();
    let mut s = model.clone();
    s.sort();
    if bykey != s {
        return fail("iter-key", "key iteration shows other entries");
    }
    for (i, k, v) in model {
        if m.get_by_key(k) != Some(v) || m.get_by_key(k.as_str()) != Some(v) || !m.contains_key(k) {
            return fail("by-key", format!("{k:?} not found"));
        }
        if m.get_by_index(*i) != Some(v) || !m.contains_index(*i) {
            return fail("by-index", format!("index {i} gives {:?}, want {v}", m.get_by_index(*i)));
        }
    }
    let hi = model.iter().map(|x| x.0).max().map(|x| x + 3).unwrap_or(3);
    for i in 0..hi {
        if !model.iter().any(|x| x.0 == i) && (m.get_by_index(i).is_some() || m.contains_index(i)) {
            return fail("ghost", format!("index {i} exists but was removed or never inserted"));
        }
    }
    Ok(ev)
}
pub fn map_history(r: &mut Rng, steps: usize) -> CaseRes {
    use unreal_asset_base::containers::indexed_map::entry::Entry;
    let mut o = Obs::new();
    let mut m: IndexedMap<String, u64> = if r.bool() { IndexedMap::new() } else { IndexedMap::with_capacity(r.below(9)) };
    let mut model: M = vec![];
    let mut trace = vec![];
    let nk = r.range(1, 12);
    let key = |r: &mut Rng| format!("k{}", r.below(nk));
    // a new entry comes last; its index is whatever the map reports, but above every live one
    macro_rules! appended {
        ($k:expr, $v:expr) => {{
            let last = m.iter().next_back().map(|(i, k, v)| (i, k.clone(), *v));
            match last {
                Some((i, k, v)) if k == $k && v == $v && model.iter().all(|x| x.0 < i) => model.push((i, k, v)),
                x => return fail("append", format!("after inserting {:?} the last entry is {x:?}; trace {trace:?}", $k)),
            }
        }};
    }
    for _ in 0..steps {
        let k = key(r);
        let v = r.u64() % 1000;
        let pos = model.iter().position(|x| x.1 == k);
        let op = r.below(14);
        trace.push((op, k.clone(), v));
        match op {
            0..=3 => {
                m.insert(k.clone(), v);
                match pos {
                    Some(p) => model[p].2 = v,
                    None => appended!(k, v),
                }
                o.class("insert");
            }
            4 | 5 => {
                let got = m.remove_by_key(k.as_str());
                let want = pos.map(|p| model.remove(p));
                if got != want {
                    return fail("remove-key", format!("{got:?} want {want:?}; trace {trace:?}"));
                }
                o.class("remove by key");
            }
            6 => {
                let i = if model.is_empty() || r.chance(1, 4) { r.below(20) } else { r.pick(&model).0 };
                let got = m.remove_by_index(i);
                let want = model.iter().position(|x| x.0 == i).map(|p| model.remove(p));
                if got != want {
                    return fail("remove-index", format!("{got:?} want {want:?}; trace {trace:?}"));
                }
                o.class("remove by index");
            }
            7 => {
                let got = *m.entry(k.clone()).or_insert(v);
                match pos {
                    Some(p) if got == model[p].2 => {}
                    None if got == v => appended!(k, v),
                    _ => return fail("entry", format!("or_insert gives {got}; trace {trace:?}")),
                }
                o.class("entry or_insert");
            }
            8 => {
                match m.entry(k.clone()) {
                    Entry::Occupied(mut e) => {
                        let Some(p) = pos else { return fail("entry", "occupied entry for an absent key") };
                        if e.key() != &k || *e.get() != model[p].2 {
                            return fail("entry", "occupied entry shows another entry");
                        }
                        if r.bool() {
                            *e.get_mut() = v;
                            model[p].2 = v;
                        } else {
                            let got = e.remove_entry();
                            let want = model.remove(p);
                            if got != want {
                                return fail("entry-remove", format!("{got:?} want {want:?}"));
                            }
                        }
                    }
                    Entry::Vacant(e) => {
                        if pos.is_some() {
                            return fail("entry", "vacant entry for a present key");
                        }
                        if e.key() != &k {
                            return fail("entry", "vacant entry has another key");
                        }
                        *e.insert(v) += 1;
                        appended!(k, v + 1);
                    }
                }
                o.class("entry match");
            }
            9 => {
                for ((i, k, v), want) in m.iter_mut().zip(model.iter_mut()) {
                    if (i, k, *v) != (want.0, &want.1, want.2) {
                        return fail("iter-mut", format!("iter_mut shows {i} {k} {v}, want {want:?}"));
                    }
                    *v += 7;
                    want.2 += 7;
                }
                o.class("iter_mut");
            }
            10 => {
                if r.bool() {
                    m.values_mut().rev().for_each(|v| *v = v.wrapping_mul(3));
                } else {
                    m.iter_key_mut().for_each(|(_, _, v)| *v = v.wrapping_mul(3));
                }
                model.iter_mut().for_each(|x| x.2 = x.2.wrapping_mul(3));
                o.class("values_mut / iter_key_mut");
            }
            11 => {
                if let Some(p) = pos {
                    *m.get_by_key_mut(k.as_str()).ok_or(()).or_else(|_| fail("by-key-mut", k.clone()))? += 1;
                    *m.get_by_index_mut(model[p].0).ok_or(()).or_else(|_| fail("by-index-mut", k.clone()))? += 1;
                    model[p].2 += 2;
                } else if m.get_by_key_mut(k.as_str()).is_some() {
                    return fail("ghost", "mutable access to an absent key");
                }
                o.class("get_mut");
            }
            12 => {
                let cl = m.clone();
                if cl != m {
                    return fail("clone-eq", format!("a clone differs from its original; trace {trace:?}"));
                }
                // changing the original leaves the clone alone and makes them unequal
                let mut other = m.clone();
                if let Some((_, k0, v0)) = model.first() {
                    other.insert(k0.clone(), v0.wrapping_add(1));
                    if other == m {
                        return fail("eq-value", "maps with different values are equal");
                    }
                    other.remove_by_key(k0.as_str());
                } else {
                    other.insert("fresh".into(), 1);
                }
                if other == m {
                    return fail("eq-len", "maps with different entries are equal");
                }
                check_map(&m, &model)?;
                m = cl;
                o.class("clone");
            }
            _ => {
                let owned: M = m.clone().into_iter().collect();
                if owned != model {
                    return fail("into-iter", format!("into_iter gives {owned:?} want {model:?}; trace {trace:?}"));
                }
                // collecting keeps order and the last value of a repeated key
                let dup: Vec<(String, u64)> = model.iter().map(|x| (x.1.clone(), x.2)).chain(model.first().map(|x| (x.1.clone(), 5))).collect();
                let col: IndexedMap<String, u64> = dup.into_iter().collect();
                let want: M = model.iter().enumerate().map(|(p, x)| (p, x.1.clone(), if p == 0 { 5 } else { x.2 })).collect();
                check_map(&col, &want)?;
                o.class("into_iter / collect");
            }
        }
        o.ev(check_map(&m, &model).map_err(|e| Fail { key: e.key, msg: format!("{}; trace {trace:?}", e.msg) })?);
    }
    o.nontrivial(format!("{trace:?}").as_bytes());
    o.sample = Some(format!("{} operations, {} entries left", trace.len(), model.len()));
    Ok(o)
}
pub fn b01(c: &Ctx) {
    c.rule("non-trivial: a distinct operation history");
    c.cases("operation histories checked against an ordered-list model after every step", c.n(30000, 300000), |r, _| {
        let steps = r.range(1, 60);
        map_history(r, steps)
    });
    // every history of length 5 over two keys and the structural operations
    let ops = 5usize;
    let total = ops.pow(6) as u64;
    c.exhaustive("all 15625 length-6 histories of {insert a, insert b, remove a, remove b, remove first by index}");
    c.cases("all short histories", total, |_, i| {
        let mut o = Obs::new();
        let mut m: IndexedMap<String, u64> = IndexedMap::new();
        let mut model: M = vec![];
        let mut x = i;
        for step in 0..6 {
            let op = (x % ops as u64) as usize;
            x /= ops as u64;
            let k = if op % 2 == 0 { "a" } else { "b" }.to_string();
            let pos = model.iter().position(|e| e.1 == k);
            match op {
                0 | 1 => {
                    m.insert(k.clone(), step);
                    match pos {
                        Some(p) => model[p].2 = step,
                        None => {
                            let idx = m.iter().next_back().map(|e| e.0).unwrap_or(0);
                            if model.iter().any(|e| e.0 >= idx) {
                                return fail("append", format!("history {i}: index {idx} of a new entry is taken"));
                            }
                            model.push((idx, k, step));
                        }
                    }
                }
                2 | 3 => {
                    if m.remove_by_key(k.as_str()) != pos.map(|p| model.remove(p)) {
                        return fail("remove-key", format!("history {i}"));
                    }
                }
                _ => {
                    if let Some(f) = model.first().map(|e| e.0) {
                        if m.remove_by_index(f) != Some(model.remove(0)) {
                            return fail("remove-index", format!("history {i}"));
                        }
                    }
                }
            }
            o.ev(check_map(&m, &model).map_err(|e| Fail { key: e.key, msg: format!("history {i}: {}", e.msg) })?);
        }
        o.nontrivial(&i.to_le_bytes());
        Ok(o)
    });
}

// ------------------------------------------------------------------ B02
pub fn b02(c: &Ctx) {
    c.rule("non-trivial: a distinct history of name operations");
    c.cases("name table histories", c.n(30000, 300000), |r, _| {
        let mut o = Obs::new();
        let mut model: Vec<String> = vec![];
        let nn = r.range(1, 10);
        let name = |r: &mut Rng| match r.below(8) {
            0 => gen_string(r, 8),
            1 => format!("Näme{}", r.below(nn)),
            _ => format!("Name{}", r.below(nn)),
        };
        let mut edited = false;
        let mut trace = vec![];
        let mut map = if r.chance(1, 3) {
            let n = r.below(8);
            model = (0..n).map(|_| name(r)).collect();
            NameMap::from_name_batch(&model)
        } else {
            NameMap::new()
        };
        let mut handles: Vec<(FName, usize, i32)> = vec![];
        for _ in 0..r.range(1, 40) {
            let n = name(r);
            let op = r.below(12);
            trace.push((op, n.clone()));
            let before = model.len();
            match op {
                0..=3 => {
                    let force = op == 3;
                    let i = map.get_mut().add_name_reference(n.clone(), force);
                    if i as usize == before {
                        if !force && !edited && model.contains(&n) {
                            return fail("duplicate", format!("{n:?} added again without force; {trace:?}"));
                        }
                        model.push(n.clone());
                    } else if force {
                        return fail("force", format!("forced addition of {n:?} returned index {i}; {trace:?}"));
                    }
                    if model.get(i as usize) != Some(&n) {
                        return fail("index", format!("adding {n:?} returned {i}, which holds {:?}; {trace:?}", model.get(i as usize)));
                    }
                    o.class(if force { "forced add" } else { "add" });
                }
                4 | 5 => {
                    let num = r.i32();
                    let f = map.get_mut().add_fname_with_number(&n, num);
                    let i = model.iter().position(|x| *x == n);
                    let real = map.get_ref().get_name_map_index_list().len();
                    if real > before {
                        if i.is_some() && !edited {
                            return fail("duplicate", format!("{n:?} added again; {trace:?}"));
                        }
                        model.push(n.clone());
                    }
                    if f.get_owned_content() != n || f.get_number() != num || !(f == n.as_str()) {
                        return fail("name", format!("name {n:?}/{num} reads {:?}/{}", f.get_owned_content(), f.get_number()));
                    }
                    let FName::Backed { index, .. } = &f else { return fail("backed", "a table name is not backed by the table") };
                    handles.push((f.clone(), *index as usize, num));
                    o.class("add name");
                }
                6 => {
                    let got = map.get_ref().search_name_reference(&n);
                    match got {
                        Some(i) if model.get(i as usize) != Some(&n) => return fail("search", format!("searching {n:?} finds index {i} holding {:?}; {trace:?}", model.get(i as usize))),
                        None if !edited && model.contains(&n) => return fail("search", format!("{n:?} not found; {trace:?}")),
                        _ => {}
                    }
                    o.class(if got.is_some() { "found" } else { "not found" });
                }
                7 if !model.is_empty() => {
                    // in-place rename: every name that refers to the entry shows the new text
                    let i = r.below(model.len());
                    *map.get_mut().get_name_reference_mut(i as i32) = n.clone();
                    if model[i] != n {
                        edited = true;
                    }
                    model[i] = n.clone();
                    o.class("rename in place");
                }
                8 => {
                    // a deep copy is equal and independent
                    let mut copy = map.clone_resource();
                    if *copy.get_ref() != *map.get_ref() {
                        return fail("copy-eq", "a copy of the table differs from it");
                    }
                    let fresh = format!("only in the copy {}", model.len());
                    let f = copy.get_mut().add_fname(&fresh);
                    if f.get_owned_content() != fresh {
                        return fail("copy-names", format!("a name added to a copy reads {:?}", f.get_owned_content()));
                    }
                    if *copy.get_ref() == *map.get_ref() {
                        return fail("copy-eq", "tables with different names are equal");
                    }
                    if !model.is_empty() {
                        // also when the same names are there in another number
                        let mut twice = map.clone_resource();
                        let again = r.pick(&model).clone();
                        twice.get_mut().add_name_reference(again, true);
                        let mut other = map.clone_resource();
                        let again2 = r.pick(&model).clone();
                        other.get_mut().add_name_reference(again2, true);
                        if *twice.get_ref() == *map.get_ref() {
                            return fail("copy-eq", "a table with one name more is equal");
                        }
                        let same = twice.get_ref().get_name_map_index_list() == other.get_ref().get_name_map_index_list();
                        if !same && *twice.get_ref() == *other.get_ref() {
                            return fail("copy-eq", "tables with different entries are equal");
                        }
                    }
                    if map.get_ref().get_name_map_index_list().len() != model.len() {
                        return fail("copy-shared", "adding to a copy changed the original");
                    }
                    o.class("copy");
                }
                9 => {
                    for i in [-1, model.len() as i32, i32::MAX, i32::MIN] {
                        nopanic("out-of-range", || format!("index {i}"), || map.get_ref().get_owned_name(i))?;
                    }
                    o.class("out of range");
                }
                10 => {
                    let (a, b) = (FName::new_dummy(n.clone(), 3), FName::from_slice(&n));
                    if a.get_owned_content() != n || !a.eq_content(&b) || a == b || b != FName::from_slice(&n) || a.get_number() != 3 {
                        return fail("dummy", format!("free-standing name {n:?} misbehaves"));
                    }
                }
                _ => {
                    if map.get_ref().is_empty() != model.is_empty() {
                        return fail("empty", "is_empty disagrees");
                    }
                }
            }
            if map.get_ref().get_name_map_index_list() != model.as_slice() {
                return fail("table", format!("table {:?} want {model:?}; {trace:?}", map.get_ref().get_name_map_index_list()));
            }
            for (i, n) in model.iter().enumerate() {
                if map.get_ref().get_name_reference(i as i32) != n {
                    return fail("table", format!("index {i} does not read {n:?}"));
                }
            }
            for (f, i, num) in &handles {
                if f.get_content(|x| x != model[*i]) || f.get_number() != *num {
                    return fail("handle", format!("a name handed out earlier for index {i} now reads {:?}; {trace:?}", f.get_owned_content()));
                }
            }
            o.ev(2 + model.len() as u64 + handles.len() as u64);
        }
        o.nontrivial(format!("{trace:?}").as_bytes());
        o.sample = Some(format!("{} operations, {} names, {} handles", trace.len(), model.len(), handles.len()));
        Ok(o)
    });
}

// ------------------------------------------------------------------ B03
pub fn b03(c: &Ctx) {
    c.rule("non-trivial: a distinct (split, operation list)");
    c.cases("read and seek histories against the concatenated bytes", c.n(60000, 600000), |r, _| {
        let mut o = Obs::new();
        let n = r.below(200);
        let all = r.bytes(n);
        let cut = match r.below(5) {
            0 => 0,
            1 => n,
            _ => r.below(n + 1),
        };
        let single = r.chance(1, 6);
        let mut ch = if single {
            Chain::new(Cursor::new(all.clone()), None)
        } else {
            Chain::new(Cursor::new(all[..cut].to_vec()), Some(Cursor::new(all[cut..].to_vec())))
        };
        let mut re = Cursor::new(all.clone());
        let mut trace = vec![];
        for _ in 0..r.range(1, 30) {
            match r.below(6) {
                0..=2 => {
                    let want = r.below(60);
                    trace.push(format!("read {want}"));
                    // exact reads: same bytes or both run out
                    let mut a = vec![0u8; want];
                    let mut b = vec![0u8; want];
                    let pos = re.position();
                    let ra = nopanic("panic", || format!("{trace:?}"), || ch.read_exact(&mut a))?;
                    let rb = re.read_exact(&mut b);
                    if ra.is_ok() != rb.is_ok() {
                        return fail("read-result", format!("cut {cut}/{n}: {ra:?} vs {rb:?}; {trace:?}"));
                    }
                    if ra.is_ok() && a != b {
                        return fail("read-bytes", format!("cut {cut}/{n}: wrong bytes at {pos}; {trace:?}"));
                    }
                    if ra.is_err() {
                        o.class("read past the end");
                        // where a failed read leaves the stream is unspecified: go somewhere definite
                        ch.seek(SeekFrom::Start(0)).ok();
                        re.seek(SeekFrom::Start(0)).ok();
                    } else {
                        let c = cut as u64;
                        o.class(if pos < c && pos + want as u64 > c { "read across the join" } else { "read inside one part" });
                    }
                }
                3 => {
                    // plain reads: a prefix of what is there, and nothing only at the end
                    let want = r.range(1, 60);
                    trace.push(format!("plain {want}"));
                    let pos = re.position() as usize;
                    let mut a = vec![0u8; want];
                    let got = nopanic("panic", || format!("{trace:?}"), || ch.read(&mut a))?.map_err(|e| Fail { key: "read-error".into(), msg: format!("{e}; {trace:?}") })?;
                    let avail = n.saturating_sub(pos);
                    if got > want.min(avail) || (got == 0 && avail > 0) || a[..got] != all[pos.min(n)..pos.min(n) + got] {
                        return fail("plain-read", format!("cut {cut}/{n}: read {got} of {want} at {pos}; {trace:?}"));
                    }
                    re.set_position((pos + got) as u64);
                }
                _ => {
                    let p = match r.below(3) {
                        0 => SeekFrom::Start(r.below(n + 20) as u64),
                        1 => SeekFrom::Current(r.below(2 * n + 9) as i64 - n as i64 - 4),
                        _ => SeekFrom::End(r.below(n + 20) as i64 - n as i64 - 5),
                    };
                    trace.push(format!("{p:?}"));
                    let a = nopanic("panic", || format!("{trace:?}"), || ch.seek(p))?;
                    let b = re.seek(p);
                    match (&a, &b) {
                        (Ok(x), Ok(y)) if x == y => o.class("seek"),
                        (Err(_), Err(_)) => o.class("seek before the start refused"),
                        _ => return fail("seek", format!("cut {cut}/{n}: {a:?} vs {b:?}; {trace:?}")),
                    }
                }
            }
            let pa = ch.stream_position().ok();
            if pa != Some(re.position()) {
                return fail("position", format!("cut {cut}/{n}: at {pa:?}, want {}; {trace:?}", re.position()));
            }
            o.ev(2);
        }
        if single {
            o.class("single part");
        }
        o.nontrivial(format!("{cut} {n} {trace:?}").as_bytes());
        o.sample = Some(format!("split {cut}/{n}: {}", trace.join(", ")));
        Ok(o)
    });
}

// ------------------------------------------------------------------ B04
pub fn ref_name_hash(s: &str) -> u32 {
    // legacy case-insensitive hash: MSB-first CRC-32 table (0x04C11DB7) driven LSB-first
    let tab = |i: u32| (0..8).fold(i << 24, |c, _| if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 });
    let mut a = 0u32;
    let wide = !s.is_ascii();
    for u in s.encode_utf16() {
        let u = if (0x61..=0x7a).contains(&u) { u - 32 } else { u };
        a = (a >> 8) ^ tab((a ^ u as u32) & 0xff);
        if wide {
            a = (a >> 8) ^ tab((a ^ (u >> 8) as u32) & 0xff);
        }
    }
    // standard CRC-32 of the string as UTF-32LE code units
    let mut b = !0u32;
    for u in s.encode_utf16() {
        for byte in (u as u32).to_le_bytes() {
            b ^= byte as u32;
            for _ in 0..8 {
                b = if b & 1 != 0 { (b >> 1) ^ 0xEDB8_8320 } else { b >> 1 };
            }
        }
    }
    (a & 0xffff) | (!b << 16)
}
pub fn b04(c: &Ctx) {
    use unreal_asset_base::crc::{cityhash64_to_lower, generate_hash};
    c.rule("non-trivial: a distinct name");
    let one = |s: &str| -> Result<(), Fail> {
        let (g, w) = (generate_hash(s), ref_name_hash(s));
        if g != w {
            return fail("name-hash", format!("hash of {s:?} is {g:08x}, the format says {w:08x}"));
        }
        let low: Vec<u8> = s.encode_utf16().map(|u| if (0x41..=0x5a).contains(&u) { u + 32 } else { u }).flat_map(|u| u.to_le_bytes()).collect();
        // the hashing library overflows on longer input in checked builds; that is not this code
        if low.len() > 32 {
            return Ok(());
        }
        let (g, w) = (cityhash64_to_lower(s), naive_cityhash::cityhash64(&low));
        if g != w {
            return fail("city-hash", format!("64-bit hash of {s:?} is {g:016x}, the lower-cased text hashes to {w:016x}"));
        }
        Ok(())
    };
    c.exhaustive("all one- and two-character names over 0..0x80, all single UTF-16 units");
    c.cases("all short names", 256 + 128, |_, i| {
        let mut o = Obs::new();
        if i < 256 {
            for lo in 0..256u32 {
                if let Some(ch) = char::from_u32((i as u32) << 8 | lo) {
                    one(&ch.to_string())?;
                    o.ev(2);
                }
            }
        } else {
            for b in 0..128u8 {
                one(&format!("{}{}", (i - 256) as u8 as char, b as char))?;
                o.ev(2);
            }
        }
        o.nontrivial(&i.to_le_bytes());
        Ok(o)
    });
    c.cases("generated names", c.n(200000, 400000), |r, _| {
        let mut o = Obs::new();
        let s = match r.below(3) {
            0 => gen_string(r, 80),
            1 => gen_ident(r),
            _ => (0..r.below(20)).map(|_| char::from_u32(r.below(0x3000) as u32).unwrap_or('x')).collect(),
        };
        one(&s)?;
        let flipped: String = s.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        if (s.encode_utf16().count() <= 16 && cityhash64_to_lower(&s) != cityhash64_to_lower(&flipped)) || (generate_hash(&s) ^ generate_hash(&flipped)) & 0xffff != 0 {
            return fail("case", format!("{s:?} and {flipped:?} hash differently"));
        }
        o.ev(4);
        o.class(if s.is_ascii() { "narrow" } else { "wide" });
        o.nontrivial(s.as_bytes());
        o.sample = Some(format!("{s:?} {:08x}", generate_hash(&s)));
        Ok(o)
    });
}

// ------------------------------------------------------------------ B05
pub fn b05(c: &Ctx) {
    c.rule("non-trivial: a distinct compressed block");
    c.cases("blocks of every method, exact, short, long, truncated and corrupted", c.n(30000, 300000), |r, _| {
        use std::io::Write;
        let mut o = Obs::new();
        let n = r.below(3000);
        let data = r.blob(n);
        let name = *r.pick(&["None", "Zlib", "Gzip", "LZ4", "Oodle", "zlib", ""]);
        let m = CompressionMethod::new(name);
        if m.to_string() != name {
            return fail("method-name", format!("{name:?} shown as {m}"));
        }
        let mut z = match name {
            "Zlib" => {
                let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(r.below(10) as u32));
                e.write_all(&data).unwrap();
                e.finish().unwrap()
            }
            "Gzip" => {
                let mut e = flate2::write::GzEncoder::new(vec![], flate2::Compression::new(r.below(10) as u32));
                e.write_all(&data).unwrap();
                e.finish().unwrap()
            }
            "LZ4" => lz4_literals(&data),
            _ => data.clone(),
        };
        let known = matches!(name, "None" | "Zlib" | "Gzip" | "LZ4");
        let mode = r.below(4);
        match mode {
            1 => {
                let k = r.below(z.len() + 1);
                z.truncate(k);
            }
            2 if !z.is_empty() => {
                for _ in 0..r.range(1, 4) {
                    let i = r.below(z.len());
                    z[i] = r.u64() as u8;
                }
            }
            _ => {}
        }
        let len = if mode == 3 { r.below(n + 50) } else { n };
        let fill = 0xA7u8;
        let mut out = vec![fill; len];
        let res = nopanic("panic", || format!("{name} block of {} bytes into {len}", z.len()), || with_alloc_cap(64 << 20, || decompress(m, &z, &mut out)))?;
        o.ev(1);
        match (&res, mode) {
            (Ok(()), _) if !known => return fail("unknown-method", format!("{name:?} accepted")),
            (Err(e), 0) if known => return fail("refuses-valid", format!("{name}, {n} bytes: {e}")),
            (Ok(()), 0) | (Ok(()), 3) => {
                if len > n || out != data[..len] {
                    return fail("content", format!("{name}: {len} of {n} bytes restored wrongly"));
                }
                o.class(format!("{name} restored"));
            }
            (Ok(()), 1) => {
                if out != data {
                    return fail("truncated", format!("{name}: a truncated block of {n} bytes was accepted with other content"));
                }
                o.class(format!("{name} cut after the data"));
            }
            (Ok(()), _) => o.class(format!("{name} corrupted, still decodable")),
            (Err(_), _) => o.class(format!("{name} refused")),
        }
        o.nontrivial(&z);
        Ok(o)
    });
}
/// LZ4 block made of literals and, where the data repeats, overlapping matches
fn lz4_literals(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let put = |o: &mut Vec<u8>, lit: &[u8], mat: Option<(usize, usize)>| {
        let l = lit.len().min(15);
        let m = mat.map(|x| (x.1 - 4).min(15)).unwrap_or(0);
        o.push(((l << 4) | m) as u8);
        let ext = |o: &mut Vec<u8>, mut n: usize| {
            while n >= 255 {
                o.push(255);
                n -= 255;
            }
            o.push(n as u8);
        };
        if l == 15 {
            ext(o, lit.len() - 15);
        }
        o.extend(lit);
        if let Some((off, len)) = mat {
            o.extend((off as u16).to_le_bytes());
            if m == 15 {
                ext(o, len - 4 - 15);
            }
        }
    };
    let (mut i, mut start) = (0, 0);
    while i + 17 < d.len() {
        let off = (1..=17.min(i)).find(|&k| d[i..i + 4] == d[i - k..i - k + 4]);
        if let Some(k) = off {
            let mut len = 4;
            while i + len + 5 < d.len() && d[i + len] == d[i + len - k] {
                len += 1;
            }
            put(&mut o, &d[start..i], Some((k, len)));
            i += len;
            start = i;
        } else {
            i += 1;
        }
    }
    put(&mut o, &d[start..], None);
    o
}
