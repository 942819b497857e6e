//! D01: mod metadata. A generator writes the JSON text and, independently, the
//! meaning it must have; the monitor compares field by field.
use crate::core::*;
use semver::VersionReq;
use serde_json::{json, Map, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use unreal_mod_metadata::{from_slice, Dependency, DownloadInfo, DownloadMode, Metadata, SyncMode};

const V1_EXTRA: [&str; 5] = ["persistent_actors", "mission_trailheads", "linked_actor_components", "item_list_entries", "biome_placement_modifiers"];
const SYNC: [(&str, SyncMode); 4] =
    [("serverclient", SyncMode::ServerAndClient), ("server", SyncMode::ServerOnly), ("client", SyncMode::ClientOnly), ("none", SyncMode::None)];
const REQS: [&str; 14] = [
    "*", ">=1.2.3", "<=2.1.0", "^1", "~1.2", "=1.0.0", ">1, <3", "1.2.*", "1.0.0-alpha", "0.0.1", ">=0.1, <0.2, >0.1.3", "^18446744073709551615", "1", "<1.0.0-rc.1",
];
const BAD_REQS: [&str; 10] = ["", "abc", "1.2.3.4", ">>1", "1.2.3 || 2", "v1", "1..2", "99999999999999999999", "=", "1.0,"];

/// what a metadata text means
#[derive(Debug, Clone, Default)]
struct Want {
    name: String,
    mod_id: String,
    author: Option<String>,
    description: Option<String>,
    version: String,
    game_build: Option<String>,
    sync: Option<SyncMode>,
    homepage: Option<String>,
    download: Option<String>,
    deps: BTreeMap<String, (VersionReq, Option<String>)>,
    integrator: BTreeMap<String, Value>,
    dlls: Vec<String>,
}
pub fn value(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 => json!(r.u64()),
        3 => json!(r.u64() as i64),
        4 => json!(r.i32() as f64 / 8.0),
        5 => json!(gen_string(r, 12)),
        6 => Value::Array((0..r.below(4)).map(|_| value(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(4)).map(|_| (gen_string(r, 6), value(r, depth - 1))).collect()),
    }
}
fn text(r: &mut Rng) -> String {
    gen_string(r, 20)
}
/// an optional text field: absent, null or present
fn opt(r: &mut Rng, o: &mut Map<String, Value>, key: &str) -> Option<String> {
    match r.below(4) {
        0 => None,
        1 => {
            o.insert(key.into(), Value::Null);
            None
        }
        _ => {
            let s = text(r);
            o.insert(key.into(), json!(s));
            Some(s)
        }
    }
}
fn download(url: &str) -> Value {
    json!({"type": "index_file", "url": url})
}
/// JSON object and its meaning, for one schema version
fn gen(r: &mut Rng, schema: u64) -> (Map<String, Value>, Want) {
    let mut o = Map::new();
    let mut w = Want { name: text(r), mod_id: text(r), version: text(r), ..Default::default() };
    if schema != 1 || r.bool() {
        o.insert("schema_version".into(), if schema == 1 && r.chance(1, 4) { Value::Null } else { json!(schema) });
    }
    o.insert("name".into(), json!(w.name));
    o.insert("mod_id".into(), json!(w.mod_id));
    o.insert("version".into(), json!(w.version));
    w.author = opt(r, &mut o, "author");
    w.description = opt(r, &mut o, "description");
    w.game_build = opt(r, &mut o, "game_build");
    w.homepage = opt(r, &mut o, "homepage");
    if r.chance(2, 3) {
        let s = r.pick(&SYNC);
        o.insert("sync".into(), json!(s.0));
        w.sync = Some(s.1);
    }
    if r.bool() {
        let u = text(r);
        o.insert("download".into(), download(&u));
        w.download = Some(u);
    }
    // fields of the other schema, which must not be taken over
    let mut deps = Map::new();
    let mut want_deps = BTreeMap::new();
    for _ in 0..r.below(4) {
        let k = text(r);
        let req = *r.pick(&REQS);
        let d = if r.bool() { Some(text(r)) } else { None };
        let v = match (&d, r.below(3)) {
            (None, 0) => json!(req),
            (None, 1) => json!({"version": req}),
            (None, _) => json!({"version": req, "download": null}),
            (Some(u), _) => json!({"version": req, "download": download(u)}),
        };
        deps.insert(k.clone(), v);
        want_deps.insert(k, (VersionReq::parse(req).unwrap(), d));
    }
    let integ: Map<String, Value> = (0..r.below(4)).map(|_| (if r.bool() { V1_EXTRA[r.below(5)].to_string() } else { text(r) }, value(r, 3))).collect();
    let dlls: Vec<String> = (0..r.below(4)).map(|_| text(r)).collect();
    if schema == 2 || r.chance(1, 3) {
        if r.chance(3, 4) {
            o.insert("dependencies".into(), Value::Object(deps));
            w.deps = want_deps;
        }
        if r.chance(3, 4) {
            o.insert("integrator".into(), Value::Object(integ.clone()));
            w.integrator = integ.into_iter().collect();
        }
        if r.chance(3, 4) {
            o.insert("cpp_loader_dlls".into(), json!(dlls));
            w.dlls = dlls;
        }
    }
    if schema == 1 {
        w.deps.clear();
        w.integrator.clear();
        w.dlls.clear();
    }
    if schema == 1 || r.chance(1, 3) {
        for k in V1_EXTRA {
            if r.bool() {
                let v = value(r, 3);
                o.insert(k.into(), v.clone());
                if schema == 1 && v != Value::Null {
                    w.integrator.insert(k.into(), v);
                }
            }
        }
    }
    for _ in 0..r.below(3) {
        o.insert(format!("x_{}", gen_ident(r)), value(r, 2));
    }
    (o, w)
}
/// text with its keys in random order
fn print(r: &mut Rng, o: &Map<String, Value>) -> Vec<u8> {
    let mut v: Vec<_> = o.iter().map(|(k, v)| format!("{}:{}", json!(k), v)).collect();
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    let sp = *r.pick(&["", " ", "\n\t"]);
    format!("{sp}{{{sp}{}{sp}}}{sp}", v.join(&format!("{sp},{sp}"))).into_bytes()
}
fn hash(m: &Metadata) -> u64 {
    let mut h = DefaultHasher::new();
    m.hash(&mut h);
    h.finish()
}
fn check(m: &Metadata, w: &Want, o: &mut Obs) -> Result<(), Fail> {
    let deps: BTreeMap<String, (VersionReq, Option<String>)> =
        m.dependencies.iter().map(|(k, d)| (k.clone(), (d.version.clone(), d.download.as_ref().map(|u| u.url.clone())))).collect();
    let integ: BTreeMap<String, Value> = m.integrator.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    macro_rules! eq {
        ($f:literal, $a:expr, $b:expr) => {
            o.ev(1);
            if $a != $b {
                return fail(concat!("field-", $f), format!(concat!($f, " is {:?}, the text says {:?}"), $a, $b));
            }
        };
    }
    eq!("schema", m.schema_version, 2);
    eq!("name", m.name, w.name);
    eq!("mod_id", m.mod_id, w.mod_id);
    eq!("author", m.author, w.author);
    eq!("description", m.description, w.description);
    eq!("version", m.mod_version, w.version);
    eq!("game_build", m.game_build, w.game_build);
    eq!("sync", m.sync, w.sync);
    eq!("homepage", m.homepage, w.homepage);
    eq!("download", m.download.as_ref().map(|d| d.url.clone()), w.download);
    eq!("dependencies", deps, w.deps);
    eq!("integrator", integ, w.integrator);
    eq!("dlls", m.cpp_loader_dlls, w.dlls);
    Ok(())
}
fn parse(t: &[u8]) -> Result<Result<Metadata, String>, Fail> {
    nopanic("panic", || format!("reading metadata {:?}", String::from_utf8_lossy(t)), || from_slice(t).map_err(|e| e.to_string()))
}
fn meaning(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let schema = *r.pick(&[1, 2, 2]);
    let (j, w) = gen(r, schema);
    let t = print(r, &j);
    let m = match parse(&t)? {
        Ok(m) => m,
        Err(e) => return fail("refused", format!("{e}: {}", String::from_utf8_lossy(&t))),
    };
    check(&m, &w, &mut o).map_err(|f| Fail { msg: format!("{} in {}", f.msg, String::from_utf8_lossy(&t)), ..f })?;
    // the same text in another order, a copy, and the written form are the same metadata
    let again = parse(&print(r, &j))?.map_err(|e| Fail { key: "order".into(), msg: e })?;
    let text = nopanic("panic-write", || format!("writing {m:?}"), || serde_json::to_vec(&m))?.map_err(|e| Fail { key: "write".into(), msg: e.to_string() })?;
    let back = parse(&text)?.map_err(|e| Fail { key: "reread".into(), msg: format!("{e}: {}", String::from_utf8_lossy(&text)) })?;
    check(&back, &w, &mut o).map_err(|f| Fail { key: format!("reread-{}", f.key), msg: format!("after writing: {}", f.msg) })?;
    for (what, x) in [("reordered", &again), ("copied", &m.clone()), ("reread", &back)] {
        let (eq, h) = nopanic("panic-eq", || format!("comparing {m:?}"), || (*x == m && m == *x, hash(x) == hash(&m)))?;
        o.ev(2);
        if !eq {
            return fail("not-equal", format!("{what} metadata is not equal: {m:?} {x:?}"));
        }
        if !h {
            return fail("hash", format!("{what} metadata is equal but hashes differently: {m:?}"));
        }
    }
    o.class(format!("schema {schema} deps {} integrator {} dlls {}", w.deps.len(), w.integrator.len(), w.dlls.len()));
    o.nontrivial(&t);
    Ok(o)
}
/// metadata that differ in one field are not equal
fn differ(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let (j, _) = gen(r, 2);
    let t = print(r, &j);
    let Ok(a) = parse(&t)? else { return fail("refused", String::from_utf8_lossy(&t)) };
    let mut b = a.clone();
    let flip = |s: &mut Option<String>| {
        *s = match s.take() {
            None => Some(String::new()),
            Some(x) if x.is_empty() => None,
            Some(x) => Some(x + "x"),
        }
    };
    // another text of the same length
    let other = |s: &str| -> String {
        let mut c: Vec<char> = s.chars().collect();
        match c.last_mut() {
            Some(l) => *l = if *l == 'q' { 'Q' } else { 'q' },
            None => c.push('q'),
        }
        c.into_iter().collect()
    };
    let same_len = r.bool();
    let flip = |s: &mut Option<String>| match s {
        Some(x) if same_len => *x = other(x),
        _ => flip(s),
    };
    let k = r.below(13);
    let what = match k {
        0 => {
            if same_len {
                b.name = other(&b.name);
            } else {
                b.name.push('x');
            }
            "name"
        }
        1 => {
            if same_len {
                b.mod_id = other(&b.mod_id);
            } else {
                b.mod_id.push('x');
            }
            "mod_id"
        }
        2 => {
            flip(&mut b.author);
            "author"
        }
        3 => {
            flip(&mut b.description);
            "description"
        }
        4 => {
            b.mod_version.push('x');
            "version"
        }
        5 => {
            flip(&mut b.game_build);
            "game_build"
        }
        6 => {
            flip(&mut b.homepage);
            "homepage"
        }
        7 => {
            let all = [None, Some(SyncMode::None), Some(SyncMode::ServerAndClient), Some(SyncMode::ServerOnly), Some(SyncMode::ClientOnly)];
            b.sync = *r.pick(&all.into_iter().filter(|x| *x != b.sync).collect::<Vec<_>>());
            "sync"
        }
        8 => {
            b.download = match b.download {
                Some(d) if r.bool() => Some(DownloadInfo { url: other(&d.url), ..d }),
                Some(_) => None,
                None => Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: text(r) }),
            };
            "download"
        }
        9 => {
            let keys: Vec<_> = b.dependencies.keys().cloned().collect();
            if keys.is_empty() || r.bool() {
                let n = (0..).map(|i| format!("dep{i}")).find(|n| !b.dependencies.contains_key(n)).unwrap();
                b.dependencies.insert(n, Dependency::new(VersionReq::STAR, None));
            } else {
                let n = r.pick(&keys).clone();
                let d = b.dependencies.get_mut(&n).unwrap();
                match (r.below(4), &mut d.download) {
                    (0, Some(x)) => x.url = other(&x.url),
                    (1, x) => {
                        *x = match x {
                            Some(_) => None,
                            None => Some(DownloadInfo { download_mode: DownloadMode::IndexFile, url: text(r) }),
                        }
                    }
                    (2, _) => {
                        // the same requirement under another name
                        let d = d.clone();
                        b.dependencies.remove(&n);
                        let new = (0..).map(|i| format!("dep{i}")).find(|x| *x != n && !b.dependencies.contains_key(x)).unwrap();
                        b.dependencies.insert(new, d);
                    }
                    _ => d.version = VersionReq::parse("=7.7.7").unwrap(),
                }
            }
            "dependencies"
        }
        10 => {
            let keys: Vec<_> = b.integrator.keys().cloned().collect();
            if keys.is_empty() || r.chance(1, 3) {
                let n = (0..).map(|i| format!("int{i}")).find(|n| !b.integrator.contains_key(n)).unwrap();
                b.integrator.insert(n, value(r, 2));
            } else if keys.len() > 1 && r.chance(1, 3) {
                // two values trade places
                let (x, y) = (b.integrator[&keys[0]].clone(), b.integrator[&keys[1]].clone());
                if x == y {
                    return Ok(o);
                }
                b.integrator.insert(keys[0].clone(), y);
                b.integrator.insert(keys[1].clone(), x);
            } else {
                let v = b.integrator.get_mut(r.pick(&keys)).unwrap();
                *v = match v.take() {
                    Value::Null => json!(false),
                    Value::Array(mut a) => {
                        a.push(Value::Null);
                        Value::Array(a)
                    }
                    Value::Object(mut a) => {
                        a.insert("\u{1}new".into(), Value::Null);
                        Value::Object(a)
                    }
                    x => json!([x]),
                };
            }
            "integrator"
        }
        11 => {
            // the same libraries in another order, or one of another name
            if b.cpp_loader_dlls.is_empty() {
                return Ok(o);
            }
            let (x, y) = (r.below(b.cpp_loader_dlls.len()), r.below(b.cpp_loader_dlls.len()));
            if b.cpp_loader_dlls[x] != b.cpp_loader_dlls[y] {
                b.cpp_loader_dlls.swap(x, y);
            } else {
                b.cpp_loader_dlls[x] = other(&b.cpp_loader_dlls[x]);
            }
            "dlls"
        }
        _ => {
            match b.cpp_loader_dlls.pop() {
                Some(_) if r.bool() => {}
                x => {
                    b.cpp_loader_dlls.extend(x);
                    b.cpp_loader_dlls.push("x".into());
                }
            }
            "dlls"
        }
    };
    let eq = nopanic("panic-eq", || format!("comparing {a:?}"), || (a == b, b == a))?;
    o.ev(2);
    if eq.0 || eq.1 {
        return fail("equal", format!("metadata that differ in {what} compare equal: {a:?} {b:?}"));
    }
    o.class(format!("differ in {what}"));
    o.nontrivial(format!("{a:?}{b:?}").as_bytes());
    Ok(o)
}
/// texts that are not metadata are refused
fn refused(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let schema = *r.pick(&[1, 2]);
    let (mut j, _) = gen(r, schema);
    let wrong = |r: &mut Rng| r.pick(&[json!(3), json!([]), json!({}), json!(true)]).clone();
    let what = match r.below(9) {
        0 => {
            let k = *r.pick(&["name", "mod_id", "version"]);
            if r.bool() {
                j.remove(k);
            } else {
                j.insert(k.into(), Value::Null);
            }
            "missing"
        }
        1 => {
            let k = *r.pick(&["name", "mod_id", "version", "author", "description", "game_build", "homepage", "sync"]);
            j.insert(k.into(), wrong(r));
            "wrong type"
        }
        2 => {
            let s = *r.pick(&[0u64, 3, 4, 255, 1 << 32, u64::MAX]);
            j.insert("schema_version".into(), json!(s));
            "unsupported schema"
        }
        3 => {
            j.insert("schema_version".into(), r.pick(&[json!(-1), json!(1.5), json!("2"), json!([2]), json!(true)]).clone());
            "bad schema"
        }
        4 => {
            j.insert("schema_version".into(), json!(2));
            let bad = *r.pick(&BAD_REQS);
            let mut d = Map::new();
            d.insert("Good".into(), json!("*"));
            d.insert(text(r) + "!", if r.bool() { json!(bad) } else { json!({ "version": bad }) });
            j.insert("dependencies".into(), Value::Object(d));
            "bad requirement"
        }
        5 => {
            j.insert("schema_version".into(), json!(2));
            let v = r.pick(&[json!({"D": 3}), json!({"D": null}), json!({"D": {}}), json!({"D": {"version": 1}}), json!([]), json!({"D": ["*"]}), json!({"D": {"version": "*", "download": {"type": "x", "url": ""}}})]).clone();
            j.insert("dependencies".into(), v);
            "bad dependency"
        }
        6 => {
            j.insert("sync".into(), json!(*r.pick(&["", "Server", "both", "serverclient "])));
            "bad sync"
        }
        7 => {
            j.insert("download".into(), r.pick(&[json!({}), json!({"type": "index_file"}), json!({"url": "x"}), json!({"type": "http", "url": "x"}), json!("x")]).clone());
            "bad download"
        }
        _ => {
            let mut t = print(r, &j);
            while t.last().is_some_and(|b| b.is_ascii_whitespace()) {
                t.pop();
            }
            let n = r.below(t.len());
            t.truncate(n);
            o.ev(1);
            if let Ok(m) = parse(&t)? {
                return fail("truncated", format!("truncated text accepted: {} as {m:?}", String::from_utf8_lossy(&t)));
            }
            o.class("truncated");
            o.nontrivial(&t);
            return Ok(o);
        }
    };
    let t = print(r, &j);
    o.ev(1);
    if let Ok(m) = parse(&t)? {
        return fail(format!("accepted-{what}"), format!("{what} accepted: {} as {m:?}", String::from_utf8_lossy(&t)));
    }
    o.class(what);
    o.nontrivial(&t);
    Ok(o)
}
/// any bytes: a result, and a result that can be used
fn hostile(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let schema = *r.pick(&[1, 2]);
    let (j, _) = gen(r, schema);
    let mut t = print(r, &j);
    for _ in 0..r.range(1, 6) {
        if t.is_empty() {
            break;
        }
        let i = r.below(t.len());
        match r.below(4) {
            0 => t[i] = r.u64() as u8,
            1 => {
                t.remove(i);
            }
            2 => {
                let b = *r.pick(b"{}[]\",:0123456789.-nulltrue\\ ");
                t.insert(i, b);
            }
            _ => {
                let k = r.below(t.len());
                let (a, b) = (i.min(k), i.max(k));
                let s = t[a..b].to_vec();
                let at = r.below(t.len());
                t.splice(at..at, s);
            }
        }
    }
    let m = parse(&t)?;
    if let Ok(m) = &m {
        let c = m.clone();
        let ok = nopanic("panic-eq", || format!("comparing {m:?}"), || *m == c && hash(m) == hash(&c))?;
        if !ok {
            return fail("not-equal", format!("{m:?} does not equal its copy"));
        }
        nopanic("panic-write", || format!("writing {m:?}"), || serde_json::to_vec(m).map(|_| ()))?.ok();
    }
    o.ev(1);
    o.class(if m.is_ok() { "hostile accepted" } else { "hostile refused" });
    o.nontrivial(&t);
    Ok(o)
}
pub fn d01(c: &Ctx) {
    c.rule("Metadata texts of both schemas are generated together with their meaning; a case is distinct by its text.");
    c.assume("JSON numbers with a fraction are multiples of 1/8, so that their decimal form is exact.");
    c.cases("meaning", c.n(150_000, 3_000_000), |r, _| meaning(r));
    c.cases("differ", c.n(100_000, 2_000_000), |r, _| differ(r));
    c.cases("refused", c.n(100_000, 2_000_000), |r, _| refused(r));
    c.cases("hostile", c.n(100_000, 2_000_000), |r, _| hostile(r));
}
