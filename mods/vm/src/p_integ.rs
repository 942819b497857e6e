//! Mod integration: what `integrate_mods` writes, given which mods and game files.
use crate::core::*;
use crate::mini::{self, nm, Pk, P, V};
use crate::pakref::{self, In, Opt};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::fs::File;
use std::io::BufReader;
use std::path::{Path, PathBuf};
use std::sync::{Mutex, OnceLock};
use unreal_asset::engine_version::EngineVersion;
use unreal_mod_integrator::*;
use unreal_pak::{PakMemory, PakReader};

pub type Entries = BTreeMap<String, Vec<u8>>;
/// a folder of its own for one case
pub struct Dir(pub PathBuf);
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
impl Dir {
    pub fn new() -> Dir {
        let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir());
        let d = base.join(format!("c{}-{}", std::process::id(), NEXT.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        Dir(d)
    }
    pub fn sub(&self, n: &str) -> PathBuf {
        let p = self.0.join(n);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
#[derive(Debug)]
pub struct Bad(pub String);
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for Bad {}

/// an archive of any readable version
pub fn archive(r: &mut Rng, e: &[(String, Vec<u8>)]) -> Vec<u8> {
    let v = pakref::ver(*r.pick(&[4, 7, 8, 8, 9, 11]));
    let comp = r.bool();
    let ins: Vec<In> = e.iter().map(|(n, d)| In { name: n.clone(), data: d.clone(), compress: comp && !d.is_empty(), encrypted: false }).collect();
    let op = Opt {
        v,
        block: 0x10000,
        mount: "../../../".into(),
        slot: 0,
        gap: 0,
        legacy_flag: 1,
        index_encrypted: false,
        shuffle_index: r.bool(),
        path_hash_present: r.bool(),
        big_fields: 0,
    };
    pakref::encode(&ins, &op)
}
pub fn read_integrated(p: &Path) -> Result<Entries, String> {
    let b = std::fs::read(p).map_err(|e| e.to_string())?;
    let a = pakref::decode_strict(&b, pakref::ver(8), 0x10000)?;
    let n = a.entries.len();
    let m: Entries = a.entries.into_iter().map(|e| (e.name, e.data)).collect();
    if m.len() != n {
        return Err("an entry is stored twice".into());
    }
    Ok(m)
}
pub fn text(r: &mut Rng) -> String {
    match r.below(5) {
        0 => String::new(),
        1 => "Größe 漢字 😀".chars().take(r.range(1, 11)).collect(),
        2 => "words ".repeat(r.range(1, 90)),
        _ => gen_ident(r),
    }
}
pub fn value(r: &mut Rng, d: usize) -> Value {
    match r.below(if d > 2 { 4 } else { 6 }) {
        0 => json!(r.u64() as i32),
        1 => json!(text(r)),
        2 => json!(r.bool()),
        3 => Value::Null,
        4 => (0..r.below(4)).map(|_| value(r, d + 1)).collect(),
        _ => Value::Object((0..r.below(4)).map(|_| (gen_ident(r), value(r, d + 1))).collect()),
    }
}
const KEYS: &[&str] = &["mission_trailheads", "linked_actor_components", "item_list_entries", "odd key ü", ""];
/// a mod's metadata document
pub fn metadata(r: &mut Rng, id: &str, version: &str) -> Value {
    let mut m = json!({"schema_version": 2, "name": text(r), "mod_id": id, "version": version});
    for k in ["author", "description", "game_build", "homepage"] {
        match r.below(4) {
            0 => {}
            1 => m[k] = Value::Null,
            _ => m[k] = json!(text(r)),
        }
    }
    if r.chance(3, 4) {
        m["sync"] = json!(r.pick(&["none", "client", "server", "serverclient"]));
    }
    if r.chance(2, 3) {
        let mut i = serde_json::Map::new();
        for _ in 0..r.below(4) {
            i.insert(r.pick(KEYS).to_string(), value(r, 0));
        }
        m["integrator"] = Value::Object(i);
    }
    m
}
/// the row a mod has in the list of mods
pub fn row(m: &Value) -> Vec<P> {
    let s = |i: usize, k: &str| mini::p(mini::COLUMNS[i], V::Str(m[k].as_str().unwrap_or("").to_string()));
    let sync = match m["sync"].as_str() {
        Some("none") => 0,
        Some("client") => 1,
        Some("server") => 2,
        _ => 3,
    };
    vec![
        s(0, "name"),
        s(1, "author"),
        s(2, "description"),
        s(3, "version"),
        s(4, "game_build"),
        mini::p(mini::COLUMNS[5], V::Byte(nm("SyncMode"), nm(&format!("SyncMode::NewEnumerator{sync}")))),
        s(6, "homepage"),
        mini::p(mini::COLUMNS[7], V::Bool(true)),
    ]
}
pub struct BakedSrc {
    pub data: &'static [u8],
    pub meta: Value,
    pub file: &'static str,
    pub core: bool,
}
/// mods that come with the tool; `data` has to live forever, so there is one pool
pub fn baked_pool() -> &'static [BakedSrc] {
    static POOL: OnceLock<Vec<BakedSrc>> = OnceLock::new();
    POOL.get_or_init(|| {
        let mut r = Rng::new(77);
        (0..10)
            .map(|i| {
                let id = format!("Baked{i}");
                let meta = metadata(&mut r, &id, "1.2.3");
                let data = archive(&mut r, &[("metadata.json".into(), meta.to_string().into_bytes()), (format!("Astro/Content/B{i}.bin"), vec![i as u8; 300])]);
                BakedSrc { data: Box::leak(data.into_boxed_slice()), meta, file: Box::leak(format!("80{i}-{id}-1.2.3_P.pak").into_boxed_str()), core: i % 3 == 0 }
            })
            .collect()
    })
}
pub fn baked(b: &BakedSrc) -> BakedMod {
    BakedMod { data: b.data, mod_id: b.meta["mod_id"].as_str().unwrap().into(), filename: b.file, priority: 800, is_core: b.core }
}

/// what the handlers saw: name, values, sizes of the archive lists, metadata of the mod archives
#[derive(Default)]
pub struct Rec {
    pub calls: Mutex<Vec<(String, Vec<Value>, usize, Vec<Vec<u8>>)>>,
    pub fail: Option<String>,
}
pub struct Conf<'a> {
    pub rec: &'a Rec,
    pub handlers: Vec<String>,
    pub baked: Vec<usize>,
}
impl<'a> IntegratorConfig<'a, Rec, Bad> for Conf<'a> {
    fn get_data(&self) -> &'a Rec {
        self.rec
    }
    fn get_handlers(&self) -> HashMap<String, Box<HandlerFn<Rec, Bad>>> {
        self.handlers
            .iter()
            .map(|h| {
                let name = h.clone();
                let f = move |rec: &Rec, pak: &mut PakMemory, game: &mut Vec<PakReader<BufReader<File>>>, mods: &mut Vec<PakReader<BufReader<File>>>, v: &Vec<Value>| {
                    let metas = mods.iter_mut().map(|m| m.read_entry(&"metadata.json".to_string()).unwrap_or_default()).collect();
                    rec.calls.lock().unwrap().push((name.clone(), v.clone(), game.len(), metas));
                    if rec.fail.as_ref() == Some(&name) {
                        return Err(Bad("handler refuses".into()));
                    }
                    pak.set_entry(format!("Astro/Content/From/{name}.bin"), Value::from(v.clone()).to_string().into_bytes());
                    Ok(())
                };
                (h.clone(), Box::new(f) as Box<HandlerFn<Rec, Bad>>)
            })
            .collect()
    }
    fn get_baked_mods(&self) -> Vec<IntegratorMod<Bad>> {
        self.baked.iter().map(|i| baked(&baked_pool()[*i]).into()).collect()
    }
    const GAME_NAME: &'static str = "Astro";
    const INTEGRATOR_VERSION: &'static str = "7.8.9-test";
    const ENGINE_VERSION: EngineVersion = EngineVersion::VER_UE4_23;
}
struct Dynamic {
    id: String,
    fail: bool,
    ran: std::sync::Arc<Mutex<Vec<String>>>,
}
impl IntegratorModInfo for Dynamic {
    fn get_mod_id(&self) -> String {
        self.id.clone()
    }
    fn get_priority(&self) -> u32 {
        5
    }
    fn is_core(&self) -> bool {
        false
    }
}
impl DynamicMod<Bad> for Dynamic {
    fn integrate(&self, pak: &mut PakMemory, _: &mut Vec<PakReader<BufReader<File>>>, _: &mut Vec<PakReader<BufReader<File>>>) -> Result<(), Bad> {
        self.ran.lock().unwrap().push(self.id.clone());
        if self.fail {
            return Err(Bad("dynamic refuses".into()));
        }
        pak.set_entry(format!("Astro/Content/Dyn/{}.bin", self.id), self.id.clone().into_bytes());
        Ok(())
    }
}
fn eq<T: PartialEq + std::fmt::Debug>(o: &mut Obs, key: &str, what: &str, got: &T, want: &T) -> Result<(), Fail> {
    o.ev(1);
    if got == want {
        return Ok(());
    }
    fail(key, format!("{what}: got {got:?}, should be {want:?}").chars().take(1500).collect::<String>())
}
pub fn entry<'a>(e: &'a Entries, n: &str) -> Result<&'a Vec<u8>, Fail> {
    e.get(n).map(Ok).unwrap_or_else(|| fail("entry-missing", format!("the integrated archive has no {n}")))
}
pub fn package(e: &Entries, n: &str) -> Result<Pk, Fail> {
    let (a, b) = (entry(e, n)?, n.rsplit_once('.').map(|(s, _)| entry(e, &format!("{s}.uexp"))).unwrap()?);
    mini::decode(a, Some(b)).or_else(|m| fail("package", format!("{n} is not a consistent package: {m}")))
}
/// all but names and bodies as in the starter package
fn same_shell(o: &mut Obs, what: &str, got: &Pk, want: &Pk, skip: usize) -> Result<(), Fail> {
    eq(o, "shell", &format!("{what}: imports"), &got.imports, &want.imports)?;
    eq(o, "shell", &format!("{what}: exports"), &got.exports.len(), &want.exports.len())?;
    for (i, (g, w)) in got.exports.iter().zip(&want.exports).enumerate() {
        let (mut g, mut w) = (g.clone(), w.clone());
        if i == skip {
            g.body = vec![];
            w.body = vec![];
        }
        eq(o, "shell", &format!("{what}: export {i}"), &g, &w)?;
    }
    eq(o, "shell", &format!("{what}: names kept"), &got.names.iter().take(want.names.len()).cloned().collect::<Vec<_>>(), &want.names)
}
/// checks the parts of an integrated archive that every integration writes
pub fn check_base(o: &mut Obs, e: &Entries, mods: &[Value], version: &str, refuse: bool) -> Result<(), Fail> {
    let dir = "Astro/Content/Integrator/";
    let mut start = mini::list_of_mods();
    start.encode();
    let k = package(e, &format!("{dir}ListOfMods.uasset"))?;
    same_shell(o, "ListOfMods", &k, &start, 0)?;
    let t = mini::read_table(&k.exports[0].body, &k.names).or_else(|m| fail("table", format!("list of mods: {m}")))?;
    eq(o, "rows", "number of mods listed", &t.rows.len(), &mods.len())?;
    let mut seen: HashMap<&str, i32> = HashMap::new();
    for ((name, got), m) in t.rows.iter().zip(mods) {
        let id = m["mod_id"].as_str().unwrap();
        let n = seen.entry(id).or_default();
        eq(o, "rows", "row name", name, &(id.to_string(), *n))?;
        *n += 1;
        eq(o, "rows", &format!("row of {id}"), got, &row(m))?;
    }
    let mut start = mini::statics();
    start.encode();
    let k = package(e, &format!("{dir}IntegratorStatics_BP.uasset"))?;
    same_shell(o, "IntegratorStatics_BP", &k, &start, 1)?;
    let (l, rest) = mini::read_object(&k.exports[1].body, &k.names).or_else(|m| fail("table", format!("statics: {m}")))?;
    let want = vec![mini::p("IntegratorVersion", V::Str(version.into())), mini::p("RefuseMismatchedConnections", V::Bool(refuse))];
    eq(o, "statics", "integrator data", &l, &want)?;
    eq(o, "statics", "end of integrator data", &rest, &vec![0; 4])?;
    for n in mini::COPIED {
        for x in ["uasset", "uexp"] {
            if *entry(e, &format!("{dir}{n}.{x}"))? != mini::copied(n, x) {
                return fail("copied", format!("{n}.{x} was changed"));
            }
            o.ev(1);
        }
    }
    let m = std::fs::read("/repo/unreal_mod_integrator/assets/metadata.json").unwrap_or_default();
    if *entry(e, "metadata.json")? != m {
        return fail("copied", "metadata.json of the integrated archive was changed");
    }
    Ok(())
}
pub fn base_entries() -> Vec<String> {
    let mut v = vec!["metadata.json".to_string()];
    for n in mini::COPIED.iter().chain(&["ListOfMods", "IntegratorStatics_BP"]) {
        for x in ["uasset", "uexp"] {
            v.push(format!("Astro/Content/Integrator/{n}.{x}"));
        }
    }
    v
}
fn case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let d = Dir::new();
    let (paks, game, src) = (d.sub("paks"), d.sub("game"), d.sub("mods"));
    // game files
    let mut game_ok = 0;
    let mut broken = None;
    for i in 0..*r.pick(&[0, 1, 1, 2, 3]) {
        let mut b = archive(r, &[(format!("Astro/Content/G{i}.bin"), vec![1; 40])]);
        if r.chance(1, 25) {
            b.truncate(b.len() / 2);
            broken = Some("game archive");
        }
        std::fs::write(game.join(format!("pakchunk{i}.pak")), b).unwrap();
        game_ok += 1;
    }
    for n in ["readme.txt", "pak", "x.pak.bak", "sig.sig"] {
        if r.bool() {
            std::fs::write(game.join(n), b"not an archive").unwrap();
        }
    }
    // mods
    let pool = baked_pool();
    let conf_baked: Vec<usize> = (0..pool.len()).filter(|_| r.chance(1, 4)).collect();
    let ran = std::sync::Arc::new(Mutex::new(vec![]));
    let mut mods: Vec<IntegratorMod<Bad>> = vec![];
    let mut listed: Vec<Value> = vec![];
    let mut dynamics = vec![];
    let mut given: Vec<String> = vec![];
    let mut used_baked: Vec<usize> = vec![];
    for i in 0..*r.pick(&[0, 1, 1, 2, 3, 5]) {
        match r.below(8) {
            0 if !conf_baked.is_empty() => {
                let b = *r.pick(&conf_baked);
                if used_baked.contains(&b) {
                    continue;
                }
                used_baked.push(b);
                mods.push(baked(&pool[b]).into());
                given.push(pool[b].meta["mod_id"].as_str().unwrap().into());
                listed.push(pool[b].meta.clone());
                o.class("mod:baked");
            }
            1 => {
                let id = format!("Dyn{i}");
                let fail = r.chance(1, 12);
                if fail && broken.is_none() {
                    broken = Some("dynamic mod");
                }
                dynamics.push(id.clone());
                given.push(id.clone());
                mods.push(IntegratorMod::Dynamic(Box::new(Dynamic { id, fail, ran: ran.clone() })));
                o.class("mod:dynamic");
            }
            _ => {
                let id = match r.below(6) {
                    0 => format!("Baked{}", r.below(pool.len())),
                    1 => "Same".to_string(),
                    2 => format!("Mod_{i}"),
                    _ => format!("Mod{i}.someone"),
                };
                let version = format!("{}.{}.{}", r.below(3), r.below(30), r.below(4));
                let m = metadata(r, &id, &version);
                let mut text = m.to_string().into_bytes();
                let mut ents = vec![];
                let how = r.below(60);
                if how == 0 {
                    text.truncate(text.len() / 2);
                }
                if how != 1 {
                    ents.push(("metadata.json".to_string(), text));
                }
                ents.push((format!("Astro/Content/M{i}.bin"), r.bytes(90)));
                let mut b = archive(r, &ents);
                if how == 2 {
                    b.truncate(b.len() * 2 / 3);
                }
                let path = src.join(format!("{:03}-{i}_P.pak", r.below(900)));
                if how != 3 {
                    std::fs::write(&path, b).unwrap();
                }
                if how < 4 {
                    broken = Some(["invalid metadata", "no metadata", "damaged mod archive", "missing mod file"][how]);
                }
                given.push(id.clone());
                mods.push(FileMod { path, mod_id: id, priority: 0 }.into());
                listed.push(m);
                o.class("mod:file");
            }
        }
    }
    // mods that come with the tool: the core ones, and those that were asked for by id
    for core in [true, false] {
        for i in &conf_baked {
            let b = &pool[*i];
            if b.core == core && !used_baked.contains(i) && (core || given.iter().any(|g| g == b.meta["mod_id"].as_str().unwrap())) {
                listed.push(b.meta.clone());
                used_baked.push(*i);
            }
        }
    }
    let mut handlers: Vec<String> = KEYS.iter().filter(|_| r.chance(1, 2)).map(|s| s.to_string()).collect();
    if r.bool() {
        handlers.push("nobody_has_this".into());
    }
    let mut rec = Rec::default();
    if !handlers.is_empty() && r.chance(1, 12) {
        rec.fail = Some(r.pick(&handlers).clone());
        broken = broken.or(Some("handler"));
    }
    if game_ok == 0 {
        broken = Some("no game archives");
    }
    let out = paks.join(INTEGRATOR_PAK_FILE_NAME);
    let stale = r.chance(1, 3);
    if stale {
        std::fs::write(&out, b"an older integrator archive, longer than nothing").unwrap();
    }
    let full = broken.is_none() && !mods.is_empty() && r.chance(1, 30);
    if full {
        let _ = std::fs::remove_file(&out);
        std::os::unix::fs::symlink("/dev/full", &out).unwrap();
    }
    let refuse = r.bool();
    let conf = Conf { rec: &rec, handlers: handlers.clone(), baked: conf_baked };
    let got = nopanic("panic", || "integrate_mods".into(), || integrate_mods(&conf, &mods, &paks, &game, refuse))?;
    let what = format!("{} mods, {} listed, broken {broken:?}", mods.len(), listed.len());
    o.sample = Some(what.clone());
    o.nontrivial(format!("{what} {listed:?} {handlers:?} {dynamics:?}").as_bytes());
    let calls = rec.calls.lock().unwrap();
    let needs = !mods.is_empty();
    if full {
        o.class("disk full");
        if got.is_err() {
            return Ok(o);
        }
        if std::fs::symlink_metadata(&out).is_ok_and(|m| m.is_symlink()) {
            return fail("lost-write", "integration reported success although the archive could not be written");
        }
    }
    let lazily = ["game archive", "handler", "dynamic mod"];
    let expect_err = broken.is_some_and(|b| needs || !lazily.contains(&b));
    match (&got, expect_err) {
        (Err(e), false) => return fail("refused", format!("{what}: {e}")),
        (Ok(()), true) => return fail("swallowed", format!("{what}: integration reports success")),
        _ => {}
    }
    if let Err(e) = &got {
        o.class(format!("refused:{}", broken.unwrap()));
        let _ = e;
        o.ev(1);
        let now = std::fs::read(&out).ok();
        return match (stale, now) {
            (true, Some(b)) if b == b"an older integrator archive, longer than nothing" => Ok(o),
            (false, None) => Ok(o),
            _ => fail("partial", format!("{what}: a failed integration wrote an archive")),
        };
    }
    if !needs {
        o.class("nothing to integrate");
        o.ev(1);
        return if out.exists() == stale { Ok(o) } else { fail("unasked", "an archive was written for no mods") };
    }
    // the archive
    let e = read_integrated(&out).or_else(|m| fail("archive", format!("{what}: {m}")))?;
    let mut want = base_entries();
    want.extend(handlers.iter().map(|h| format!("Astro/Content/From/{h}.bin")));
    want.extend(dynamics.iter().map(|h| format!("Astro/Content/Dyn/{h}.bin")));
    want.sort();
    want.dedup();
    eq(&mut o, "entries", "entries of the integrated archive", &e.keys().cloned().collect::<Vec<_>>(), &want)?;
    check_base(&mut o, &e, &listed, Conf::INTEGRATOR_VERSION, refuse)?;
    // handlers: once each, with exactly the data of the mods, in order
    eq(&mut o, "handlers", "dynamic mods run", &*ran.lock().unwrap(), &dynamics)?;
    let mut names: Vec<&String> = calls.iter().map(|c| &c.0).collect();
    names.sort();
    let mut hs: Vec<&String> = handlers.iter().collect();
    hs.sort();
    eq(&mut o, "handlers", "handlers called", &names, &hs)?;
    let metas: Vec<Vec<u8>> = listed.iter().map(|m| m.to_string().into_bytes()).collect();
    for (h, v, games, ms) in calls.iter() {
        let data: Vec<Value> = listed.iter().filter_map(|m| m["integrator"].get(h).cloned()).collect();
        eq(&mut o, "handlers", &format!("data given to {h}"), v, &data)?;
        eq(&mut o, "handlers", "game archives", games, &game_ok)?;
        eq(&mut o, "handlers", "mod archives", ms, &metas)?;
        if *entry(&e, &format!("Astro/Content/From/{h}.bin"))? != Value::from(data).to_string().into_bytes() {
            return fail("handlers", format!("what {h} wrote did not reach the archive"));
        }
    }
    for h in &dynamics {
        if *entry(&e, &format!("Astro/Content/Dyn/{h}.bin"))? != h.as_bytes() {
            return fail("handlers", format!("what {h} wrote did not reach the archive"));
        }
    }
    // the files of the mods that come with the tool lie beside it, and nothing else does
    let mut files: Vec<String> = std::fs::read_dir(&paks).unwrap().map(|f| f.unwrap().file_name().into_string().unwrap()).collect();
    files.sort();
    let mut want: Vec<String> = used_baked.iter().map(|i| pool[*i].file.to_string()).chain([INTEGRATOR_PAK_FILE_NAME.to_string()]).collect();
    want.sort();
    eq(&mut o, "files", "files beside the archive", &files, &want)?;
    for i in used_baked {
        if std::fs::read(paks.join(pool[i].file)).unwrap() != pool[i].data {
            return fail("files", format!("{} differs from the mod that comes with the tool", pool[i].file));
        }
    }
    o.class(format!("integrated:{}", listed.len().min(6)));
    Ok(o)
}
/// which of several packages of one name is found, and writing it back
fn lookup(r: &mut Rng) -> CaseRes {
    use unreal_mod_integrator::helpers::*;
    let mut o = Obs::new();
    let d = Dir::new();
    let name = format!("Astro/Content/{}.{}", r.pick(&["Maps/Base", "A.b/C", "x"]), r.pick(&["uasset", "umap"]));
    let uexp = format!("{}.uexp", name.rsplit_once('.').unwrap().0);
    let mut n = 0;
    // the package with a mark that tells where it came from
    let mut place = |r: &mut Rng, p: usize| -> (Vec<(String, Vec<u8>)>, Option<Pk>) {
        n += 1;
        let mut l = vec![(format!("other{n}"), r.bytes(30))];
        if !r.chance(p, 4) {
            return (l, None);
        }
        let mut k = Pk::new(&format!("place{n}"));
        k.split = r.chance(3, 4);
        let pack = k.import("/Script/CoreUObject", "Package", 0, "/Script/Engine");
        let class = k.import("/Script/CoreUObject", "Class", pack, "Actor");
        let body = k.object(&[mini::p("Mark", V::Int(n)), mini::p("Text", V::Str(text(r)))]);
        let deps = if k.split { [vec![], vec![class], vec![], vec![]] } else { Default::default() };
        k.exports.push(mini::Ex { class, name: nm("Thing"), body, deps, ..Default::default() });
        let (a, b) = k.encode();
        l.push((name.clone(), a));
        l.extend(b.map(|b| (uexp.clone(), b)));
        (l, Some(k))
    };
    let open = |r: &mut Rng, l: &[(String, Vec<u8>)], f: String| {
        let p = d.0.join(f);
        std::fs::write(&p, archive(r, l)).unwrap();
        let mut k = PakReader::new(BufReader::new(File::open(p).unwrap()));
        k.load_index().unwrap();
        k
    };
    let (mut first, mut mods, mut games) = (None, vec![], vec![]);
    let mut made = PakMemory::new(unreal_pak::pakversion::PakVersion::FnameBasedCompressionMethod);
    let (l, k) = place(r, 1);
    for (n, b) in l {
        made.set_entry(n, b);
    }
    let mut from = k.is_some().then_some("integrated");
    first = first.or(k);
    for i in 0..r.below(4) {
        let (l, k) = place(r, 1);
        mods.push(open(r, &l, format!("m{i}.pak")));
        if first.is_none() && k.is_some() {
            from = Some("mod");
        }
        first = first.or(k);
    }
    for i in 0..r.range(1, 4) {
        let (l, k) = place(r, 2);
        games.push(open(r, &l, format!("g{i}.pak")));
        if first.is_none() && k.is_some() {
            from = Some("game");
        }
        first = first.or(k);
    }
    let got = nopanic("panic", || "get_asset".into(), || get_asset(&made, &mut games, &mut mods, &name, EngineVersion::VER_UE4_23))?;
    o.class(format!("found in: {}", from.unwrap_or("nothing")));
    o.nontrivial(format!("{from:?} {first:?} {}", mods.len()).as_bytes());
    let (a, want) = match (got, first) {
        (Err(_), None) => {
            o.ev(1);
            return Ok(o);
        }
        (Ok(a), Some(k)) => (a, k),
        (Ok(_), None) => return fail("lookup", "a package was found that no archive has"),
        (Err(e), Some(_)) => return fail("lookup", format!("{name} in {from:?} was not found: {e}")),
    };
    let mut out = PakMemory::new(unreal_pak::pakversion::PakVersion::FnameBasedCompressionMethod);
    if let Err(e) = write_asset(&mut out, &a, &name) {
        return fail("lookup", format!("{name} cannot be written: {e}"));
    }
    let mut k = want;
    let (wa, wb) = k.encode();
    let wrote: Entries = out.get_entry_names().iter().map(|n| (n.to_string(), out.get_entry(n).unwrap().clone())).collect();
    let mut exp = Entries::from([(name.clone(), wa)]);
    exp.extend(wb.map(|b| (uexp.clone(), b)));
    eq(&mut o, "lookup", &format!("package of {name} from {from:?}, written again"), &wrote, &exp)?;
    Ok(o)
}
pub fn i01(ctx: &Ctx) {
    ctx.rule("random game folders, mod files (valid and broken), mods that come with the tool, dynamic mods and handlers are integrated into a scratch folder; the archive is decoded by the independent pak and package decoders; non-trivial = distinct mix of mods and faults");
    ctx.assume("the starter packages, which the repository downloads at build time, are stand-ins with the same structure");
    ctx.cases("integrate", ctx.n(40000, 800000), |r, _| case(r));
    ctx.cases("lookup", ctx.n(20000, 400000), |r, _| lookup(r));
}
