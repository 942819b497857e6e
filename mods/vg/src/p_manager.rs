//! Histories of the mod manager: imports, removals, selections, integrations and restarts
//! over a folder of mods and a server of index files, some of them broken.
use crate::core::*;
use crate::mini::{self, V};
use crate::p_graph::Req;
use crate::p_integ::*;
use crate::web::{Resp, Site};
use semver::Version;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, OnceLock};
use unreal_mod_integrator::INTEGRATOR_PAK_FILE_NAME;
use unreal_mod_manager::config::{GameConfig, IconData, InstallManager};
use unreal_mod_manager::error::{ModLoaderError, ModLoaderWarning};
use unreal_mod_manager::hook::{Select, Session, Snap};
use unreal_mod_manager::update_info::UpdateInfo;
use unreal_mod_manager::version::GameBuild;

pub type Tree = BTreeMap<String, Vec<u8>>;
#[derive(Debug, Clone)]
pub struct Mgr {
    pub install: Option<PathBuf>,
    pub paks: Option<PathBuf>,
}
impl InstallManager for Mgr {
    fn get_game_install_path(&self) -> Option<PathBuf> {
        self.install.clone()
    }
    fn get_paks_path(&self) -> Option<PathBuf> {
        self.paks.clone()
    }
    fn get_game_build(&self) -> Option<GameBuild> {
        None
    }
    fn launch_game(&self) -> Result<(), ModLoaderWarning> {
        Ok(())
    }
}
fn rec() -> &'static Rec {
    static R: OnceLock<Rec> = OnceLock::new();
    R.get_or_init(Rec::default)
}
pub struct Game {
    conf: Conf<'static>,
    mgrs: Vec<(&'static str, Mgr)>,
}
impl Game {
    pub fn new(baked: Vec<usize>, mgrs: Vec<(&'static str, Mgr)>) -> Game {
        Game { conf: Conf { rec: rec(), handlers: vec![], baked }, mgrs }
    }
}
impl GameConfig<'static, Conf<'static>, Rec, Bad> for Game {
    fn get_integrator_config(&self) -> &Conf<'static> {
        &self.conf
    }
    fn get_game_build(&self, _: &Path) -> Option<GameBuild> {
        None
    }
    fn get_install_managers(&self) -> BTreeMap<&'static str, Box<dyn InstallManager>> {
        self.mgrs.iter().map(|(n, m)| (*n, Box::new(m.clone()) as Box<dyn InstallManager>)).collect()
    }
    fn get_newer_update(&self) -> Result<Option<UpdateInfo>, ModLoaderError> {
        Ok(None)
    }
    fn update_modloader(&self, _: Box<dyn Fn(f32)>) -> Result<(), ModLoaderError> {
        Ok(())
    }
    fn get_icon(&self) -> Option<IconData> {
        None
    }
    const WINDOW_TITLE: &'static str = "monitor";
    const CONFIG_DIR: &'static str = "monitor";
    const CRATE_VERSION: &'static str = "0.0.0";
    const ABOUT_TEXT: &'static str = "";
}
pub fn run_guarded(f: Box<dyn FnOnce() + Send>) -> Result<(), String> {
    guard(f)
}
/// all files below a folder, by relative path
pub fn tree(p: &Path) -> Tree {
    fn walk(p: &Path, pre: String, t: &mut Tree) {
        let Ok(d) = std::fs::read_dir(p) else { return };
        for e in d.flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            match e.file_type() {
                Ok(k) if k.is_dir() => walk(&e.path(), format!("{n}/"), t),
                _ => {
                    t.insert(n, std::fs::read(e.path()).unwrap_or_default());
                }
            }
        }
    }
    let mut t = Tree::new();
    walk(p, String::new(), &mut t);
    t
}
fn sha(b: &[u8]) -> Vec<u8> {
    Sha256::digest(b).to_vec()
}

struct ModVer {
    file: String,
    bytes: Arc<Vec<u8>>,
    meta: Value,
    deps: Vec<(String, Req)>,
    dlls: bool,
}
struct ModSrc {
    id: String,
    prio: usize,
    versions: BTreeMap<Version, ModVer>,
    /// versions its index lists, when the server has a healthy one
    index: BTreeSet<Version>,
    links: bool,
    latest: Version,
    /// the index or a file of it is broken
    broken: bool,
    /// the index itself is missing, or something in it is invalid
    bad_index: bool,
}
pub struct World {
    pub dir: Dir,
    site: Site,
    mods: Vec<ModSrc>,
    pub baked: Vec<usize>,
    pub platforms: Vec<(&'static str, Mgr)>,
    faults: bool,
    game_ok: bool,
    /// text of everything generated, for counting distinct cases
    text: String,
}
impl World {
    pub fn mods_dir(&self) -> PathBuf {
        self.dir.0.join("local/Astro/Saved/Mods")
    }
    fn game(&self) -> Game {
        Game::new(self.baked.clone(), self.platforms.clone())
    }
    pub fn start(&self) -> Result<Session, Fail> {
        Session::start(self.game(), self.dir.0.join("local"), run_guarded).or_else(|m| fail("panic", format!("starting: {m}")))
    }
    pub fn all(&self) -> Vec<(&str, &Version, String, &[u8])> {
        self.mods.iter().flat_map(|m| m.versions.iter().map(|(v, x)| (m.id.as_str(), v, x.file.clone(), &x.bytes[..]))).collect()
    }
    pub fn platform_names(&self) -> Vec<&str> {
        self.platforms.iter().map(|p| p.0).collect()
    }
    pub fn text(&self) -> &str {
        &self.text
    }
    fn m(&self, id: &str) -> Option<&ModSrc> {
        self.mods.iter().find(|m| m.id == id)
    }
    fn by_file(&self, f: &str) -> Option<(&ModSrc, &Version, &ModVer)> {
        self.mods.iter().find_map(|m| m.versions.iter().find(|v| v.1.file == f).map(|(v, x)| (m, v, x)))
    }
    fn requirement_ok(&self, id: &str, v: &Version, q: &Req) -> bool {
        let _ = id;
        q.ok(v)
    }
}
/// what a case is about
#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Settings,
    Folder,
    Install,
    Trust,
}
pub const IDS: &[&str] = &["Alpha", "Beta.someone", "Gamma2", "D", "Epsilon.x.y", "Zeta"];
pub fn world(r: &mut Rng, focus: Focus, o: &mut Obs) -> World {
    let dir = Dir::new();
    let site = Site::new();
    let faults = match focus {
        Focus::Folder => r.chance(1, 2),
        Focus::Install => r.chance(1, 4),
        _ => r.chance(1, 10),
    };
    let baked: Vec<usize> = (0..10).filter(|_| r.chance(1, 5)).collect();
    let n = r.range(1, IDS.len());
    let ids = &IDS[..n];
    let same_deps = r.chance(3, 4);
    let mut mods = vec![];
    let loops = r.chance(1, 3);
    let dep_rate = *r.pick(&[0, 1, 2]);
    for (i, id) in ids.iter().enumerate() {
        let links = r.chance(2, 3);
        let deps = |r: &mut Rng| {
            let mut d = vec![];
            for (j, x) in ids.iter().enumerate() {
                if j != i && (j < i || loops) && r.chance(dep_rate, 4) {
                    let easy = r.chance(2, 3);
                    let q = if easy { Req::any() } else { Req::gen(r) };
                    d.push((x.to_string(), q));
                }
            }
            if r.chance(1, 6) {
                let q = if r.bool() { Req::any() } else { Req::gen(r) };
                d.push((format!("Baked{}", r.below(10)), q));
            }
            d
        };
        let all = deps(r);
        let mut versions = BTreeMap::new();
        for _ in 0..r.range(1, 3) {
            let v = Version::new(r.below(3) as u64, r.below(3) as u64, *r.pick(&[0, 1, 12]));
            let deps = if same_deps { all.clone() } else { deps(r) };
            let file = format!("{:03}-{id}-{v}_P.pak", 100 + i);
            let mut meta = metadata(r, id, &v.to_string());
            if r.chance(1, 2) {
                meta["name"] = json!(format!("{id} {v}"));
            }
            if links {
                meta["download"] = json!({"type": "index_file", "url": site.url(&format!("i/{id}"))});
            }
            let mut dj = serde_json::Map::new();
            for (x, q) in &deps {
                // a link now and then; some dependencies have none
                let link = !x.starts_with("Baked") && r.chance(5, 6);
                dj.insert(x.clone(), match (link, r.bool()) {
                    (true, _) => json!({"version": q.text, "download": {"type": "index_file", "url": site.url(&format!("i/{x}"))}}),
                    (_, true) => json!({"version": q.text}),
                    _ => json!(q.text),
                });
            }
            meta["dependencies"] = Value::Object(dj);
            let dlls = r.chance(1, if focus == Focus::Trust { 2 } else { 6 });
            if dlls {
                meta["cpp_loader_dlls"] = json!(["/Game/Native/x.dll"]);
            }
            meta["integrator"] = json!({});
            let n = r.below(200);
            let mut ents = vec![("metadata.json".to_string(), meta.to_string().into_bytes()), (format!("Astro/Content/{id}.bin"), r.bytes(n))];
            if dlls {
                ents.push(("Astro/Content/Native/x.dll".into(), vec![7; 20]));
            }
            let bytes = Arc::new(archive(r, &ents));
            versions.insert(v, ModVer { file, bytes, meta, deps, dlls });
        }
        // the server may hold a version back
        let latest = if r.chance(1, 5) { let i = r.below(versions.len()); versions.keys().nth(i).unwrap().clone() } else { versions.keys().max().unwrap().clone() };
        mods.push(ModSrc { id: id.to_string(), prio: 100 + i, versions, index: BTreeSet::new(), links, latest, broken: false, bad_index: false });
    }
    // what the server has
    for m in &mut mods {
        let mut vs = serde_json::Map::new();
        for (v, x) in &m.versions {
            if v != &m.latest && r.chance(1, 4) {
                continue;
            }
            vs.insert(v.to_string(), json!({"download_url": site.url(&format!("f/{}", x.file)), "filename": x.file}));
            m.index.insert(v.clone());
            let mut resp = Resp { status: 200, body: x.bytes.clone(), cut: None };
            if faults && r.chance(1, 4) {
                m.broken = true;
                let how = r.below(5);
                o.class(["file missing", "file cut short", "file damaged", "another mod's file", "error page"][how]);
                match how {
                    0 => resp.status = 404,
                    1 => resp.cut = Some(r.below(x.bytes.len())),
                    2 => {
                        let n = r.below(x.bytes.len().saturating_sub(256).max(1));
                        resp.body = Arc::new(x.bytes[..n].to_vec());
                    }
                    3 => {
                        let mut b = x.meta.clone();
                        b["mod_id"] = json!("Other");
                        if r.bool() {
                            b["mod_id"] = json!(IDS[r.below(IDS.len())]);
                            b["version"] = json!("9.9.9");
                        }
                        resp.body = Arc::new(archive(r, &[("metadata.json".into(), b.to_string().into_bytes())]));
                    }
                    _ => resp.body = Arc::new(b"<html>come back later</html>".to_vec()),
                }
            }
            site.put(&format!("f/{}", x.file), resp);
        }
        let mut latest = json!(m.latest.to_string());
        let mut resp = Resp { status: 200, body: Arc::new(vec![]), cut: None };
        let mut id = m.id.clone();
        let mut garbage = None;
        if faults && r.chance(1, 3) {
            m.broken = true;
            m.bad_index = true;
            let how = r.below(9);
            o.class(["index missing", "index cut short", "index without the mod", "bad version", "bad latest version", "latest not listed", "bad file name", "index not json", "index of odd bytes"][how]);
            match how {
                0 => resp.status = *r.pick(&[404, 500, 403]),
                1 => resp.cut = Some(r.below(30)),
                2 => id = "SomebodyElse".into(),
                3 => {
                    vs.insert(r.pick(&["1", "", "01.2.3", "x.y.z", "1.2.3.4"]).to_string(), json!({"download_url": site.url("f/none"), "filename": "x"}));
                }
                4 => latest = r.pick(&[json!("latest"), json!(3), json!(""), Value::Null]).clone(),
                5 => latest = json!("7.7.7"),
                6 => {
                    let evil = r.pick(&["../../evil_P.pak", "/tmp/evil_P.pak", "evil", "", "100-evil-1.0.0_P.pak", "900-ModIntegrator_P.pak", "../100-Alpha-9.0.0_P.pak", "modconfig.json", "100-Alpha-9.0.0_P.pak"]).to_string();
                    let x = m.versions.values().next().unwrap();
                    vs.insert("9.0.0".into(), json!({"download_url": site.url(&format!("f/{}", x.file)), "filename": &evil}));
                    m.bad_index = !(m.id == "Alpha" && m.prio == 100 && evil == "100-Alpha-9.0.0_P.pak");
                    if r.bool() {
                        latest = json!("9.0.0");
                    }
                }
                7 => garbage = Some(b"[1,2".to_vec()),
                _ => garbage = Some(r.bytes(40)),
            }
        }
        let doc = json!({"mods": {id: {"latest_version": latest, "versions": vs}}});
        resp.body = Arc::new(garbage.unwrap_or(doc.to_string().into_bytes()));
        if !r.chance(1, 12) {
            site.put(&format!("i/{}", m.id), resp);
        } else {
            m.broken = true;
            m.bad_index = true;
        }
    }
    // the game
    let game_ok = !r.chance(1, 25);
    let mut platforms = vec![];
    for (i, name) in ["Steam", "Other"].iter().enumerate() {
        if i == 0 && r.chance(1, 8) {
            continue;
        }
        let install = dir.sub(&format!("game{i}"));
        let p = install.join("Astro/Content/Paks");
        std::fs::create_dir_all(&p).unwrap();
        if game_ok {
            std::fs::write(p.join("base.pak"), archive(r, &[("Astro/Content/x.bin".into(), vec![4; 30])])).unwrap();
        }
        let paks = dir.0.join(format!("paks{i}/Saved/Paks"));
        let lost = r.chance(1, 15);
        platforms.push((*name, Mgr { install: (!lost || r.bool()).then_some(install), paks: (!lost || r.bool()).then_some(paks) }));
    }
    let text = mods.iter().map(|m| format!("{} {:?} {:?}", m.id, m.versions.iter().map(|v| (v.0, &v.1.deps, v.1.dlls)).collect::<Vec<_>>(), m.index)).collect();
    std::fs::create_dir_all(dir.0.join("local/Astro/Saved/Mods")).unwrap();
    World { dir, site, mods, baked, platforms, faults, game_ok, text }
}
/// files that are no mods, with names like those of mods
fn junk(r: &mut Rng, w: &World) -> (String, Vec<u8>) {
    let m = r.pick(&w.mods);
    let (_, x) = m.versions.iter().next().unwrap();
    match r.below(10) {
        7 => {
            let mut b = x.meta.clone();
            b["version"] = json!("4.0.0");
            (format!("{}-{}-4.0.0_P.pak", r.pick(&["١٠٠", "1٠0", "１００"]), m.id), archive(r, &[("metadata.json".into(), b.to_string().into_bytes())]))
        }
        0 => (r.pick(&["notes_P.pak", "x.pak", "100-lower-1.0.0_P.pak", "1-Alpha-1.0.0_P.pak", "100-Alpha-1_P.pak", "100-Alpha-1.0.0.pak", "100-Alpha-1a0b0_P.pak", "100-Alpha-01.0.0_P.pak"]).to_string(), x.bytes.to_vec()),
        8 => {
            // the right archive under a name that is almost that of a mod
            let id = r.pick(&["Al-pha", "Al_pha", "Al pha", "Älpha", "-Alpha"]).to_string();
            let mut b = x.meta.clone();
            b["mod_id"] = json!(id);
            b["version"] = json!("1.0.0");
            (format!("100-{id}-1.0.0_P.pak"), archive(r, &[("metadata.json".into(), b.to_string().into_bytes())]))
        }
        9 => (r.pick(&[format!("0{}", x.file), format!("x{}", x.file), format!("{}.bak", x.file), format!("{} ", x.file), x.file.replace("_P", "_p"), x.file.replace(".pak", ".PAK"), x.file[1..].to_string(), x.file.replacen('-', "--", 1)]).clone(), x.bytes.to_vec()),
        1 => (format!("{:03}-{}-5.5.5_P.pak", m.prio, m.id), x.bytes.to_vec()),
        2 => (format!("{:03}-{}-5.5.6_P.pak", m.prio, m.id), r.bytes(30)),
        3 => (format!("{:03}-Somebody-1.0.0_P.pak", m.prio), x.bytes.to_vec()),
        4 => (format!("{:03}-{}-5.5.7_P.pak", m.prio, m.id), archive(r, &[("other.txt".into(), vec![1])])),
        5 => {
            // metadata that names what the file name pattern almost allows
            let v = *r.pick(&["1a0b0", "01.0.0", "4.0.0", "99999999999999999999.0.0"]);
            let mut b = x.meta.clone();
            b["version"] = json!(v);
            (format!("100-{}-{v}_P{}pak", m.id, if v == "4.0.0" { "x" } else { "." }), archive(r, &[("metadata.json".into(), b.to_string().into_bytes())]))
        }
        _ => (x.file.clone(), x.bytes[..r.below(x.bytes.len().saturating_sub(256).max(1))].to_vec()), // a short cut can leave the footer of another layout
    }
}
pub fn valid_here(w: &World, name: &str, b: &[u8]) -> bool {
    w.by_file(name).is_some_and(|x| **x.2.bytes == *b)
}
struct Run<'a> {
    w: &'a World,
    focus: Focus,
    s: Option<Session>,
    log: Vec<String>,
    /// files the user took away behind the manager's back
    lost: bool,
    snap: Snap,
    mods: Tree,
    outside: Tree,
}
fn f<T>(key: &str, log: &[String], m: String) -> Result<T, Fail> {
    let l = log.join("; ");
    fail(key, format!("{m} [after: {l}]").chars().take(2000).collect::<String>())
}
impl<'a> Run<'a> {
    fn s(&mut self) -> &mut Session {
        self.s.as_mut().unwrap()
    }
    /// files of the case that are neither in the mods folder nor in a folder for installed mods
    fn outside(w: &World) -> Tree {
        let mut t = tree(&w.dir.0);
        t.retain(|n, _| !n.starts_with("local/Astro/Saved/Mods/") && !n.starts_with("paks") && !n.starts_with("src/"));
        t
    }
    fn mods_now(&self) -> Tree {
        let mut t = tree(&self.w.mods_dir());
        t.remove("modconfig.json");
        t
    }
    /// checks what holds after every step, and moves on
    fn step(&mut self, o: &mut Obs) -> Result<(Snap, Tree), Fail> {
        let snap = self.s().snap();
        let now = self.mods_now();
        let out = Run::outside(self.w);
        o.ev(3);
        if self.focus == Focus::Folder && out != self.outside {
            let d: Vec<&String> = out.keys().filter(|k| self.outside.get(*k) != out.get(*k)).chain(self.outside.keys().filter(|k| !out.contains_key(*k))).collect();
            return f("outside", &self.log, format!("files outside the folders of the manager changed: {d:?}"));
        }
        if self.focus == Focus::Folder || self.focus == Focus::Install {
            for (id, m) in &snap.mods {
                o.ev(1);
                match &m.selected {
                    Some(v) if m.versions.contains_key(v) => {}
                    v => return f("selected", &self.log, format!("{id}: selected version {v:?} is not one of {:?}", m.versions.keys().collect::<Vec<_>>())),
                }
                for (v, x) in &m.versions {
                    if x.downloaded && !self.lost && now.get(&x.file).is_none() {
                        return f("ghost", &self.log, format!("{id} {v} counts as downloaded but {} is not there", x.file));
                    }
                    if x.downloaded && self.w.by_file(&x.file).map(|y| (y.0.id.as_str(), y.1)) != Some((id.as_str(), v)) {
                        return f("ghost", &self.log, format!("{id} {v} is listed with the file {}", x.file));
                    }
                    if x.file.contains('/') || x.file.contains("..") {
                        return f("ghost", &self.log, format!("{id} {v} is listed with the file {}", x.file));
                    }
                }
            }
        }
        let old = (std::mem::replace(&mut self.snap, snap), std::mem::replace(&mut self.mods, now));
        Ok(old)
    }
    fn unchanged(&self, what: &str, old: &Tree, but: &[String]) -> Result<(), Fail> {
        if self.focus != Focus::Folder {
            return Ok(());
        }
        for k in old.keys().chain(self.mods.keys()) {
            if !but.contains(k) && old.get(k) != self.mods.get(k) {
                let say = |b: Option<&Vec<u8>>| b.map_or("absent".into(), |b| format!("{} bytes", b.len()));
                return f("folder", &self.log, format!("{what}: {k} was {}, now {}", say(old.get(k)), say(self.mods.get(k))));
            }
        }
        Ok(())
    }
    fn import(&mut self, r: &mut Rng, o: &mut Obs) -> Result<(), Fail> {
        let src = self.w.dir.sub("src");
        let mut files: Vec<(String, Vec<u8>, PathBuf)> = vec![];
        for _ in 0..r.range(1, 3) {
            let (n, b) = match r.below(8) {
                0 | 1 if self.focus == Focus::Folder => junk(r, self.w),
                _ => {
                    let m = r.pick(&self.w.mods);
                    let i = r.below(m.versions.len());
                    let (_, x) = m.versions.iter().nth(i).unwrap();
                    (x.file.clone(), x.bytes.to_vec())
                }
            };
            if files.iter().any(|x| x.0 == n) {
                continue;
            }
            let mut p = src.join(&n);
            let mut b = b;
            if self.mods.contains_key(&n) && r.chance(1, 3) {
                p = self.w.mods_dir().join(&n);
                b = self.mods[&n].clone();
                o.class("import from the mods folder");
            } else {
                std::fs::write(&p, &b).unwrap();
            }
            files.push((n, b, p));
        }
        if self.focus == Focus::Folder && r.chance(1, 15) {
            files.push(("nothing_P.pak".into(), vec![], src.join("nothing_P.pak")));
        }
        if self.focus == Focus::Folder && r.chance(1, 15) {
            use std::os::unix::ffi::OsStrExt;
            let m = r.pick(&self.w.mods);
            let mut n = m.versions.values().next().unwrap().file.clone().into_bytes();
            n[5] = 0xff;
            let p = src.join(std::ffi::OsStr::from_bytes(&n));
            let b = m.versions.values().next().unwrap().bytes.to_vec();
            std::fs::write(&p, &b).unwrap();
            files.push((String::from_utf8_lossy(&n).into_owned(), b, p));
            o.class("import:name is no text");
        }
        self.log.push(format!("import {:?}", files.iter().map(|x| &x.0).collect::<Vec<_>>()));
        self.s().clear_warnings();
        let paths = files.iter().map(|x| x.2.clone()).collect();
        if let Err(m) = self.s().import(paths) {
            return f("panic", &self.log, m);
        }
        let old = self.step(o)?;
        let names: Vec<String> = files.iter().map(|x| x.0.clone()).collect();
        self.unchanged("import of other files", &old.1, &names)?;
        for (n, b, p) in &files {
            o.ev(1);
            let inside = p.starts_with(self.w.mods_dir());
            if valid_here(self.w, n, b) {
                o.class("import:good");
                let (m, v, _) = self.w.by_file(n).unwrap();
                if self.mods.get(n) != Some(b) {
                    return f("import", &self.log, format!("{n} is a mod but did not arrive in the mods folder"));
                }
                let Some(x) = self.snap.mods.get(&m.id) else { return f("import", &self.log, format!("{n}: {} is not listed", m.id)) };
                match x.versions.get(v) {
                    Some(y) if y.downloaded && y.file == *n && y.metadata => {}
                    y => return f("import", &self.log, format!("{} {v} is listed as {y:?}", m.id)),
                }
                if m.links && m.bad_index && self.focus == Focus::Folder {
                    o.ev(1);
                    o.class("import with a bad index file");
                    if self.snap.warnings.is_empty() {
                        return f("unreported", &self.log, format!("the index file of {} is missing or has invalid entries, but nothing is reported", m.id));
                    }
                }
                let was = old.0.mods.get(&m.id);
                if x.enabled != was.map_or(true, |x| x.enabled) {
                    return f("import", &self.log, format!("{} is enabled: {}, before: {:?}", m.id, x.enabled, was.map(|x| x.enabled)));
                }
            } else {
                o.class("import:bad");
                if self.snap.warnings.is_empty() {
                    return f("import", &self.log, format!("{n} is no mod, but nothing is reported"));
                }
                let (now, was) = (self.mods.get(n), old.1.get(n));
                if now != was && self.focus == Focus::Folder && !(inside && now.is_none()) {
                    return f("folder", &self.log, format!("{n} is no mod: before {:?} bytes, after {:?}", was.map(|b| b.len()), now.map(|b| b.len())));
                }
            }
        }
        for (id, m) in old.0.mods.iter().filter(|m| m.1.pinned) {
            o.ev(1);
            if self.snap.mods.get(id).map(|n| (n.pinned, &n.selected)) != Some((true, &m.selected)) {
                return f("pinned", &self.log, format!("{id} was pinned at {:?}, now {:?}", m.selected, self.snap.mods.get(id)));
            }
        }
        self.latest(o)
    }
    /// without a pin, the newest version is selected, or the one the index names
    fn latest(&self, o: &mut Obs) -> Result<(), Fail> {
        for (id, m) in &self.snap.mods {
            let Some(src) = self.w.m(id) else { continue };
            if m.pinned || src.broken {
                continue;
            }
            o.ev(1);
            let want = if src.links { src.latest.clone() } else { m.versions.keys().max().unwrap().clone() };
            if m.selected.as_ref() != Some(&want) {
                return f("latest", &self.log, format!("{id} follows the latest version {want}, selected is {:?}", m.selected));
            }
            if src.links {
                // all that the index lists is offered
                for v in &src.index {
                    if !m.versions.contains_key(v) {
                        return f("latest", &self.log, format!("{id}: version {v} of the index is not offered"));
                    }
                }
            }
        }
        Ok(())
    }
    fn remove(&mut self, r: &mut Rng, o: &mut Obs) -> Result<(), Fail> {
        let Some(id) = self.some_mod(r) else { return Ok(()) };
        self.log.push(format!("remove {id}"));
        self.s().clear_warnings();
        if let Err(m) = self.s().remove(&id) {
            return f("panic", &self.log, m);
        }
        let old = self.step(o)?;
        let gone: Vec<String> = old.0.mods[&id].versions.values().filter(|x| x.downloaded).map(|x| x.file.clone()).collect();
        o.class("remove");
        self.unchanged("removal of a mod", &old.1, &gone)?;
        if let Some(g) = gone.iter().find(|g| self.mods.contains_key(*g)) {
            return f("remove", &self.log, format!("{g} is still there"));
        }
        if self.snap.mods.contains_key(&id) {
            return f("remove", &self.log, format!("{id} is still listed"));
        }
        Ok(())
    }
    fn some_mod(&self, r: &mut Rng) -> Option<String> {
        let l: Vec<&String> = self.snap.mods.keys().collect();
        (!l.is_empty()).then(|| l[r.below(l.len())].clone())
    }
    fn choose(&mut self, r: &mut Rng, o: &mut Obs) -> Result<(), Fail> {
        let Some(id) = self.some_mod(r) else { return Ok(()) };
        let vs: Vec<Version> = self.snap.mods[&id].versions.keys().cloned().collect();
        match r.below(4) {
            0 => {
                self.log.push(format!("select latest {id}"));
                self.s().select(&id, &Select::Latest);
            }
            1 => {
                let v = r.pick(&vs).clone();
                self.log.push(format!("select {id} {v}"));
                self.s().select(&id, &Select::Exact(v));
            }
            n => {
                self.log.push(format!("enable {id} {}", n == 2));
                self.s().enable(&id, n == 2);
            }
        }
        self.snap = self.s().snap();
        let _ = o;
        Ok(())
    }
    fn here(&self) -> Option<Mgr> {
        let p = self.snap.platform.as_ref()?;
        self.w.platforms.iter().find(|x| x.0 == p).map(|x| x.1.clone())
    }
    fn integrate(&mut self, _r: &mut Rng, o: &mut Obs) -> Result<(), Fail> {
        self.log.push("integrate".into());
        self.s().clear_warnings();
        let before = self.snap.clone();
        let at = self.here();
        let old_paks = at.as_ref().and_then(|m| m.paks.clone()).map(|p| tree(&p));
        if let Err(m) = self.s().integrate() {
            return f("panic", &self.log, m);
        }
        let old = self.step(o)?;
        o.ev(1);
        if self.s().working() {
            return f("working", &self.log, "the manager still says it is working".into());
        }
        // the mods folder: nothing lost or damaged, and only whole mods were added
        if self.focus == Focus::Folder {
            for (k, b) in &old.1 {
                if self.mods.get(k) != Some(b) && !self.mods.get(k).is_some_and(|n| valid_here(self.w, k, n)) {
                    return f("folder", &self.log, format!("integrating changed {k} from {} bytes to {:?}", b.len(), self.mods.get(k).map(|b| b.len())));
                }
            }
            for (k, b) in &self.mods {
                if !old.1.contains_key(k) && !valid_here(self.w, k, b) {
                    return f("folder", &self.log, format!("integrating left {k} ({} bytes), which is no mod that the server has", b.len()));
                }
                o.ev(1);
            }
        }
        let Some(Mgr { install: Some(_), paks: Some(paks) }) = at else {
            o.class("integrate:no game");
            return Ok(());
        };
        let now = tree(&paks);
        if !before.mods.values().any(|m| m.enabled) {
            o.class("integrate:nothing");
            if !now.is_empty() {
                return f("installed", &self.log, format!("no mod is enabled, but {:?} are installed", now.keys().collect::<Vec<_>>()));
            }
            return Ok(());
        }
        let _ = old_paks;
        let excused = self.w.faults || self.lost || !self.w.game_ok || self.w.mods.iter().any(|m| m.broken);
        if self.snap.failed {
            o.class("integrate:failed");
            if self.snap.warnings.is_empty() {
                return f("silent", &self.log, "integration failed without a report".into());
            }
            if !excused {
                return f("refused", &self.log, format!("integration failed: {:?}", self.snap.warnings));
            }
            return Ok(());
        }
        if !self.w.game_ok {
            return f("swallowed", &self.log, "there is no game, but integration succeeded".into());
        }
        o.class(format!("integrate:{}", self.snap.mods.values().filter(|m| m.enabled).count().min(5)));
        // what is enabled is installed, byte for byte, and nothing else
        let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut listed: Vec<(String, String)> = vec![];
        let mut have: BTreeMap<String, Version> = BTreeMap::new();
        for (id, m) in self.snap.mods.iter().filter(|m| m.1.enabled) {
            let v = m.selected.clone().unwrap();
            let Some(x) = self.w.m(id).and_then(|s| s.versions.get(&v)) else { return f("installed", &self.log, format!("{id} {v} is enabled but nobody made it")) };
            want.insert(x.file.clone(), x.bytes.to_vec());
            listed.push((id.clone(), v.to_string()));
            have.insert(id.clone(), v);
        }
        let mut got = now.clone();
        let Some(_) = got.remove(INTEGRATOR_PAK_FILE_NAME) else { return f("installed", &self.log, "there is no integrator archive".into()) };
        for i in &self.w.baked {
            let b = &baked_pool()[*i];
            if let Some(x) = got.remove(b.file) {
                if x != b.data {
                    return f("installed", &self.log, format!("{} was changed", b.file));
                }
                listed.push((format!("Baked{i}"), "1.2.3".into()));
                have.insert(format!("Baked{i}"), Version::new(1, 2, 3));
            } else if b.core {
                return f("installed", &self.log, format!("{} belongs to every installation", b.file));
            }
        }
        o.ev(2 + want.len() as u64);
        if self.focus == Focus::Install {
            if got.keys().ne(want.keys()) {
                return f("installed", &self.log, format!("enabled are {:?}, installed are {:?}; warnings {:?}", want.keys().collect::<Vec<_>>(), got.keys().collect::<Vec<_>>(), self.snap.warnings));
            }
            if let Some(k) = want.keys().find(|k| want[*k] != got[*k]) {
                return f("installed", &self.log, format!("{k} differs from the mod"));
            }
            let e = read_integrated(&paks.join(INTEGRATOR_PAK_FILE_NAME)).or_else(|m| f("archive", &self.log, m))?;
            let k = package(&e, "Astro/Content/Integrator/ListOfMods.uasset")?;
            let t = mini::read_table(&k.exports[0].body, &k.names).or_else(|m| f("archive", &self.log, m))?;
            let mut rows: Vec<(String, String)> = t.rows.iter().map(|(n, p)| (n.0.clone(), match &p[3].v { V::Str(s) => s.clone(), _ => "?".into() })).collect();
            rows.sort();
            listed.sort();
            if rows != listed {
                return f("list", &self.log, format!("installed are {listed:?}, the list of mods says {rows:?}"));
            }
            self.dependencies(o, &before, &have)?;
        }
        if self.focus == Focus::Trust {
            let mut want: Vec<(String, Vec<u8>)> = self.snap.mods.iter().filter(|m| m.1.enabled).filter_map(|(id, m)| {
                let x = &self.w.m(id).unwrap().versions[m.selected.as_ref().unwrap()];
                let h = sha(&x.bytes);
                (x.dlls && !self.snap.trusted.contains(&h)).then(|| (id.clone(), h))
            }).collect();
            want.sort();
            let mut got = self.snap.untrusted.clone();
            got.sort();
            o.class(format!("untrusted:{}", want.len()));
            if got != want {
                let n = |l: &[(String, Vec<u8>)]| l.iter().map(|x| x.0.clone()).collect::<Vec<_>>();
                return f("trust", &self.log, format!("mods with native code that nobody trusted: {:?}, reported {:?}", n(&want), n(&got)));
            }
        }
        Ok(())
    }
    fn dependencies(&self, o: &mut Obs, before: &Snap, have: &BTreeMap<String, Version>) -> Result<(), Fail> {
        // every need is met or reported
        for (id, m) in self.snap.mods.iter().filter(|m| m.1.enabled) {
            let x = &self.w.m(id).unwrap().versions[m.selected.as_ref().unwrap()];
            for (d, q) in &x.deps {
                o.ev(1);
                let met = have.get(d).is_some_and(|v| self.w.requirement_ok(d, v, q));
                let told = self.snap.warnings.iter().any(|w| w.contains(&format!("\"{d}\"")));
                o.class(format!("need:{}", if met { "met" } else { "reported" }));
                if !met && !told {
                    return f("need", &self.log, format!("{id} needs {d} {}, there is {:?}, and no warning says so: {:?}", q.text, have.get(d), self.snap.warnings));
                }
            }
        }
        // mods that were enabled stay so, with their version
        for (id, m) in before.mods.iter().filter(|m| m.1.enabled) {
            if self.snap.mods.get(id).map(|n| (n.enabled, &n.selected)) != Some((true, &m.selected)) && !self.w.mods.iter().any(|m| m.broken) {
                return f("kept", &self.log, format!("{id} was enabled at {:?}, now {:?}", m.selected, self.snap.mods.get(id).map(|n| (n.enabled, &n.selected))));
            }
        }
        // where a choice obviously exists, it is made
        if self.w.mods.iter().any(|m| m.broken || m.versions.values().any(|v| v.deps.iter().map(|d| (&d.0, &d.1.text)).ne(m.versions.values().next().unwrap().deps.iter().map(|d| (&d.0, &d.1.text))))) {
            return Ok(());
        }
        let mut need: BTreeMap<String, Vec<Req>> = BTreeMap::new();
        let mut linked: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = before.mods.iter().filter(|m| m.1.enabled).map(|m| m.0.clone()).collect();
        let fixed: BTreeSet<String> = todo.iter().cloned().collect();
        let mut seen: BTreeSet<String> = fixed.clone();
        while let Some(id) = todo.pop() {
            let Some(m) = self.w.m(&id) else { continue };
            for x in m.versions.values() {
                for (d, q) in &x.deps {
                    need.entry(d.clone()).or_default().push(q.clone());
                    // whether a version has a link is known only for the version used: ask for all
                    if m.versions.values().all(|x| x.meta["dependencies"][d]["download"].is_object()) {
                        linked.insert(d.clone());
                        // its own needs become known only when somebody says where it is
                        if seen.insert(d.clone()) {
                            todo.push(d.clone());
                        }
                    }
                }
            }
        }
        let mut choice = vec![];
        for (d, qs) in &need {
            if fixed.contains(d) {
                continue;
            }
            if let Some(i) = d.strip_prefix("Baked") {
                let i: usize = i.parse().unwrap();
                if self.w.baked.contains(&i) && qs.iter().all(|q| q.ok(&Version::new(1, 2, 3))) {
                    choice.push((d.clone(), Version::new(1, 2, 3)));
                    continue;
                }
                return Ok(());
            }
            let best = self.w.m(d).unwrap().index.iter().filter(|v| qs.iter().all(|q| q.ok(v))).max();
            match best {
                Some(v) if linked.contains(d) => choice.push((d.clone(), v.clone())),
                _ => return Ok(()),
            }
        }
        o.class(format!("dependencies added:{}", choice.len().min(4)));
        for (d, v) in choice {
            o.ev(1);
            if have.get(&d) != Some(&v) {
                return f("resolve", &self.log, format!("{d} {v} is the newest that satisfies everybody, installed is {:?}; warnings {:?}", have.get(&d), self.snap.warnings));
            }
        }
        Ok(())
    }
    fn restart(&mut self, r: &mut Rng, o: &mut Obs) -> Result<(), Fail> {
        self.log.push("restart".into());
        if let Err(m) = self.s().write_config() {
            return f("panic", &self.log, m);
        }
        let s = self.s.take().unwrap();
        match s.exit() {
            Ok(true) => {}
            Ok(false) => return f("exit", &self.log, "the manager does not say that it is ready to exit".into()),
            Err(m) => return f("panic", &self.log, m),
        }
        let vanish = r.chance(1, 6);
        if vanish {
            if let Some(k) = self.mods.keys().next().cloned() {
                std::fs::remove_file(self.w.mods_dir().join(&k)).unwrap();
                self.mods.remove(&k);
                self.log.push(format!("user deletes {k}"));
            }
        }
        let old_mods = self.mods.clone();
        let before = self.snap.clone();
        self.s = Some(self.w.start()?);
        self.lost = false;
        self.step(o)?;
        self.unchanged("restart", &old_mods, &[])?;
        self.listing(o)?;
        if self.focus != Focus::Settings {
            return Ok(());
        }
        let now = &self.snap;
        o.ev(6);
        if now.refuse != before.refuse || now.platform != before.platform {
            return f("settings", &self.log, format!("settings {:?}, before the restart {:?}", (now.refuse, &now.platform), (before.refuse, &before.platform)));
        }
        if now.profiles != before.profiles {
            return f("settings", &self.log, format!("profiles {:?}, before the restart {:?}", now.profiles, before.profiles));
        }
        if now.trusted != before.trusted {
            return f("settings", &self.log, "the trusted mods changed".into());
        }
        for (id, m) in &now.mods {
            let Some(b) = before.mods.get(id) else { continue };
            o.ev(1);
            if m.enabled != b.enabled {
                return f("settings", &self.log, format!("{id} enabled: {}, before the restart {}", m.enabled, b.enabled));
            }
            let there = b.selected.as_ref().is_some_and(|v| m.versions.contains_key(v));
            if there && b.pinned && (!m.pinned || m.selected != b.selected) {
                return f("settings", &self.log, format!("{id} was pinned at {:?}, now {:?} pinned {}", b.selected, m.selected, m.pinned));
            }
            if !b.pinned && m.pinned {
                return f("settings", &self.log, format!("{id} followed the latest version, now it is pinned"));
            }
            o.class(format!("restored:{}", if b.pinned { "pinned" } else { "latest" }));
        }
        Ok(())
    }
    /// after a start: exactly the mods in the folder are listed
    fn listing(&self, o: &mut Obs) -> Result<(), Fail> {
        if self.focus == Focus::Trust {
            return Ok(());
        }
        let mut want: BTreeMap<&str, BTreeSet<&Version>> = BTreeMap::new();
        for (k, b) in &self.mods {
            if valid_here(self.w, k, b) {
                let (m, v, _) = self.w.by_file(k).unwrap();
                if m.links && m.bad_index && self.focus == Focus::Folder {
                    o.ev(1);
                    o.class("start with a bad index file");
                    if self.snap.warnings.is_empty() {
                        return f("unreported", &self.log, format!("the index file of {} is missing or has invalid entries, but nothing is reported", m.id));
                    }
                }
                want.entry(&m.id).or_default().insert(v);
            }
        }
        let got: BTreeMap<&str, BTreeSet<&Version>> = self.snap.mods.iter().map(|(i, m)| (i.as_str(), m.versions.iter().filter(|v| v.1.downloaded).map(|v| v.0).collect())).collect();
        o.ev(1);
        if got != want {
            return f("listing", &self.log, format!("the folder has {want:?}, listed are {got:?}; files {:?}", self.mods.keys().collect::<Vec<_>>()));
        }
        for (id, m) in &self.snap.mods {
            // what is shown is the selected version's
            let v = m.selected.as_ref().unwrap();
            if let Some(x) = self.w.m(id).and_then(|s| s.versions.get(v)).filter(|_| m.versions[v].downloaded && !m.pinned && !m.from_index) {
                if m.name != x.meta["name"].as_str().unwrap() || m.author.as_deref() != x.meta["author"].as_str() || m.size != x.bytes.len() as u64 {
                    return f("listing", &self.log, format!("{id} {v} is shown as {:?} by {:?}, {} bytes", m.name, m.author, m.size));
                }
            }
        }
        self.latest(o)
    }
}
pub fn history(r: &mut Rng, focus: Focus) -> CaseRes {
    let mut o = Obs::new();
    let w = world(r, focus, &mut o);
    // what lies in the folder at first
    let d = w.mods_dir();
    for m in &w.mods {
        for x in m.versions.values() {
            if r.chance(1, 3) {
                std::fs::write(d.join(&x.file), &**x.bytes).unwrap();
            }
        }
    }
    for _ in 0..r.below(3) {
        if focus == Focus::Folder || r.chance(1, 4) {
            let (n, b) = junk(r, &w);
            std::fs::write(d.join(n), b).unwrap();
        }
    }
    if r.chance(1, 4) {
        std::fs::write(d.join(INTEGRATOR_PAK_FILE_NAME), b"left over").unwrap();
    }
    let outside = Run::outside(&w);
    let mut run = Run { w: &w, focus, s: None, log: vec![], lost: false, snap: Snap { mods: BTreeMap::new(), profiles: vec![], trusted: vec![], untrusted: vec![], warnings: vec![], failed: false, error: None, refuse: true, platform: None }, mods: Tree::new(), outside };
    run.mods = run.mods_now();
    run.log.push(format!("start with {:?}", run.mods.keys().collect::<Vec<_>>()));
    let first = run.mods.clone();
    run.s = Some(w.start()?);
    run.step(&mut o)?;
    run.unchanged("start", &first, &[])?;
    if run.snap.mods.values().any(|m| m.enabled) {
        return fail("enabled", "mods are enabled that nobody enabled");
    }
    run.listing(&mut o)?;
    for _ in 0..r.range(2, 7) {
        match (r.below(12), focus) {
            (0 | 1, _) => run.import(r, &mut o)?,
            (2, _) => run.remove(r, &mut o)?,
            (3..=5, _) => run.choose(r, &mut o)?,
            (6, Focus::Settings) | (7, _) => run.restart(r, &mut o)?,
            (8, Focus::Settings | Focus::Trust) => {
                match r.below(5) {
                    0 => {
                        let on = r.bool();
                        run.s().set_refuse(on);
                    }
                    1 => {
                        let n = text(r);
                        run.s().save_profile(&n);
                    }
                    2 => run.s().delete_profile(0),
                    3 => {
                        let p = *r.pick(&["Steam", "Other", "Nowhere"]);
                        run.s().set_platform(p);
                    }
                    _ => run.s().trust_all(),
                }
                run.log.push("settings".into());
                run.snap = run.s().snap();
            }
            (9, Focus::Folder) => {
                if let Some(k) = run.mods.keys().next().cloned() {
                    std::fs::remove_file(d.join(&k)).unwrap();
                    run.mods.remove(&k);
                    run.lost = true;
                    run.log.push(format!("user deletes {k}"));
                }
            }
            _ => run.integrate(r, &mut o)?,
        }
    }
    if matches!(focus, Focus::Install | Focus::Trust) {
        run.integrate(r, &mut o)?;
    }
    if let Some(s) = run.s.take() {
        if let Err(m) = s.exit() {
            return f("panic", &run.log, m);
        }
    }
    o.nontrivial(format!("{} {:?}", w.text, run.log).as_bytes());
    o.sample = Some(run.log.join("; ").chars().take(300).collect());
    let _ = &w.site;
    Ok(o)
}
pub fn g02(ctx: &Ctx) {
    ctx.rule("histories of imports, removals, choices, profiles, integrations and restarts: what was chosen is compared before and after each restart; configuration files written by the monitor (also of the older layout, with fields left out, damaged, of no text) are compared with what was put in; configuration writes are cut off at a random byte by an error or the end of the process, and the file must then be the old or the new one; non-trivial = distinct histories, files and cuts");
    ctx.assume("the window is replaced by calls that change the same fields");
    ctx.cases("restarts", ctx.n(6000, 120000), |r, _| history(r, Focus::Settings));
    ctx.cases("configs", ctx.n(8000, 160000), |r, _| crate::p_config::config_case(r));
    ctx.cases("cut", ctx.n(1200, 20000), |r, _| crate::p_config::config_fault(r));
}
pub fn g03(ctx: &Ctx) {
    ctx.rule("histories with files that are no mods, servers with broken or hostile index files and downloads, and files that vanish: after each step the mods folder, the list of mods and everything outside is compared with what the step allows; imports and downloads are cut off at a random byte by an error or the end of the process, and no part of a mod may remain; non-trivial = distinct histories and cuts");
    ctx.assume("an index file stays the same during a session; no two files of the same mod version");
    ctx.cases("folder", ctx.n(8000, 160000), |r, _| history(r, Focus::Folder));
    ctx.cases("cut", ctx.n(1200, 20000), |r, _| crate::p_config::folder_fault(r));
}
pub fn g04(ctx: &Ctx) {
    ctx.rule("histories of choices and integrations over mods with dependencies, some on servers that fail: after each integration the folder of installed mods is compared byte for byte with the enabled versions, the list of mods inside the integrator archive with both, and each dependency with a model that picks versions itself; non-trivial = distinct histories");
    ctx.assume("versions without pre-release tags; an index file stays the same during a session");
    ctx.cases("install", ctx.n(10000, 160000), |r, _| history(r, Focus::Install));
}
pub fn g05(ctx: &Ctx) {
    ctx.rule("histories of mods with and without native code, grants of trust and restarts: after each integration the reported mods are compared with the installed ones whose SHA-256 was not granted; non-trivial = distinct histories");
    ctx.assume("the window's question is replaced by granting all that is reported");
    ctx.cases("trust", ctx.n(10000, 160000), |r, _| history(r, Focus::Trust));
}
