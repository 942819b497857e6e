//! Settings written by others or damaged, and writes that fail or are cut off in the middle.
use crate::core::*;
use crate::p_integ::*;
use crate::p_manager::*;
use semver::Version;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use unreal_mod_manager::hook::{Select, Session, Snap};

type Profiles = Vec<(String, BTreeMap<String, (bool, u16, String)>)>;
fn sorted(mut p: Profiles) -> Profiles {
    p.sort();
    p
}
/// a configuration file as this or an earlier version of the manager writes it, or none at all
pub fn config_case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let w = world(r, Focus::Settings, &mut o);
    let mods_dir = w.mods_dir();
    let mut there: BTreeMap<String, Vec<Version>> = BTreeMap::new();
    for (id, v, file, bytes) in w.all() {
        if r.chance(2, 3) {
            std::fs::write(mods_dir.join(file), bytes).unwrap();
            there.entry(id.into()).or_default().push(v.clone());
        }
    }
    // what the file says
    let refuse = r.bool();
    let mut cur = Map::new();
    let mut want: BTreeMap<String, (bool, Option<Version>)> = BTreeMap::new();
    for id in IDS.iter().map(|x| x.to_string()).chain(["Ghost".to_string()]) {
        if r.chance(1, 4) {
            continue;
        }
        let enabled = r.bool();
        let follow = *r.pick(&[None, Some(true), Some(false)]);
        let vs = there.get(&id).cloned().unwrap_or_default();
        let v = match r.below(6) {
            0 => "8.8.8".to_string(),
            1 => r.pick(&["", "latest", "1", "x.y.z"]).to_string(),
            _ if vs.is_empty() => "1.0.0".into(),
            _ => r.pick(&vs).to_string(),
        };
        let pin = Version::parse(&v).ok().filter(|v| follow == Some(false) && vs.contains(v));
        let mut m = json!({"priority": r.below(3), "enabled": enabled, "version": v});
        if let Some(x) = follow {
            m["force_latest"] = json!(x);
        }
        cur.insert(id.clone(), m);
        want.insert(id, (enabled, pin));
    }
    let legacy = r.bool();
    let mut profiles: Profiles = vec![];
    let mut pv = vec![];
    let mut pm = Map::new();
    for i in 0..r.below(4) {
        let name = format!("{i}{}", text(r));
        let mut ms = BTreeMap::new();
        let mut mv = Map::new();
        for id in IDS.iter().take(r.below(5)) {
            let follow = *r.pick(&[None, Some(true), Some(false)]);
            let (p, v, on) = (r.below(70000).min(65535) as u16, text(r), r.chance(2, 3));
            let mut m = json!({"priority": p, "version": v});
            if let Some(x) = follow {
                m["force_latest"] = json!(x);
            }
            if legacy {
                m["enabled"] = json!(on);
            }
            mv.insert(id.to_string(), m);
            if on || !legacy {
                ms.insert(id.to_string(), (follow.unwrap_or(true), p, v));
            }
        }
        pv.push(json!({"name": name, "mods": mv.clone()}));
        pm.insert(name.clone(), json!({"mods": mv}));
        profiles.push((name, ms));
    }
    let trusted: Vec<Vec<u8>> = (0..r.below(4)).map(|_| r.bytes(32)).collect();
    let tell_trust = r.chance(3, 4);
    let platform = *r.pick(&[None, Some("Steam"), Some("Other"), Some("Elsewhere")]);
    let mut doc = json!({"selected_game_platform": platform, "refuse_mismatched_connections": refuse, "current": {"mods": cur}, "profiles": if legacy { Value::Object(pm) } else { Value::Array(pv) }});
    if platform.is_none() && r.bool() {
        doc.as_object_mut().unwrap().remove("selected_game_platform");
    }
    if tell_trust {
        doc["trusted_mods"] = json!(trusted.iter().map(|t| t.iter().map(|b| format!("{b:02x}")).collect::<String>()).collect::<Vec<_>>());
    }
    let mut bytes = if r.bool() { doc.to_string().into_bytes() } else { serde_json::to_vec_pretty(&doc).unwrap() };
    let how = r.below(10);
    let damaged = match how {
        0 => {
            bytes.truncate(r.below(bytes.len()));
            true
        }
        1 => {
            bytes = r.bytes(50);
            true
        }
        2 => {
            // no text any more
            let i = r.below(bytes.len());
            bytes[i] = 0xff;
            true
        }
        3 => {
            doc["current"] = json!(3);
            bytes = doc.to_string().into_bytes();
            true
        }
        _ => false,
    };
    let path = mods_dir.join("modconfig.json");
    if how == 4 {
        o.class("config:none");
    } else {
        std::fs::write(&path, &bytes).unwrap();
        o.class(if damaged { "config:damaged" } else if legacy { "config:legacy" } else { "config:good" });
    }
    let said = || format!("config {}", String::from_utf8_lossy(&bytes).chars().take(600).collect::<String>());
    let s = w.start().map_err(|e| Fail { key: e.key, msg: format!("{} [{}]", e.msg, said()) })?;
    let now = s.snap();
    let good = !damaged && how != 4;
    // the platform: the one the file names, else Steam, else any
    let have: Vec<&str> = w.platform_names();
    let plat = platform.filter(|p| good && have.contains(p)).or(have.contains(&"Steam").then_some("Steam")).or(have.first().copied());
    o.ev(4);
    if now.platform.as_deref() != plat {
        return fail("platform", format!("there are {have:?}, chosen is {:?}, not {plat:?} [{}]", now.platform, said()));
    }
    if now.mods.keys().ne(there.keys()) {
        return fail("listing", format!("there are {:?}, listed are {:?} [{}]", there.keys().collect::<Vec<_>>(), now.mods.keys().collect::<Vec<_>>(), said()));
    }
    if good {
        if now.refuse != refuse {
            return fail("settings", format!("refuse connections: {} [{}]", now.refuse, said()));
        }
        if sorted(now.profiles.clone()) != sorted(profiles.clone()) || (!legacy && now.profiles != profiles) {
            return fail("settings", format!("profiles {:?}, expected {profiles:?}", now.profiles));
        }
        if now.trusted != if tell_trust { trusted } else { vec![] } {
            return fail("settings", format!("trusted mods differ [{}]", said()));
        }
        for (id, m) in &now.mods {
            o.ev(1);
            let (on, pin) = want.get(id).cloned().unwrap_or((false, None));
            if m.enabled != on {
                return fail("settings", format!("{id} is enabled: {} [{}]", m.enabled, said()));
            }
            if m.pinned != pin.is_some() || (m.pinned && m.selected != pin) {
                return fail("settings", format!("{id} is pinned: {} {:?}, expected {pin:?} [{}]", m.pinned, m.selected, said()));
            }
            if !m.selected.as_ref().is_some_and(|v| m.versions.contains_key(v)) {
                return fail("settings", format!("{id}: {:?} is selected, which is not there", m.selected));
            }
        }
    } else if now.mods.values().any(|m| m.enabled) || !now.trusted.is_empty() || !now.profiles.is_empty() {
        return fail("settings", "settings from nowhere");
    }
    // and it survives a round
    let mut s = s;
    if let Err(m) = s.write_config() {
        return fail("panic", m);
    }
    if let Err(m) = s.exit() {
        return fail("panic", m);
    }
    let again = w.start()?;
    let b = again.snap();
    let key = |s: &Snap| (s.refuse, s.platform.clone(), s.profiles.clone(), s.trusted.clone(), s.mods.iter().map(|(i, m)| (i.clone(), m.enabled, m.pinned, m.selected.clone())).collect::<Vec<_>>());
    o.ev(1);
    if key(&now) != key(&b) {
        return fail("settings", format!("after a restart {:?}, before {:?}", key(&b), key(&now)));
    }
    let _ = again.exit();
    o.nontrivial(format!("{} {}", w.text(), String::from_utf8_lossy(&bytes)).as_bytes());
    o.sample = Some(said());
    Ok(o)
}

/// what a second process is told to do
pub fn child(arg: &str) -> i32 {
    let v: Value = serde_json::from_str(arg).unwrap();
    let st = |x: &Value| x.as_str().map(PathBuf::from);
    let platforms = v["platforms"].as_array().unwrap().iter().map(|p| {
        let n = if p[0] == "Steam" { "Steam" } else { "Other" };
        (n, Mgr { install: st(&p[1]), paks: st(&p[2]) })
    });
    let baked = v["baked"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize).collect();
    install_panic_hook();
    let Ok(mut s) = Session::start(Game::new(baked, platforms.collect()), st(&v["base"]).unwrap(), run_guarded) else { return 3 };
    let mut run = |op: &Value| -> Result<(), String> {
        let a = op[1].as_str().unwrap_or("");
        match op[0].as_str().unwrap() {
            "enable" => s.enable(a, true),
            "disable" => s.enable(a, false),
            "pin" => s.select(a, &Select::Exact(Version::parse(op[2].as_str().unwrap()).unwrap())),
            "profile" => s.save_profile(a),
            "limit" => unsafe {
                let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &z);
                if op[2] == true {
                    libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                }
                let n = op[1].as_u64().unwrap();
                let l = libc::rlimit { rlim_cur: n, rlim_max: n };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            },
            "config" => return s.write_config(),
            "integrate" => return s.integrate(),
            "import" => return s.import(op[1].as_array().unwrap().iter().filter_map(st).collect()),
            x => return Err(x.into()),
        }
        Ok(())
    };
    for op in v["ops"].as_array().unwrap() {
        if let Err(m) = run(op) {
            println!("{m}");
            return 4;
        }
    }
    0
}
fn spawn(w: &World, base: &Path, ops: &[Value]) -> Result<(Option<i32>, Option<i32>, String), Fail> {
    use std::os::unix::process::ExitStatusExt;
    let arg = json!({"base": base, "baked": w.baked, "platforms": w.platforms.iter().map(|(n, m)| json!([n, m.install, m.paks])).collect::<Vec<_>>(), "ops": ops});
    let out = std::process::Command::new(std::env::current_exe().unwrap()).arg("--manager").arg(arg.to_string()).output().unwrap();
    Ok((out.status.code(), out.status.signal(), String::from_utf8_lossy(&out.stdout).into_owned()))
}
fn copy_all(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for (n, b) in tree(from) {
        let p = to.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
}
fn ended(r: &(Option<i32>, Option<i32>, String), ignore: bool, what: &str) -> Result<(), Fail> {
    match (r.0, r.1) {
        (Some(0), _) => Ok(()),
        (_, Some(s)) if s == libc::SIGXFSZ && !ignore => Ok(()),
        _ => fail("panic", format!("{what}: the manager ended with {:?} signal {:?}: {}", r.0, r.1, r.2)),
    }
}
/// writing the settings is cut off at some byte: by an error, or by the end of the process
pub fn config_fault(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let w = world(r, Focus::Settings, &mut o);
    for (_, _, file, bytes) in w.all() {
        if r.chance(2, 3) {
            std::fs::write(w.mods_dir().join(file), bytes).unwrap();
        }
    }
    let base = w.dir.0.join("local");
    let mut first = vec![];
    for id in IDS {
        if r.bool() {
            first.push(json!(["enable", id]));
        }
    }
    first.push(json!(["profile", text(r)]));
    first.push(json!(["config"]));
    ended(&spawn(&w, &base, &first)?, true, "writing the first settings")?;
    let cfg = "Astro/Saved/Mods/modconfig.json";
    let parse = |p: &Path| -> Option<Value> { serde_json::from_slice(&std::fs::read(p.join(cfg)).ok()?).ok() };
    let Some(old) = parse(&base) else { return fail("config", "the first settings cannot be read") };
    // the change, with and without the fault
    let mut ops = vec![];
    for id in IDS {
        ops.push(json!([*r.pick(&["enable", "disable"]), id]));
    }
    ops.push(json!(["profile", text(r)]));
    let alt = w.dir.0.join("alt");
    copy_all(&base, &alt);
    let mut clean = ops.clone();
    clean.push(json!(["config"]));
    ended(&spawn(&w, &alt, &clean)?, true, "writing the second settings")?;
    let Some(new) = parse(&alt) else { return fail("config", "the second settings cannot be read") };
    let size = std::fs::metadata(alt.join(cfg)).unwrap().len() as usize;
    let (limit, ignore) = (if r.chance(1, 6) { size } else { r.below(size) }, r.bool());
    ops.push(json!(["limit", limit, ignore]));
    ops.push(json!(["config"]));
    let res = spawn(&w, &base, &ops)?;
    let what = format!("writing {size} bytes of settings stops after {limit} by {}", if ignore { "an error" } else { "the end of the process" });
    ended(&res, ignore, &what)?;
    o.ev(2);
    let now = parse(&base);
    if now.as_ref() != Some(&old) && now.as_ref() != Some(&new) {
        return fail("torn", format!("{what}: neither the old nor the new settings are left, but {:?}", now.map(|n| n.to_string().chars().take(200).collect::<String>())));
    }
    if limit >= size && now.as_ref() != Some(&new) {
        return fail("torn", format!("{what}: the new settings were not written"));
    }
    o.class(format!("cut by {}", if ignore { "error" } else { "end of process" }));
    o.class(if now.as_ref() == Some(&new) { "left:new" } else { "left:old" });
    o.nontrivial(format!("{old} {new} {limit}").as_bytes());
    o.sample = Some(what);
    Ok(o)
}
/// adding a mod is cut off at some byte
pub fn folder_fault(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let w = world(r, Focus::Trust, &mut o);
    let base = w.dir.0.join("local");
    let src = w.dir.sub("src");
    let all = w.all();
    let mut imports = vec![];
    let mut ids = vec![];
    for (id, _, file, bytes) in &all {
        match r.below(3) {
            0 => {
                std::fs::write(w.mods_dir().join(file), bytes).unwrap();
                ids.push(id.to_string());
            }
            1 => {
                std::fs::write(src.join(file), bytes).unwrap();
                imports.push(src.join(file));
            }
            _ => {}
        }
    }
    // one that is there already arrives again
    if let Some((_, _, file, bytes)) = all.iter().find(|x| w.mods_dir().join(&x.2).exists()) {
        if r.bool() {
            std::fs::write(src.join(file), bytes).unwrap();
            imports.push(src.join(file));
        }
    }
    let before = tree(&w.mods_dir());
    let most = all.iter().map(|x| x.3.len()).max().unwrap_or(1);
    let (limit, ignore) = (r.below(most + 1), r.bool());
    let import = r.bool();
    let mut ops = vec![];
    for id in &ids {
        ops.push(json!(["enable", id]));
    }
    ops.push(json!(["limit", limit, ignore]));
    ops.push(if import { json!(["import", imports]) } else { json!(["integrate"]) });
    let res = spawn(&w, &base, &ops)?;
    let what = format!("{}, files stop growing after {limit} bytes by {}", if import { "importing" } else { "integrating" }, if ignore { "an error" } else { "the end of the process" });
    ended(&res, ignore, &what)?;
    let after = tree(&w.mods_dir());
    o.class(format!("{} {}", if import { "import" } else { "download" }, if ignore { "error" } else { "end of process" }));
    for (k, b) in &before {
        o.ev(1);
        if k != "modconfig.json" && after.get(k) != Some(b) {
            return fail("torn", format!("{what}: {k} was {} bytes, now {:?}", b.len(), after.get(k).map(|b| b.len())));
        }
    }
    for (k, b) in &after {
        if k.ends_with(".pak") && !before.contains_key(k) {
            o.ev(1);
            if !valid_here(&w, k, b) {
                return fail("torn", format!("{what}: {k} with {} bytes is left behind", b.len()));
            }
            o.class("arrived");
        }
    }
    o.nontrivial(format!("{} {limit} {:?}", w.text(), after.keys()).as_bytes());
    o.sample = Some(what);
    Ok(o)
}
