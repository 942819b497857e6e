//! Native libraries: what `bootstrap` extracts from the installed mods.
use crate::core::*;
use crate::p_integ::{archive, Dir};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

fn tree(p: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(base: &Path, p: &Path, o: &mut BTreeMap<String, Option<Vec<u8>>>) {
        for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            let f = e.path();
            let n = f.strip_prefix(base).unwrap().to_string_lossy().into_owned();
            if e.file_type().unwrap().is_dir() {
                o.insert(n, None);
                go(base, &f, o);
            } else {
                o.insert(n, Some(std::fs::read(&f).unwrap()));
            }
        }
    }
    let mut o = BTreeMap::new();
    go(p, p, &mut o);
    o
}
/// the entry a game path names
fn entry(game: &str, p: &str) -> Option<String> {
    let rest = p.strip_prefix("/Game/")?;
    let last = rest.rsplit('/').next().unwrap();
    // a leading dot alone makes no extension
    let dotted = last.char_indices().any(|(i, c)| c == '.' && i > 0);
    Some(format!("{game}/Content/{rest}{}", if dotted { "" } else { ".uasset" }))
}
fn case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let d = Dir::new();
    let game = *r.pick(&["Astro", "My Game", "G$1", "Ünï"]);
    let paks = d.sub("paks");
    let out = d.0.join("native");
    std::fs::write(d.0.join("beside"), b"beside").unwrap();
    let mut blocked = false;
    match r.below(12) {
        0..=3 => {}
        4 => {
            std::fs::write(&out, b"in the way").unwrap();
            blocked = true;
        }
        5..=7 => std::fs::create_dir_all(out.join("old/deep")).unwrap(),
        _ => std::fs::create_dir_all(&out).unwrap(),
    }
    if out.is_dir() {
        for n in ["x.dll", "stale.dll", "old/deep/y.dll"] {
            let f = out.join(n);
            if f.parent().unwrap().is_dir() && r.bool() {
                std::fs::write(f, b"stale, and longer than what replaces it").unwrap();
            }
        }
    }
    let (mut must_fail, mut any) = (false, false);
    let mut want: BTreeMap<String, BTreeSet<Vec<u8>>> = BTreeMap::new();
    let mut kinds = BTreeSet::new();
    for m in 0..r.below(5) {
        let file = paks.join(format!("00{m}-Mod{m}-1.0.0_P.pak"));
        let mut ents: Vec<(String, Vec<u8>)> = vec![("Other.bin".into(), r.bytes(20))];
        let mut dlls = vec![];
        let (w0, f0) = (want.clone(), must_fail);
        for i in 0..r.below(4) {
            let n = r.below(3000);
            let data = if r.chance(1, 30) { r.blob(300_000) } else { r.blob(n) };
            let p = match r.below(14) {
                0 => format!("/Game/lib{m}_{i}"),
                1 => "/Game/Native/x.dll".into(),
                2 => format!("/Game/a.b/c/Löw e{m}{i}.dll"),
                3 => format!("/Game/Mods/lib{m}_{i}.tar.gz"),
                4 => {
                    // not a game path: nothing to extract
                    dlls.push(format!("{}lib{m}_{i}.dll", r.pick(&["", "/", "/Engine/", "Game/", "../", "/game/"])));
                    kinds.insert("other path");
                    continue;
                }
                5 if r.chance(1, 2) => {
                    dlls.push(format!("/Game/missing{i}.dll"));
                    must_fail = true;
                    kinds.insert("missing library");
                    continue;
                }
                6 if r.chance(1, 2) => {
                    // no file name at all: anything but a crash
                    let p = r.pick(&["/Game/..", "/Game/a/..", "/Game/x.dll/..", "/Game/", "/Game/.", "/Game//"]).to_string();
                    let rest = &p["/Game/".len()..];
                    for e in [format!("{game}/Content/{rest}"), format!("{game}/Content/{rest}.uasset"), format!("{game}/Content.uasset")] {
                        if ents.iter().all(|x| x.0 != e) {
                            ents.push((e, data.clone()));
                        }
                    }
                    dlls.push(p);
                    any = true;
                    kinds.insert("no file name");
                    continue;
                }
                _ => format!("/Game/Native/lib{m}_{i}.dll"),
            };
            let e = entry(game, &p).unwrap();
            if ents.iter().any(|x| x.0 == e) {
                continue;
            }
            want.entry(e.rsplit('/').next().unwrap().to_string()).or_default().insert(data.clone());
            ents.push((e, data));
            dlls.push(p);
        }
        let meta = json!({"schema_version": 2, "name": format!("Mod {m}"), "mod_id": format!("Mod{m}"), "version": "1.0.0", "cpp_loader_dlls": dlls});
        match r.below(12) {
            0 => {
                // no mod: its files are not libraries
                kinds.insert("no metadata");
                (want, must_fail) = (w0, f0);
            }
            1 if r.bool() => {
                ents.push(("metadata.json".into(), r.pick(&["{", "", "[]", "{\"schema_version\": 9}"]).as_bytes().to_vec()));
                must_fail = true;
                kinds.insert("bad metadata");
            }
            _ => ents.push(("metadata.json".into(), meta.to_string().into_bytes())),
        }
        r.shuffle(&mut ents);
        std::fs::write(&file, archive(r, &ents)).unwrap();
    }
    if r.chance(1, 15) {
        std::fs::write(paks.join("notes.pak"), r.bytes(300)).unwrap();
        must_fail = true;
        kinds.insert("no archive");
    }
    let before = (tree(&paks), std::fs::read(d.0.join("beside")).unwrap());
    let res = nopanic("panic", || format!("extracting native libraries ({kinds:?})"), || unreal_cpp_bootstrapper::bootstrap(game, &out, &paks))?;
    o.ev(1);
    if (tree(&paks), std::fs::read(d.0.join("beside")).unwrap()) != before {
        return fail("outside", "the installed mods changed");
    }
    let all: BTreeSet<String> = std::fs::read_dir(&d.0).unwrap().flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
    if all.iter().any(|n| !["paks", "native", "beside"].contains(&&n[..])) {
        return fail("outside", format!("files appear outside the folder: {all:?}"));
    }
    if blocked && res.is_ok() && !out.is_dir() {
        return fail("success", "success reported although a file is in the way");
    }
    if must_fail && res.is_ok() {
        return fail("success", format!("success reported with {kinds:?}"));
    }
    match res {
        Ok(()) if !any => {
            let got = tree(&out);
            o.ev(got.len() as u64);
            let names: BTreeSet<&String> = got.keys().collect();
            if names != want.keys().collect() {
                return fail("content", format!("the folder has {names:?}, the mods name {:?}", want.keys()));
            }
            for (n, g) in &got {
                match g {
                    Some(g) if want[n].contains(g) => {}
                    _ => return fail("content", format!("{n} has another content than in the mod")),
                }
            }
        }
        Err(e) if !any && !must_fail && !blocked => return fail("refused", format!("extracting {:?} fails: {e}", want.keys())),
        _ => {}
    }
    o.class(format!("{:?} {}", kinds, if blocked { "file in the way" } else { "" }));
    if !want.is_empty() || !kinds.is_empty() {
        o.nontrivial(format!("{:?}{kinds:?}{:?}", want.keys().collect::<Vec<_>>(), want.values().map(|v| v.iter().map(|x| fnv(x)).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes());
    }
    Ok(o)
}
pub fn i03(ctx: &Ctx) {
    ctx.rule("folders of installed mods of every archive version whose metadata names native libraries, other files, missing or impossible ones, are given to the library's extraction with fresh, stale or blocked target folders; the target is compared with the model; non-trivial = a library or something wrong");
    ctx.assume("when two mods bring libraries of the same file name either may be extracted");
    ctx.cases("extract", ctx.n(20_000, 400_000), |r, _| case(r));
}
