//! A07: objects copied from one package into another.
use crate::core::*;
use crate::p_asset::*;
use crate::p_edit::RENAMEABLE;
use unreal_asset::exports::*;
use unreal_asset::{Export, Import};
use unreal_asset_base::types::PackageIndex;

/// what an object says, names as text, without its place in the file
fn words(e: &Export<PackageIndex>) -> String {
    let mut e = e.clone();
    let b = e.get_base_export_mut();
    b.serial_size = 0;
    b.serial_offset = 0;
    b.first_export_dependency_offset = 0;
    strip(&format!("{e:?}"))
}
/// leaves out the hash tables inside of maps, which have no order
fn strip(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    let b = s.as_bytes();
    let (mut i, mut from) = (0, 0);
    let (mut text, mut skip) = (false, 0usize);
    while i < b.len() {
        match b[i] {
            b'\\' if text => i += 1,
            b'"' => text = !text,
            b'{' if !text && (skip > 0 || s[i..].starts_with("{KeyItem(")) => {
                if skip == 0 {
                    out.push_str(&s[from..i]);
                }
                skip += 1;
            }
            b'}' if !text && skip > 0 => {
                skip -= 1;
                from = i + 1;
            }
            _ => {}
        }
        i += 1;
    }
    out.push_str(&s[from..]);
    out
}
fn said(a: &A) -> (Vec<String>, Vec<String>) {
    (a.asset_data.exports.iter().map(words).collect(), a.imports.iter().map(|i| format!("{i:?}")).collect())
}
fn differ(what: &str, got: &(Vec<String>, Vec<String>), want: &(Vec<String>, Vec<String>)) -> Result<(), Fail> {
    for (k, g, w) in [("object", &got.0, &want.0), ("import", &got.1, &want.1)] {
        if g.len() != w.len() {
            return fail("copied", format!("{what}: {} {k}s instead of {}", g.len(), w.len()));
        }
        for (i, (g, w)) in g.iter().zip(w).enumerate() {
            if g != w {
                let at = g.chars().zip(w.chars()).take_while(|(a, b)| a == b).count();
                let cut = |s: &str| s.chars().skip(at.saturating_sub(80)).take(200).collect::<String>();
                return fail("copied", format!("{what}: {k} {i} says ..{}.. instead of ..{}..", cut(g), cut(w)));
            }
        }
    }
    Ok(())
}
fn get(what: &str, b: &(Vec<u8>, Option<Vec<u8>>), p: &Pkg) -> Result<A, Fail> {
    match nopanic("panic", || format!("loading {what}"), || load(&b.0, &b.1, p.cf.ev))? {
        Ok(a) => Ok(a),
        Err(e) => fail("refused", format!("{what} cannot be loaded: {e}")),
    }
}
fn put(what: &str, a: &A) -> Result<(Vec<u8>, Option<Vec<u8>>), Fail> {
    match nopanic("panic", || format!("writing {what}"), || save(a))? {
        Ok(a) => Ok(a),
        Err(e) => fail("refused", format!("{what} cannot be written: {e}")),
    }
}
/// the package without anything in it, and other names
fn host(r: &mut Rng, p: &Pkg, names: &[String]) -> Pkg {
    let mut h = p.clone();
    let mut nm = unreal_asset_base::containers::NameMap::new();
    for n in names {
        nm.get_mut().add_name_reference(n.clone(), false);
    }
    h.cf.names = nm;
    h.cf.imports.clear();
    h.imports.clear();
    h.exports.clear();
    h.zero_hash.clear();
    h.generations = 0;
    h.depends = h.depends.map(|_| vec![]);
    let _ = r;
    h
}
fn whole(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let p = pkg(r, 14);
    let b = p.encode();
    let a = get("a package", &b, &p)?;
    let want = said(&a);
    let t1 = p.names();
    // names of the other package: none, unrelated ones, or some of the same in another order
    let mut names: Vec<String> = match r.below(3) {
        0 => vec![],
        1 => (0..r.range(1, 9)).map(|i| format!("Other{i}")).collect(),
        _ => t1.iter().filter(|_| r.bool()).cloned().chain(["Elsewhere".to_string()]).collect(),
    };
    r.shuffle(&mut names);
    let h = host(r, &p, &names);
    let mut d = get("an empty package", &h.encode(), &h)?;
    d.asset_data.exports = a.asset_data.exports.clone();
    d.imports = a.imports.clone();
    nopanic("panic", || "rebuilding names".into(), || d.rebuild_name_map())?;
    differ("after rebuilding the names", &said(&d), &want)?;
    // what was there keeps its place
    let now = d.get_name_map().get_ref().get_name_map_index_list().to_vec();
    if now[..names.len()] != names[..] {
        return fail("names", "names that were there have changed".to_string());
    }
    let mut uniq = now.clone();
    uniq.sort();
    uniq.dedup();
    if uniq.len() != now.len() {
        return fail("names", "a name was added twice".to_string());
    }
    differ("the source", &said(&a), &want)?;
    let back = get("the other package", &put("the other package", &d)?, &h)?;
    differ("in the other package", &said(&back), &want)?;
    // and back again into a package with the first one's names: the very same file
    let mut g = p.clone();
    g.exports.clear();
    g.imports.clear();
    g.depends = g.depends.map(|_| vec![]);
    g.generations = 0;
    let mut e = get("an empty package", &g.encode(), &g)?;
    e.asset_data.exports = back.asset_data.exports.clone();
    e.imports = back.imports.clone();
    nopanic("panic", || "rebuilding names".into(), || e.rebuild_name_map())?;
    let mut q = p.clone();
    q.depends = q.depends.map(|_| vec![]);
    q.generations = 0;
    let out = put("the package after coming back", &e)?;
    same_bytes("package after coming back", &out, &q.encode(), &mut o)?;
    o.ev(4 + want.0.len() as u64 * 3);
    o.class(format!("whole: {} names before", if names.is_empty() { "no" } else if names.len() < 10 { "other" } else { "shared" }));
    for e in &p.exports {
        o.class(format!("whole: {}", format!("{:?}", e.kind).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string()));
    }
    if !want.0.is_empty() {
        o.nontrivial(&b.0);
    }
    Ok(o)
}
fn one(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let p = loop {
        let p = pkg(r, 12);
        if !p.exports.is_empty() && p.exports.iter().all(|e| e.class <= 0) {
            break p;
        }
    };
    let b = p.encode();
    let a = get("a package", &b, &p)?;
    // another package with the same layout, where names mean something else
    let mut h = get("a package", &b, &p)?;
    let list = h.get_name_map().get_ref().get_name_map_index_list().to_vec();
    let mut renamed = 0;
    for (i, n) in list.iter().enumerate() {
        if RENAMEABLE.contains(&n.as_str()) && r.bool() {
            *h.get_name_map().get_mut().get_name_reference_mut(i as i32) = format!("Mine {i}");
            renamed += 1;
        }
    }
    for i in 0..r.below(3) {
        h.add_fname(&format!("Also mine {i}"));
    }
    let mut want = said(&h);
    for _ in 0..r.range(1, 4) {
        let k = r.below(a.asset_data.exports.len());
        let at = r.below(h.asset_data.exports.len() + 1);
        h.asset_data.exports.insert(at, a.asset_data.exports[k].clone());
        want.0.insert(at, words(&a.asset_data.exports[k]));
        if !a.imports.is_empty() && r.bool() {
            let j = r.below(a.imports.len());
            let i: Import = a.imports[j].clone();
            want.1.push(format!("{i:?}"));
            h.imports.push(i);
        }
        if r.bool() {
            nopanic("panic", || "rebuilding names".into(), || h.rebuild_name_map())?;
        }
    }
    nopanic("panic", || "rebuilding names".into(), || h.rebuild_name_map())?;
    differ("after rebuilding the names", &said(&h), &want)?;
    let f = put("the package", &h)?;
    let back = get("the package", &f, &p)?;
    differ("in the package", &said(&back), &want)?;
    // rebuilding is done once
    let mut again = back;
    again.rebuild_name_map();
    let g = put("the package", &again)?;
    same_bytes("package after rebuilding names that are right", &g, &f, &mut o)?;
    o.ev(3 + want.0.len() as u64);
    o.class(format!("one: {} renamed", if renamed > 0 { "names" } else { "nothing" }));
    o.nontrivial(&b.0);
    Ok(o)
}
pub fn a07(c: &Ctx) {
    c.rule("Objects and imports of generated packages are copied into packages with other names, the names rebuilt, saved and loaded; all values with names as text are compared with the source, and after copying back with an own encoding; non-trivial = at least one object.");
    c.cases("whole", c.n(15_000, 1_000_000), |r, _| whole(r));
    c.cases("one", c.n(15_000, 1_000_000), |r, _| one(r));
}
