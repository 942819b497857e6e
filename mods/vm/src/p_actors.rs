//! Persistent actors: what integration adds to the maps that mods name.
use crate::core::*;
use crate::mini::{self, nm, Ex, Nm, Pk, P, V};
use crate::p_integ::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use unreal_mod_integrator::*;

#[derive(Clone, Debug)]
struct Node {
    name: String,
    class: String,
    class_name: String,
    /// index of the node it hangs under
    parent: Option<usize>,
}
#[derive(Clone, Debug)]
struct Actor {
    path: String,
    stem: String,
    nodes: Vec<Node>,
}
fn junk_imports(r: &mut Rng, k: &mut Pk) {
    for _ in 0..r.below(5) {
        let p = k.import("/Script/CoreUObject", "Package", 0, r.pick(&["/Script/Foliage", "/Game/Things/Rock", "/Script/Astro"]));
        k.import("/Script/CoreUObject", *r.pick(&["Class", "BlueprintGeneratedClass", "StaticMesh"]), p, r.pick(&["SCS_Node", "SimpleConstructionScript", "Rock_C", "Level", "SceneComponent"]));
    }
}
fn class(r: &mut Rng, k: &mut Pk, package: &str, name: &str) -> i32 {
    if r.chance(1, 3) {
        junk_imports(r, k);
    }
    let p = k.import("/Script/CoreUObject", "Package", 0, package);
    match package.starts_with("/Script") {
        true => k.import("/Script/CoreUObject", "Class", p, name),
        false => k.import("/Script/Engine", "BlueprintGeneratedClass", p, name),
    }
}
/// absolute identity of an import: its class and the names from the package down
fn ident(k: &Pk, i: i32) -> String {
    if i >= 0 {
        return format!("object {i}");
    }
    let m = &k.imports[(-i - 1) as usize];
    let inside = if m.outer == 0 { "".into() } else { ident(k, m.outer) };
    format!("{:?}.{:?} {:?} in [{inside}]", m.package, m.class, m.name)
}
/// an actor blueprint and what it says about its components
fn actor(r: &mut Rng, path: &str) -> (Pk, Vec<Node>, bool) {
    let mut k = Pk::new("None");
    let mut bad = false;
    let mut nodes: Vec<Node> = vec![];
    if r.chance(1, 3) {
        junk_imports(r, &mut k);
    }
    let stem = path.rsplit('/').next().unwrap().to_string();
    let n = *r.pick(&[0, 1, 1, 2, 3, 5]);
    let has_scs = n > 0 || r.bool();
    let things = if has_scs { r.below(3) } else { 0 };
    // where each object goes: class, its default object, other objects, nodes, construction script
    let total = 2 + things + if has_scs { n + 1 } else { 0 };
    let mut at: Vec<usize> = (0..total).collect();
    if r.bool() {
        r.shuffle(&mut at);
    }
    k.exports = vec![Ex::default(); total];
    let index = |id: usize| at[id] as i32 + 1;
    let bgc = class(r, &mut k, "/Script/Engine", "BlueprintGeneratedClass");
    let base = class(r, &mut k, "/Script/Engine", "Actor");
    k.exports[at[0]] = Ex { class: bgc, sup: base, name: nm(&format!("{stem}_C")), body: b"\xff\xff\xff\x7fnot parsed".to_vec(), ..Default::default() };
    let body = k.object(&[mini::p("Speed", V::Int(3))]);
    k.exports[at[1]] = Ex { class: index(0), name: nm(&format!("Default__{stem}_C")), body, ..Default::default() };
    if has_scs {
        let scs_class = class(r, &mut k, "/Script/Engine", "SimpleConstructionScript");
        let node_class = class(r, &mut k, "/Script/Engine", "SCS_Node");
        let other = class(r, &mut k, "/Script/Engine", "SceneComponent");
        for i in 0..things {
            let body = k.object(&[mini::p("Comp", V::Int(i as i32))]);
            k.exports[at[2 + i]] = Ex { class: other, outer: index(0), name: nm(&format!("Thing{i}_GEN_VARIABLE")), body, ..Default::default() };
        }
        let (first, script) = (2 + things, 2 + things + n);
        let mut classes = vec![];
        for i in 0..n {
            let (pack, cls) = *r.pick(&[("/Script/Engine", "SceneComponent"), ("/Script/Engine", "StaticMeshComponent"), ("/Script/Astro", "SlotComponent"), ("/Game/Comp/Lamp", "Lamp_C"), ("/Game/Comp/Level", "Level_C")]);
            let c = class(r, &mut k, pack, cls);
            let name = if i == 0 && r.bool() { "DefaultSceneRoot".to_string() } else { format!("Part{i}{}", r.pick(&["", "_Lamp", " x"])) };
            let parent = (i > 0 && r.bool()).then(|| r.below(i));
            nodes.push(Node { name, class: ident(&k, c), class_name: cls.into(), parent });
            classes.push(c);
        }
        for i in 0..n {
            let mut l = vec![mini::p("ComponentClass", V::Obj(classes[i])), mini::p("InternalVariableName", V::Name(nm(&nodes[i].name)))];
            let ch: Vec<i32> = (0..n).filter(|j| nodes[*j].parent == Some(i)).map(|j| index(first + j)).collect();
            if !ch.is_empty() || r.bool() {
                l.push(mini::p("ChildNodes", V::Objs(ch)));
            }
            if r.bool() {
                l.push(mini::p("Note", V::Str("x".into())));
            }
            if r.bool() {
                l.reverse();
            }
            let body = k.object(&l);
            k.exports[at[first + i]] = Ex { class: node_class, outer: index(script), name: ("SCS_Node".into(), i as i32 + 1), body, ..Default::default() };
        }
        let mut all: Vec<i32> = (0..n).map(|i| index(first + i)).collect();
        if r.bool() {
            all.push(0);
        }
        if r.bool() {
            all.insert(0, index(1)); // not a node of the script
        }
        if r.chance(1, 80) {
            all.push(total as i32 + 1 + r.below(9) as i32);
            bad = true;
        }
        let body = k.object(&[mini::p("RootNodes", V::Objs(vec![])), mini::p("AllNodes", V::Objs(all))]);
        k.exports[at[script]] = Ex { class: scs_class, outer: index(0), name: nm("SimpleConstructionScript_0"), body, ..Default::default() };
    }
    (k, nodes, bad)
}
fn map(r: &mut Rng, level: bool) -> (Pk, usize) {
    let mut k = Pk::new("None");
    let world = class(r, &mut k, "/Script/Engine", "WorldSettings");
    let lev = class(r, &mut k, "/Script/Engine", "Level");
    junk_imports(r, &mut k);
    let before = r.below(4);
    for i in 0..before {
        let body = k.object(&[mini::p("Index", V::Int(i as i32))]);
        k.exports.push(Ex { class: world, outer: before as i32 + 1, name: nm("WorldSettings"), flags: 8, body, ..Default::default() });
    }
    let n = r.below(20);
    let rest = r.bytes(n);
    if level {
        let actors: Vec<i32> = (0..before as i32).map(|i| i + 1).collect();
        let body = k.level(&[mini::p("Flag", V::Bool(true))], &actors, &rest);
        k.exports.push(Ex { class: lev, name: nm("PersistentLevel"), flags: 8, body, deps: [vec![], actors, vec![lev], vec![]], ..Default::default() });
    }
    let after = r.below(3);
    for i in 0..after {
        let body = k.object(&[mini::p("Link", V::Obj(-(r.range(1, k.imports.len()) as i32)))]);
        k.exports.push(Ex { class: world, outer: 0, name: ("Extra".into(), i as i32), body, ..Default::default() });
    }
    k.depends = vec![vec![]; k.exports.len()];
    (k, before)
}
fn props(l: Vec<P>) -> BTreeMap<Nm, V> {
    l.into_iter().map(|p| (p.name, p.v)).collect()
}
fn want<T: PartialEq + std::fmt::Debug>(o: &mut Obs, what: &str, got: T, want: T) -> Result<(), Fail> {
    o.ev(1);
    if got == want {
        return Ok(());
    }
    fail("map", format!("{what}: got {got:?}, should be {want:?}").chars().take(1500).collect::<String>())
}
fn check_map(o: &mut Obs, old: &Pk, level: usize, k: &Pk, actors: &[Actor]) -> Result<(), Fail> {
    let n = old.exports.len();
    let total: usize = actors.iter().map(|a| a.nodes.len() + 1).sum();
    want(o, "number of objects", k.exports.len(), n + total)?;
    want(o, "imports kept", &k.imports[..old.imports.len().min(k.imports.len())], &old.imports[..])?;
    let mut spawned = vec![];
    let mut at = n;
    for a in actors {
        let me = (at + a.nodes.len() + 1) as i32;
        for (i, c) in a.nodes.iter().enumerate() {
            let e = &k.exports[at + i];
            want(o, "component name", &e.name, &nm(&c.name))?;
            want(o, &format!("class of component {}", c.name), ident(k, e.class), c.class.clone())?;
            want(o, "owner of a component", e.outer, me)?;
            let (l, _) = mini::read_object(&e.body, &k.names).or_else(|m| fail("map", format!("component {}: {m}", c.name)))?;
            let mut w = BTreeMap::from([
                (nm("bNetAddressable"), V::Bool(true)),
                (nm("CreationMethod"), V::Enum(nm("EComponentCreationMethod"), nm("EComponentCreationMethod::SimpleConstructionScript"))),
            ]);
            if let Some(p) = c.parent {
                w.insert(nm("AttachParent"), V::Obj((at + p + 1) as i32));
            }
            want(o, &format!("properties of component {} {i}", c.name), props(l), w)?;
        }
        let e = &k.exports[me as usize - 1];
        want(o, "actor name", &e.name, &nm(&a.stem))?;
        let pk = format!("{:?}.{:?} {:?} in []", nm("/Script/CoreUObject"), nm("Package"), nm(&a.path));
        let cls = format!("{:?}.{:?} {:?} in [{pk}]", nm("/Script/Engine"), nm("BlueprintGeneratedClass"), nm(&format!("{}_C", a.stem)));
        want(o, "class of the actor", ident(k, e.class), cls.clone())?;
        want(o, "template of the actor", ident(k, e.template), format!("{:?}.{:?} {:?} in [{pk}]", nm(&a.path), nm(&format!("{}_C", a.stem)), nm(&format!("Default__{}_C", a.stem))))?;
        want(o, "place of the actor", e.outer, level as i32 + 1)?;
        want(o, "what the actor waits for", [e.deps[2].clone(), e.deps[3].clone()], [vec![e.class, e.template], vec![level as i32 + 1]])?;
        let (l, _) = mini::read_object(&e.body, &k.names).or_else(|m| fail("map", format!("actor {}: {m}", a.stem)))?;
        let mut w = BTreeMap::from([(nm("bHidden"), V::Bool(true)), (nm("BlueprintCreatedComponents"), V::Objs((0..a.nodes.len()).map(|i| (at + i + 1) as i32).collect()))]);
        for (i, c) in a.nodes.iter().enumerate() {
            w.insert(nm(&c.name), V::Obj((at + i + 1) as i32));
            if c.name == "DefaultSceneRoot" {
                w.insert(nm("RootComponent"), V::Obj((at + i + 1) as i32));
            }
        }
        want(o, "properties of the actor", props(l), w)?;
        for c in &a.nodes {
            let name = nm(&format!("{}_GEN_VARIABLE", c.name));
            let found = k.imports.iter().any(|m| m.name == name && m.class == nm(&c.class_name) && ident(k, m.outer) == cls);
            want(o, &format!("template import of component {}", c.name), found, true)?;
        }
        spawned.push(me);
        at = me as usize;
    }
    for (i, w) in old.exports.iter().enumerate() {
        let (mut g, mut w) = (k.exports[i].clone(), w.clone());
        if i == level {
            let (gl, ga, gr) = mini::read_level(&g.body, &k.names).or_else(|m| fail("map", format!("level: {m}")))?;
            let (wl, mut wa, wr) = mini::read_level(&w.body, &old.names).unwrap();
            wa.extend(&spawned);
            want(o, "actors of the level", ga, wa)?;
            want(o, "the rest of the level", (gl, gr), (wl, wr))?;
            w.deps[1].extend(&spawned);
            g.body = vec![];
            w.body = vec![];
        }
        want(o, &format!("object {} that was there before", i + 1), g, w)?;
    }
    want(o, "names kept", &k.names[..old.names.len().min(k.names.len())], &old.names[..])
}
fn case(r: &mut Rng) -> CaseRes {
    let mut o = Obs::new();
    let d = Dir::new();
    let (paks, game, src) = (d.sub("paks"), d.sub("game"), d.sub("mods"));
    let mut broken: Option<&str> = None;
    // maps, most in game archives
    let mut maps = vec![];
    let mut games: Vec<Vec<(String, Vec<u8>)>> = vec![vec![("Astro/Content/x.bin".into(), vec![3; 9])]; r.range(1, 3)];
    let mut in_mods: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..*r.pick(&[1, 1, 2, 3]) {
        let level = !r.chance(1, 40);
        let name = format!("Astro/Content/Maps/Map{i}.umap");
        let (mut k, l) = map(r, level);
        let (a, b) = k.encode();
        let there = !r.chance(1, 40);
        if !level {
            broken = Some("map without a level");
        }
        if there {
            let files = [(name.clone(), a), (format!("Astro/Content/Maps/Map{i}.uexp"), b.unwrap())];
            if r.chance(1, 4) {
                in_mods.extend(files);
                o.class("map from a mod");
            } else {
                let n = r.below(games.len());
                games[n].extend(files);
            }
        } else {
            broken = Some("missing map");
        }
        maps.push((name, k, l));
    }
    for (i, g) in games.iter().enumerate() {
        std::fs::write(game.join(format!("g{i}.pak")), archive(r, g)).unwrap();
    }
    // mods
    let mut actors = vec![];
    let mut mods: Vec<IntegratorMod<Bad>> = vec![];
    let mut metas = vec![];
    let n_mods = r.range(1, 3);
    for i in 0..n_mods {
        let mut files = vec![];
        if i == 0 {
            files.append(&mut in_mods);
        }
        let mut paths: Vec<Value> = vec![];
        for j in 0..r.below(3) {
            let path = format!("/Game/Mods/{}/Act{i}{j}", gen_ident(r));
            let (mut k, nodes, bad) = actor(r, &path);
            if bad {
                broken = broken.or(Some("missing node"));
            }
            k.split = r.chance(3, 4);
            let (a, b) = k.encode();
            let disk = path.replace("/Game/", "Astro/Content/");
            if !r.chance(1, 60) {
                files.push((format!("{disk}.uasset"), a));
                files.extend(b.map(|b| (format!("{disk}.uexp"), b)));
            } else {
                broken = broken.or(Some("missing actor"));
            }
            let reps = if r.chance(1, 10) { 2 } else { 1 };
            for _ in 0..reps {
                paths.push(json!(path));
                actors.push(Actor { stem: path.rsplit('/').next().unwrap().into(), path: path.clone(), nodes: nodes.clone() });
            }
            o.class(format!("components:{}", nodes.len()));
        }
        if r.chance(1, 60) {
            paths.push(json!(5));
            broken = broken.or(Some("actor that is no path"));
        }
        let mut m = metadata(r, &format!("Mod{i}"), "1.0.0");
        m["integrator"] = json!({"persistent_actors": paths});
        if i == 0 {
            m["integrator"]["persistent_actor_maps"] = maps.iter().map(|m| json!(m.0)).collect();
        }
        if r.chance(1, 60) {
            m["integrator"]["persistent_actors"] = json!("not a list");
            broken = Some("actors that are no list");
        }
        files.push(("metadata.json".into(), m.to_string().into_bytes()));
        let p = src.join(format!("m{i}.pak"));
        std::fs::write(&p, archive(r, &files)).unwrap();
        mods.push(FileMod { path: p, mod_id: format!("Mod{i}"), priority: 0 }.into());
        metas.push(m);
    }
    if actors.is_empty() && matches!(broken, Some("missing actor")) {
        broken = None;
    }
    let rec = Rec::default();
    let conf = Conf { rec: &rec, handlers: vec![], baked: vec![] };
    let refuse = r.bool();
    let got = nopanic("panic", || "integrate_mods with persistent actors".into(), || integrate_mods(&conf, &mods, &paks, &game, refuse))?;
    let what = format!("{} maps, {} actors with {} components, broken {broken:?}", maps.len(), actors.len(), actors.iter().map(|a| a.nodes.len()).sum::<usize>());
    o.nontrivial(format!("{what} {actors:?} {:?}", maps[0].1).as_bytes());
    o.sample = Some(what.clone());
    match (got, broken) {
        (Err(_), Some(b)) => {
            o.class(format!("refused:{b}"));
            o.ev(1);
            return if paks.join(INTEGRATOR_PAK_FILE_NAME).exists() { fail("partial", format!("{what}: a failed integration wrote an archive")) } else { Ok(o) };
        }
        (Err(e), None) => return fail("refused", format!("{what}: {e}")),
        (Ok(()), Some(b)) => return fail("swallowed", format!("{what}: {b} is not reported")),
        _ => {}
    }
    let e = read_integrated(&paks.join(INTEGRATOR_PAK_FILE_NAME)).or_else(|m| fail("archive", format!("{what}: {m}")))?;
    check_base(&mut o, &e, &metas, Conf::INTEGRATOR_VERSION, refuse)?;
    let mut names = base_entries();
    for (n, k, l) in &maps {
        names.extend([n.clone(), n.replace(".umap", ".uexp")]);
        let got = package(&e, n)?;
        check_map(&mut o, k, *l, &got, &actors).map_err(|f| Fail { key: f.key, msg: format!("{what}: {}", f.msg) })?;
    }
    names.sort();
    want(&mut o, "entries of the archive", e.keys().cloned().collect::<Vec<_>>(), names)?;
    Ok(o)
}
pub fn i02(ctx: &Ctx) {
    ctx.rule("generated maps and actor blueprints of several mods are integrated; the maps in the result are decoded independently and compared with the old map plus the actors and components that the blueprints state; non-trivial = distinct maps, actors and component trees");
    ctx.assume("actor paths are plain package paths; blueprints state a class for each of their components and name them uniquely");
    ctx.cases("actors", ctx.n(20000, 400000), |r, _| case(r));
}
