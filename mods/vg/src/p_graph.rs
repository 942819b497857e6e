//! The dependency graph: which versions satisfy everybody, and who is named when none does.
use crate::core::*;
use semver::{Version, VersionReq};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use unreal_mod_manager::hook::Graph;
use unreal_mod_metadata::{Dependency, DownloadInfo, DownloadMode};

/// a requirement and what it means, computed here without the semver crate
#[derive(Clone, Debug)]
pub struct Req {
    pub text: String,
    parts: Vec<(char, [Option<u64>; 3])>,
    /// with pre-release tags: what one dependent asks for is decided by the semver crate
    tagged: Option<VersionReq>,
}
impl Req {
    pub fn any() -> Req {
        Req { text: "*".into(), parts: vec![], tagged: None }
    }
    pub fn gen(r: &mut Rng) -> Req {
        let n = *r.pick(&[0, 1, 1, 1, 1, 2, 3]);
        let mut parts = vec![];
        for _ in 0..n {
            let op = *r.pick(&['=', '>', 'g', '<', 'l', '~', '^', '^', ' ']);
            let len = r.range(1, 3);
            let mut v = [None; 3];
            for x in v.iter_mut().take(len) {
                *x = Some(*r.pick(&[0, 0, 1, 1, 2, 3]));
            }
            parts.push((op, v));
        }
        let text = parts.iter().map(|(o, v)| {
            let o = match o {
                'g' => ">=".into(),
                'l' => "<=".into(),
                ' ' => "".into(),
                o => o.to_string(),
            };
            o + &v.iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
        });
        let text = text.collect::<Vec<_>>().join(", ");
        Req { text: if n == 0 { "*".into() } else { text }, parts, tagged: None }
    }
    fn gen_tagged(r: &mut Rng) -> Req {
        let mut q = Req::gen(r);
        if r.chance(2, 3) {
            let parts: Vec<String> = (0..r.range(1, 2))
                .map(|_| {
                    let op = *r.pick(&["=", ">", ">=", "<", "<=", "~", "^", ""]);
                    format!("{op}{}", version_tagged(r))
                })
                .collect();
            q.text = parts.join(", ");
        }
        q.tagged = VersionReq::parse(&q.text).ok();
        q
    }
    /// over versions without pre-release tags
    pub fn ok(&self, v: &Version) -> bool {
        if let Some(t) = &self.tagged {
            return t.matches(v);
        }
        let x = (v.major, v.minor, v.patch);
        const M: u64 = u64::MAX;
        self.parts.iter().all(|(op, [a, b, c])| {
            let a = a.unwrap();
            let low = (a, b.unwrap_or(0), c.unwrap_or(0));
            // first version after those the given numbers stand for
            let after = match (b, c) {
                (None, _) => (a + 1, 0, 0),
                (Some(b), None) => (a, b + 1, 0),
                (Some(b), Some(c)) => (a, *b, c + 1),
            };
            match op {
                '=' => x >= low && x < after,
                '>' => x >= after,
                'g' => x >= low,
                '<' => x < low,
                'l' => x < after,
                '~' => x >= low && x < if b.is_none() { (a + 1, 0, 0) } else { (a, b.unwrap() + 1, 0) },
                _ => {
                    let end = match (a, b, c) {
                        (0, None, _) => (1, 0, 0),
                        (0, Some(0), None) => (0, 1, 0),
                        (0, Some(0), Some(c)) => (0, 0, c + 1),
                        (0, Some(b), _) => (0, b + 1, 0),
                        (a, _, _) => (a + 1, 0, 0),
                    };
                    x >= low && x < end.min((M, M, M))
                }
            }
        })
    }
}
fn version(r: &mut Rng) -> Version {
    Version::new(*r.pick(&[0, 0, 1, 1, 2, 3]), r.below(4) as u64, r.below(4) as u64)
}
fn version_tagged(r: &mut Rng) -> Version {
    let t = *r.pick(&["", "", "-alpha", "-alpha.2", "-alpha.10", "-beta", "-rc.1", "-1"]);
    format!("{}.{}.{}{t}", r.below(2), r.below(2), r.below(2)).parse().unwrap()
}
/// whether a combined requirement can only mean one thing for these versions
fn clear(node: &Node, v: &Version) -> bool {
    let one = node.asked.iter().all(|q| q.1.ok(v));
    let all = VersionReq { comparators: node.asked.iter().flat_map(|q| q.1.tagged.clone().map(|t| t.comparators).unwrap_or_default()).collect() };
    node.asked.iter().all(|q| q.1.tagged.is_none()) || one == all.matches(v)
}
#[derive(Default, Debug)]
struct Node {
    versions: Vec<Version>,
    asked: Vec<(String, Req)>,
    downloads: BTreeSet<String>,
}
fn case(r: &mut Rng, tagged: bool) -> CaseRes {
    let version: fn(&mut Rng) -> Version = if tagged { version_tagged } else { version };
    let mut o = Obs::new();
    let n = r.range(1, 7);
    let many = r.chance(1, 40); // enough requirements on one mod to pass any fixed limit
    let mut ids: Vec<String> = (0..if many { 60 } else { n }).map(|i| format!("Mod{i}")).collect();
    // names that differ in case, blanks or by an ending are different mods
    for i in 1..ids.len() {
        if !many && r.chance(1, 8) {
            ids[i] = match r.below(4) {
                0 => ids[i - 1].to_lowercase(),
                1 => ids[i - 1].to_uppercase(),
                2 => format!("{} ", ids[i - 1]),
                _ => format!("{}0", ids[i - 1]),
            };
        }
    }
    ids.sort();
    ids.dedup();
    r.shuffle(&mut ids);
    let mut g = Graph::default();
    let mut model: BTreeMap<String, Node> = BTreeMap::new();
    let mut log = vec![];
    let mut added: BTreeSet<String> = BTreeSet::new();
    for _ in 0..r.range(1, 4) {
        let mut round = vec![];
        let mut named: BTreeSet<String> = BTreeSet::new();
        for id in &ids {
            if added.contains(id) || !(many || r.chance(1, 3)) {
                continue;
            }
            added.insert(id.clone());
            let mut vs: BTreeSet<Version> = BTreeSet::new();
            for _ in 0..r.range(1, 5) {
                vs.insert(version(r));
            }
            let mut vs: Vec<Version> = vs.into_iter().collect();
            if r.bool() {
                vs.reverse();
            }
            let mut deps: HashMap<String, Dependency> = HashMap::new();
            let node = model.entry(id.clone()).or_default();
            if node.versions.is_empty() {
                node.versions = vs.clone();
            }
            for d in &ids {
                if !(r.chance(1, 3) || many && d == "Mod0") || many && d != "Mod0" {
                    continue;
                }
                let q = if tagged { Req::gen_tagged(r) } else { Req::gen(r) };
                let url = r.chance(2, 3).then(|| format!("http://{}/{}", r.pick(&["x", "X", "y"]), r.below(3)));
                let node = model.entry(d.clone()).or_default();
                node.asked.push((id.clone(), q.clone()));
                node.downloads.extend(url.clone());
                named.insert(d.clone());
                log.push(format!("{id} needs {d} {}", q.text));
                let req = VersionReq::parse(&q.text).or_else(|e| fail("harness", format!("{} {e}", q.text)))?;
                deps.insert(d.clone(), Dependency { version: req, download: url.map(|url| DownloadInfo { download_mode: DownloadMode::IndexFile, url }) });
            }
            round.push((id.clone(), vs, deps));
        }
        let got = nopanic("panic", || format!("adding mods: {log:?}"), || g.add(round))?;
        let have: BTreeSet<String> = got.keys().cloned().collect();
        o.ev(1);
        if have != named {
            return fail("requirements", format!("dependencies of the added mods are {named:?}, reported {have:?}; {log:?}"));
        }
        for (id, (req, downloads)) in got {
            let node = &model[&id];
            for _ in 0..12 {
                let v = version(r);
                let want = node.asked.iter().all(|q| q.1.ok(&v));
                o.ev(1);
                if req.matches(&v) != want && clear(node, &v) {
                    return fail("requirements", format!("{id} {v}: combined requirement {req} says {}, asked for {:?}", !want, node.asked.iter().map(|q| &q.1.text).collect::<Vec<_>>()));
                }
            }
            let d: BTreeSet<String> = downloads.iter().map(|d| d.url.clone()).collect();
            if d != node.downloads || d.len() != downloads.len() {
                return fail("downloads", format!("{id}: download links {downloads:?}, should be {:?}", node.downloads));
            }
        }
        let (chosen, bad) = nopanic("panic", || format!("validating: {log:?}"), || g.validate())?;
        let mut seen: BTreeSet<String> = BTreeSet::new();
        for (id, node) in &model {
            let fit: Vec<&Version> = node.versions.iter().filter(|v| node.asked.iter().all(|q| q.1.ok(v))).collect();
            o.ev(1);
            match (chosen.get(id), fit.iter().max()) {
                (Some(v), Some(best)) if v == *best => o.class("satisfied"),
                (None, None) => {
                    o.class("unsatisfied");
                    let b: Vec<_> = bad.iter().filter(|b| b.0 == *id).collect();
                    if b.len() != 1 {
                        return fail("warning", format!("{id} has no version for everybody and is reported {} times; {log:?}", b.len()));
                    }
                    let who: BTreeSet<&String> = b[0].1.iter().map(|x| &x.0).collect();
                    let want: BTreeSet<&String> = node.asked.iter().map(|x| &x.0).collect();
                    if who != want || b[0].1.len() != node.asked.len() {
                        return fail("warning", format!("{id} is unresolved for {want:?}, the report names {:?}", b[0].1));
                    }
                    same_reqs(&mut o, r, id, &b[0].1, node, version)?;
                }
                (got, want) => return fail("choice", format!("{id}: chosen {got:?}, newest that satisfies all is {want:?}; versions {:?}; {log:?}", node.versions)),
            }
            seen.insert(id.clone());
            let mut d = g.dependents(id);
            d.sort();
            let mut want: Vec<String> = node.asked.iter().map(|a| a.0.clone()).collect();
            want.sort();
            d.dedup();
            want.dedup();
            if d != want {
                return fail("dependents", format!("{id} is needed by {want:?}, reported {d:?}"));
            }
            let dv = nopanic("panic", || "dependents".into(), || g.dependents_with_version(id))?;
            same_reqs(&mut o, r, id, &dv, node, version)?;
        }
        if let Some(x) = chosen.keys().chain(bad.iter().map(|b| &b.0)).find(|i| !seen.contains(*i)) {
            return fail("choice", format!("{x} is nobody's mod"));
        }
    }
    o.nontrivial(format!("{log:?} {model:?}").as_bytes());
    o.sample = Some(log.join("; ").chars().take(300).collect());
    Ok(o)
}
/// the requirements reported with the dependents mean what those asked for
fn same_reqs(o: &mut Obs, r: &mut Rng, id: &str, got: &[(String, String)], node: &Node, version: fn(&mut Rng) -> Version) -> Result<(), Fail> {
    if got.len() != node.asked.len() {
        return fail("dependents", format!("{id} is needed by {:?}, reported {got:?}", node.asked));
    }
    for (who, text) in got {
        let Some(q) = node.asked.iter().find(|a| a.0 == *who) else { return fail("dependents", format!("{who} does not need {id}")) };
        let Ok(t) = VersionReq::parse(text) else { return fail("dependents", format!("{id}: {text:?} is no requirement")) };
        for _ in 0..6 {
            let v = version(r);
            o.ev(1);
            if t.matches(&v) != q.1.ok(&v) {
                return fail("dependents", format!("{who} asks for {id} {}, the report says {text}", q.1.text));
            }
        }
    }
    Ok(())
}
pub fn g01(ctx: &Ctx) {
    ctx.rule("mods are added to the graph in rounds; combined requirements, choices, unresolved reports and dependents are compared with a model that evaluates requirements itself; non-trivial = distinct graphs");
    ctx.assume("the combined requirement is judged on versions for which the requirements mean the same taken one by one and together (they may not with pre-release tags); each mod is added once");
    ctx.cases("graph", ctx.n(60000, 1500000), |r, _| case(r, false));
    ctx.cases("tagged", ctx.n(30000, 600000), |r, _| case(r, true));
}
