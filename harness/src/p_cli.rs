//! Command line tool: C01 pack/unpack identity, C02 containment, C03 exit status under faults.
//! The tool runs as an unprivileged user inside a scratch directory; every path a hostile
//! archive names resolves inside that directory even if the tool does not contain it.
use crate::core::*;
use crate::p_pak;
use crate::pakref::{self, In};
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;
use unreal_pak::PakReader;

const NOBODY: u32 = 65534;
type Tree = BTreeMap<String, Vec<u8>>;
static N: AtomicU64 = AtomicU64::new(0);

fn root() -> &'static (PathBuf, PathBuf, bool) {
    static R: OnceLock<(PathBuf, PathBuf, bool)> = OnceLock::new();
    R.get_or_init(|| {
        let base = std::env::var("VH_SCRATCH").map(PathBuf::from).unwrap_or_else(|_| std::env::temp_dir().join(format!("vh-cli-{}", std::process::id())));
        let d = base.join("cli");
        std::fs::create_dir_all(&d).unwrap();
        let exe = d.join("unreal_pak_cli");
        std::fs::copy(format!("{}/target/debug/unreal_pak_cli", crate::verif_dir()), &exe).expect("cli binary");
        for p in [&base, &d, &exe] {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        // can we drop to an unprivileged user and still execute here?
        let drop = unsafe { libc::geteuid() } == 0
            && Command::new(&exe).arg("--version").uid(NOBODY).gid(NOBODY).stdout(Stdio::null()).stderr(Stdio::null()).status().map(|s| s.success()).unwrap_or(false);
        (d, exe, drop)
    })
}
/// A fresh directory owned by the unprivileged user, removed on drop.
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Self {
        let d = root().0.join(format!("c{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&d).unwrap();
        own(&d);
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn own(p: &Path) {
    if root().2 {
        let _ = std::os::unix::fs::chown(p, Some(NOBODY), Some(NOBODY));
    }
}
fn put_tree(dir: &Path, t: &Tree) -> std::io::Result<()> {
    for (k, v) in t {
        let p = dir.join(k);
        std::fs::create_dir_all(p.parent().unwrap())?;
        std::fs::write(&p, v)?;
    }
    chown_all(dir);
    Ok(())
}
fn chown_all(dir: &Path) {
    own(dir);
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                chown_all(&p);
            } else {
                own(&p);
            }
        }
    }
}
fn get_tree(dir: &Path) -> Tree {
    fn walk(base: &Path, d: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(d) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let ty = e.file_type().unwrap();
            if ty.is_dir() {
                walk(base, &p, t);
            } else if ty.is_file() {
                t.insert(p.strip_prefix(base).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default());
            } else {
                t.insert(format!("{} (not a file)", p.display()), vec![]);
            }
        }
    }
    let mut t = Tree::new();
    walk(dir, dir, &mut t);
    t
}
struct Out {
    code: Option<i32>,
    err: String,
}
fn run(cwd: &Path, args: &[&str], fsize: Option<u64>) -> Out {
    let (_, exe, drop) = root();
    let mut c = Command::new(exe);
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
    if *drop {
        c.uid(NOBODY).gid(NOBODY);
    }
    if let Some(k) = fsize {
        unsafe {
            c.pre_exec(move || {
                libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
                let l = libc::rlimit { rlim_cur: k, rlim_max: k };
                libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                Ok(())
            });
        }
    }
    let o = c.output().expect("run cli");
    Out { code: o.status.code(), err: String::from_utf8_lossy(&o.stderr).chars().take(200).collect() }
}
fn gen_tree(r: &mut Rng, min: usize) -> Tree {
    let mut t = Tree::new();
    let n = r.range(min, 9);
    for _ in 0..n {
        let depth = r.below(4);
        let mut p = String::new();
        for _ in 0..depth {
            p.push_str(&seg(r));
            p.push('/');
        }
        p.push_str(&seg(r));
        let l = *r.pick(&[0usize, 1, 31, 32, 33, 500, 4096, 0x10000 - 1, 0x10000, 0x10001, 150_000]);
        let d = r.blob(l);
        // a path cannot be both a file and a directory
        if t.keys().any(|k: &String| k.starts_with(&format!("{p}/")) || p.starts_with(&format!("{k}/"))) {
            continue;
        }
        t.insert(p, d);
    }
    t
}
fn seg(r: &mut Rng) -> String {
    match r.below(8) {
        0 => r.pick(&["...", ".hidden", "a..b", "..x", "x..", "con", " ", "a b", "é", "日本", "😀", "%2e%2e", "~", "-n", "$HOME", "*", "'q'"]).to_string(),
        1 => gen_ident(r).repeat(4),
        _ => {
            let mut s = gen_ident(r);
            if r.bool() {
                s.push_str(r.pick(&[".uasset", ".umap", ".pak", ".json", ".tar.gz", "."]));
            }
            s
        }
    }
}
fn diff(a: &Tree, b: &Tree) -> String {
    for (k, v) in a {
        match b.get(k) {
            None => return format!("{k:?} ({} bytes) is missing", v.len()),
            Some(w) if w != v => return format!("{k:?}: {} bytes became {} different bytes", v.len(), w.len()),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return format!("unexpected {k:?}");
        }
    }
    "same".into()
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("Random directory trees (nested, odd names, empty and multi-block files) are packed and unpacked by the built tool through absolute, relative and defaulted paths, with and without compression, over an existing larger output file; the unpacked tree must equal the input and both check modes must accept; non-trivial = at least two files.");
    ctx.assume("names are valid Unicode without backslashes; trees hold regular files and directories");
    let _ = root();
    ctx.cases("pack-unpack", ctx.n(1000, 20000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let t = gen_tree(r, 0);
        let ind = s.0.join("in.d");
        std::fs::create_dir_all(&ind).unwrap();
        put_tree(&ind, &t).unwrap();
        let explicit = r.bool();
        let nc = r.bool();
        let style = r.below(4);
        let (inarg, pak) = match style {
            0 => (ind.display().to_string(), s.0.join("o.pak")),
            1 => ("in.d".to_string(), s.0.join("o.pak")),
            2 => ("./in.d/".to_string(), s.0.join("o.pak")),
            _ => ("in.d/../in.d".to_string(), s.0.join("o.pak")),
        };
        let pak = if explicit { pak } else { s.0.join("in.d.pak") };
        if r.bool() {
            // an older, larger archive is replaced
            std::fs::write(&pak, vec![0x5Au8; 400_000]).unwrap();
            own(&pak);
        }
        let mut args = vec!["create", &inarg];
        let pakarg = if style == 0 { pak.display().to_string() } else { pak.file_name().unwrap().to_string_lossy().into_owned() };
        if explicit {
            args.push(&pakarg);
        }
        if nc {
            args.push("--no-compression");
        }
        let c = run(&s.0, &args, None);
        if c.code != Some(0) {
            return fail("create", format!("create {args:?} exited {:?}: {}", c.code, c.err));
        }
        for cmd in ["check", "check-header"] {
            let c = run(&s.0, &[cmd, &pakarg], None);
            if c.code != Some(0) {
                return fail("check", format!("{cmd} of a freshly created archive exited {:?}: {}", c.code, c.err));
            }
            o.ev(1);
        }
        let outd = if r.bool() { s.0.join("x/y/out") } else { pak.with_extension("") };
        let oa = outd.display().to_string();
        let mut t = t;
        if outd.ends_with("out") && r.bool() {
            // the folder exists: unrelated files stay, older versions of entries are replaced
            let mut old = Tree::new();
            old.insert("unrelated dir/kept.bin".into(), r.bytes(50));
            old.insert("kept.bin".into(), r.bytes(9));
            old.retain(|k, _| !t.keys().any(|x| x == k || x.starts_with("kept.bin/") || x == "unrelated dir"));
            for k in t.keys() {
                if r.bool() {
                    old.insert(k.clone(), vec![0x77; t[k].len() + r.below(300)]);
                }
            }
            std::fs::create_dir_all(&outd).unwrap();
            put_tree(&outd, &old).unwrap();
            chown_all(&s.0.join("x"));
            for (k, v) in old {
                t.entry(k).or_insert(v);
            }
            o.class("extracted over an existing folder");
        }
        let c = if outd.ends_with("out") { run(&s.0, &["extract", &pakarg, &oa], None) } else if !explicit {
            // defaulted output folder would be the input folder: move it away first
            std::fs::rename(&ind, s.0.join("moved")).unwrap();
            run(&s.0, &["extract", &pakarg], None)
        } else {
            run(&s.0, &["extract", &pakarg], None)
        };
        if c.code != Some(0) {
            return fail("extract", format!("extract exited {:?}: {}", c.code, c.err));
        }
        let got = get_tree(&outd);
        if got != t {
            return fail("tree", format!("packed and unpacked tree differs: {} (compression {})", diff(&t, &got), !nc));
        }
        o.ev(t.len() as u64 + 1);
        o.class(format!("style {style} explicit {explicit} compressed {}", !nc));
        if t.len() >= 2 {
            o.nontrivial(format!("{:?}", t.keys()).as_bytes());
            o.sample = Some(format!("{} files, e.g. {:?}", t.len(), t.keys().next()));
        }
        Ok(o)
    });
}

/// names that try to leave the output folder, all resolving inside the scratch directory
fn hostile_name(r: &mut Rng, scratch: &Path) -> String {
    let leaf = gen_ident(r);
    let up = |n: usize| "../".repeat(n);
    match r.below(12) {
        0 => format!("{}{leaf}", up(r.range(1, 4))),
        1 => format!("a/{}{leaf}", up(r.range(2, 4))),
        2 => format!("{}/abs/{leaf}", scratch.display()),
        3 => format!("a/b/../../{}{leaf}", up(r.range(1, 3))),
        4 => format!("./{}{leaf}", up(1)),
        5 => format!("a/./{}{leaf}", up(3)),
        6 => format!("//{}", scratch.join(&leaf).display().to_string().trim_start_matches('/')),
        7 => format!("..//{leaf}"),
        8 => format!("{}sibling/{leaf}", up(1)),
        9 => format!("a//..//..//{leaf}"),
        10 => format!("{}out-evil/{leaf}", up(1)),
        _ => format!("a/../{}out/../{leaf}", up(1)),
    }
}
pub fn c02(ctx: &Ctx) {
    ctx.rule("Archives from the independent encoder (v2-v11) mix ordinary entries with names built from parent, absolute, doubled-separator and dot components at varying depth; the built tool extracts them as an unprivileged user into a folder several levels deep in a scratch directory whose every other file is recorded before and after; non-trivial = at least one escaping name.");
    ctx.assume("the output folder holds no symbolic links before extraction");
    let _ = root();
    ctx.cases("extract", ctx.n(1500, 30000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let depth = s.0.join("l1/l2/l3/l4");
        std::fs::create_dir_all(&depth).unwrap();
        // bystanders that must not change
        let mut by = Tree::new();
        for k in ["canary", "l1/canary", "l1/l2/canary", "l1/l2/l3/canary", "l1/l2/l3/l4/canary", "l1/l2/l3/l4/sibling/canary", "abs/canary"] {
            by.insert(k.into(), k.as_bytes().to_vec());
        }
        put_tree(&s.0, &by).unwrap();
        let outd = depth.join("out");
        let mut ins: Vec<In> = vec![];
        let benign_only = r.chance(1, 5);
        for _ in 0..r.range(1, 6) {
            let name = if !benign_only && r.bool() {
                if r.chance(1, 5) {
                    // straight at a bystander
                    let n = *r.pick(&["../canary", "../sibling/canary", "../../canary", "a/../../canary"]);
                    n.to_string()
                } else {
                    hostile_name(r, &s.0)
                }
            } else {
                let t = gen_tree(r, 1);
                t.keys().next().unwrap().clone()
            };
            if ins.iter().any(|i| i.name == name || i.name.starts_with(&format!("{name}/")) || name.starts_with(&format!("{}/", i.name))) {
                continue;
            }
            let l = r.below(300);
            ins.push(In { name, data: r.blob(l), compress: r.bool(), encrypted: false });
        }
        let (_, mut op) = p_pak::gen_foreign(r, 11);
        if op.v.num < 2 || op.v.num >= 10 {
            // path-hash indexes drop a leading separator; keep names as written
            op.v = pakref::ver(*r.pick(&[2u32, 3, 5, 7, 8, 9]));
            op.slot = 0;
        }
        op.block = 4096;
        let b = pakref::encode(&ins, &op);
        let pak = s.0.join("l1/h.pak");
        std::fs::write(&pak, &b).unwrap();
        own(&pak);
        by.insert("l1/h.pak".into(), b);
        let c = if r.bool() { run(&depth, &["extract", &pak.display().to_string(), "out"], None) } else { run(&s.0, &["extract", "l1/h.pak", &outd.display().to_string()], None) };
        if c.code.is_none() {
            return fail("crash", format!("extract was killed by a signal: {}", c.err));
        }
        let all = get_tree(&s.0);
        let inside: Tree = get_tree(&outd);
        let outside: Tree = all.into_iter().filter(|(k, _)| !k.starts_with("l1/l2/l3/l4/out/")).collect();
        o.ev(outside.len() as u64);
        if outside != by {
            return fail("escape", format!("extracting names {:?} changed files outside the output folder: {}", ins.iter().map(|i| &i.name).collect::<Vec<_>>(), diff(&by, &outside)));
        }
        // success means every record is there, under its own name
        if c.code == Some(0) {
            for i in &ins {
                let norm: PathBuf = Path::new(&i.name).components().filter(|c| matches!(c, std::path::Component::Normal(_))).collect();
                let escaping = Path::new(&i.name).components().any(|c| matches!(c, std::path::Component::ParentDir | std::path::Component::RootDir));
                if !escaping && inside.get(&norm.to_string_lossy().into_owned()) != Some(&i.data) {
                    return fail("lost", format!("extract reported success but {:?} is not in the output", i.name));
                }
                o.ev(1);
            }
        } else if benign_only {
            return fail("refused", format!("ordinary names {:?} refused: {}", ins.iter().map(|i| &i.name).collect::<Vec<_>>(), c.err));
        }
        let esc = ins.iter().filter(|i| Path::new(&i.name).components().any(|c| matches!(c, std::path::Component::ParentDir | std::path::Component::RootDir))).count();
        o.class(format!("{} escaping names, exit {:?}", esc.min(2), c.code));
        if esc > 0 {
            o.nontrivial(format!("{:?}", ins.iter().map(|i| &i.name).collect::<Vec<_>>()).as_bytes());
            o.sample = Some(format!("{:?} -> exit {:?}", ins.iter().map(|i| &i.name).collect::<Vec<_>>(), c.code));
        }
        Ok(o)
    });
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("The built tool packs and unpacks under injected faults: file size limits at chosen bytes, a full device, unreadable files and directories, missing inputs, damaged archives, files in the way of folders; exit 0 is compared with what is really on disk; non-trivial = a fault was in effect.");
    let dropped = root().2;
    if !dropped {
        ctx.assume("unreadable-file faults were skipped: could not drop privileges");
    }
    ctx.cases("create-limit", ctx.n(500, 8000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let t = gen_tree(r, 1);
        let ind = s.0.join("in");
        std::fs::create_dir_all(&ind).unwrap();
        put_tree(&ind, &t).unwrap();
        let c = run(&s.0, &["create", "in", "good.pak"], None);
        if c.code != Some(0) {
            return fail("create", format!("create exited {:?}: {}", c.code, c.err));
        }
        let good = std::fs::read(s.0.join("good.pak")).unwrap();
        for _ in 0..3 {
            let k = match r.below(4) {
                0 => r.below(good.len() + 20),
                1 => good.len() - r.range(1, good.len().min(300)),
                2 => good.len(),
                _ => r.below(64),
            };
            let c = run(&s.0, &["create", "in", "lim.pak"], Some(k as u64));
            let got = std::fs::read(s.0.join("lim.pak")).unwrap_or_default();
            o.ev(1);
            o.class(format!("{} limit -> exit {:?}", if k < good.len() { "too small" } else { "sufficient" }, c.code.map(|x| x.min(1))));
            if c.code == Some(0) && got != good {
                return fail("success-reported", format!("create exited 0 with {} of {} bytes written (limit {k})", got.len(), good.len()));
            }
            if c.code != Some(0) && k >= good.len() {
                return fail("spurious", format!("create exited {:?} although the archive fits: {}", c.code, c.err));
            }
            if k < good.len() {
                o.nontrivial(format!("{k}{:?}", t.keys()).as_bytes());
            }
        }
        if Path::new("/dev/full").exists() {
            let c = run(&s.0, &["create", "in", "/dev/full"], None);
            o.ev(1);
            if c.code == Some(0) {
                return fail("success-reported", "create exited 0 writing to a full device".to_string());
            }
        }
        Ok(o)
    });
    ctx.cases("extract-limit", ctx.n(500, 8000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let t = gen_tree(r, 1);
        let ins: Vec<In> = t.iter().map(|(k, v)| In { name: k.clone(), data: v.clone(), compress: r.bool(), encrypted: false }).collect();
        let (_, mut op) = p_pak::gen_foreign(r, 9);
        op.block = 4096;
        let b = pakref::encode(&ins, &op);
        std::fs::write(s.0.join("a.pak"), &b).unwrap();
        let max = t.values().map(|v| v.len()).max().unwrap_or(0);
        let k = if r.bool() { r.below(max + 2) } else { max };
        let blocker = r.chance(1, 3);
        let mut args = vec!["extract", "a.pak", "out"];
        let mut expect_fail = k < max;
        if blocker {
            // something is in the way of an entry: a folder where the file goes, a file where one
            // of its folders goes, or a folder that may not be written to
            let keys: Vec<&String> = t.keys().collect();
            let first = keys[r.below(keys.len())];
            let p = s.0.join("out").join(first);
            let deep = first.contains('/');
            match r.below(3) {
                1 if deep => {
                    let parts: Vec<&str> = first.split('/').collect();
                    let n = 1 + r.below(parts.len() - 1);
                    let f = s.0.join("out").join(parts[..n].join("/"));
                    std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                    std::fs::write(&f, b"").unwrap();
                    chown_all(&s.0.join("out"));
                }
                2 => {
                    // owned by somebody else, so neither files nor folders can be added
                    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
                    let mut q = p.parent().unwrap().to_path_buf();
                    while q != s.0 {
                        std::fs::set_permissions(&q, std::os::unix::fs::PermissionsExt::from_mode(0o555)).unwrap();
                        q = q.parent().unwrap().to_path_buf();
                    }
                }
                _ => {
                    std::fs::create_dir_all(&p).unwrap();
                    chown_all(&s.0.join("out"));
                }
            }
            expect_fail = true;
        }
        if r.chance(1, 12) {
            args = vec!["extract", "missing.pak", "out"];
            expect_fail = true;
        }
        let c = run(&s.0, &args, Some(k as u64));
        let got = get_tree(&s.0.join("out"));
        o.ev(1);
        o.class(format!("expect_fail {expect_fail} exit {:?}", c.code.map(|x| x.min(1))));
        if c.code == Some(0) && got != t {
            return fail("success-reported", format!("extract exited 0 but {} (limit {k}, blocker {blocker})", diff(&t, &got)));
        }
        if c.code != Some(0) && !expect_fail {
            return fail("spurious", format!("extract exited {:?}: {}", c.code, c.err));
        }
        if expect_fail {
            o.nontrivial(format!("{k}{blocker}{:?}", t.keys()).as_bytes());
        }
        Ok(o)
    });
    ctx.cases("create-unreadable", ctx.n(300, 5000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let t = gen_tree(r, 1);
        let ind = s.0.join("in");
        std::fs::create_dir_all(&ind).unwrap();
        put_tree(&ind, &t).unwrap();
        let missing = r.chance(1, 6) || !dropped;
        let mut hidden = None;
        if !missing {
            let k = t.keys().nth(r.below(t.len())).unwrap();
            let p = ind.join(k);
            // the file itself or the folder it is in
            let p = if r.bool() { p } else { p.parent().unwrap().to_path_buf() };
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o000)).unwrap();
            hidden = Some(p);
        }
        let c = run(&s.0, &["create", if missing { "absent" } else { "in" }, "o.pak"], None);
        if let Some(p) = &hidden {
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        o.ev(1);
        o.class(format!("{} -> exit {:?}", if missing { "missing input" } else { "unreadable input" }, c.code.map(|x| x.min(1))));
        if c.code == Some(0) {
            return fail("success-reported", if missing { "create of a missing directory exited 0".to_string() } else { format!("create exited 0 although {:?} could not be read", hidden) });
        }
        o.nontrivial(format!("{hidden:?}{:?}", t.keys()).as_bytes());
        Ok(o)
    });
    // two files that would have to get the same name in the archive
    ctx.cases("create-colliding", ctx.n(150, 2000), |r, _| {
        use std::os::unix::ffi::OsStrExt;
        let mut o = Obs::new();
        let s = Scratch::new();
        let t = gen_tree(r, 1);
        let ind = s.0.join("in");
        std::fs::create_dir_all(&ind).unwrap();
        put_tree(&ind, &t).unwrap();
        let pair: [&[u8]; 2] = if r.bool() { [b"q\\r", b"q/r"] } else { [b"q\xff", b"q\xfe"] };
        for p in pair {
            let p = ind.join(std::ffi::OsStr::from_bytes(p));
            let _ = std::fs::create_dir_all(p.parent().unwrap());
            let n = r.below(300);
            if std::fs::write(&p, r.bytes(n)).is_err() {
                return Ok(o);
            }
        }
        let c = run(&s.0, &["create", "in", "o.pak"], None);
        o.ev(1);
        o.class(format!("colliding names -> exit {:?}", c.code.map(|x| x.min(1))));
        if c.code == Some(0) {
            let n = std::fs::read(s.0.join("o.pak")).ok().and_then(|b| {
                let mut p = unreal_pak::PakReader::new(std::io::Cursor::new(b));
                p.load_index().ok().map(|_| p.get_entry_names().len())
            });
            if n != Some(t.len() + 2) {
                return fail("success-reported", format!("create exited 0 with {n:?} of {} files packed, two of them with names that collide: {:?}", t.len() + 2, pair.map(String::from_utf8_lossy)));
            }
        }
        o.nontrivial(format!("{pair:?}{:?}", t.keys()).as_bytes());
        Ok(o)
    });
    ctx.cases("damaged", ctx.n(1200, 15000), |r, _| {
        let mut o = Obs::new();
        let s = Scratch::new();
        let mut t = gen_tree(r, 1);
        for v in t.values_mut() {
            v.truncate(5000);
        }
        let ins: Vec<In> = t.iter().map(|(k, v)| In { name: k.clone(), data: v.clone(), compress: r.bool(), encrypted: false }).collect();
        let (_, mut op) = p_pak::gen_foreign(r, 9);
        op.block = 4096;
        let mut b = pakref::encode(&ins, &op);
        if r.chance(4, 5) {
            match r.below(3) {
                0 => {
                    let l = b.len();
                    b.truncate(l - r.range(1, l.min(400)));
                }
                _ => {
                    let n = r.range(1, 40);
                    for _ in 0..n {
                        let i = r.below(b.len());
                        b[i] = r.u64() as u8;
                    }
                }
            }
        }
        std::fs::write(s.0.join("a.pak"), &b).unwrap();
        // what the library can read of it
        let mut rd = PakReader::new(std::io::Cursor::new(&b));
        let head = guard(|| rd.load_index().is_ok()).unwrap_or(false);
        let mut lib = Tree::new();
        let mut all = head;
        if head {
            for (n, d) in rd.iter() {
                match d {
                    Ok(d) => {
                        lib.insert(n.clone(), d);
                    }
                    Err(_) => all = false,
                }
            }
        }
        let ch = run(&s.0, &["check-header", "a.pak"], None);
        let ck = run(&s.0, &["check", "a.pak"], None);
        o.ev(2);
        o.class(format!("index {} entries {}", if head { "ok" } else { "bad" }, if all { "ok" } else { "bad" }));
        if (ch.code == Some(0)) != head {
            return fail("check-header", format!("check-header exited {:?} for an index that {}", ch.code, if head { "loads" } else { "does not load" }));
        }
        if (ck.code == Some(0)) != all {
            return fail("check", format!("check exited {:?} although the entries {}", ck.code, if all { "all read" } else { "do not all read" }));
        }
        let safe = lib.keys().all(|k| !k.is_empty() && Path::new(k).components().all(|c| matches!(c, std::path::Component::Normal(_))) && !k.contains('\0'));
        if safe {
            let ex = run(&s.0, &["extract", "a.pak", "out"], None);
            o.ev(1);
            if ex.code == Some(0) {
                let got = get_tree(&s.0.join("out"));
                if !all || got.len() > lib.len() || lib.iter().any(|(k, v)| !k.ends_with('/') && !k.contains("//") && got.get(k) != Some(v)) {
                    return fail("success-reported", format!("extract of a damaged archive exited 0: {}", diff(&lib, &got)));
                }
            }
        }
        o.nontrivial(&b);
        Ok(o)
    });
}
