//! Pak container properties P01..P05.
use crate::core::*;
use crate::pakref::{self, In, Opt, Ver};
use std::collections::BTreeMap;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use unreal_pak::pakversion::PakVersion;
use unreal_pak::{PakMemory, PakReader, PakWriter};

/// A stream that transfers at most `k` bytes per call: what real files, pipes
/// and buffered streams are allowed to do.
pub struct Short<S> {
    pub s: S,
    pub k: usize,
}
impl<S: Read> Read for Short<S> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.k.max(1));
        self.s.read(&mut b[..n])
    }
}
impl<S: Write> Write for Short<S> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.k.max(1));
        self.s.write(&b[..n])
    }
    fn flush(&mut self) -> io::Result<()> {
        self.s.flush()
    }
}
impl<S: Seek> Seek for Short<S> {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.s.seek(p)
    }
}

pub fn lib_ver(v: Ver) -> PakVersion {
    match (v.num, v.four_methods) {
        (1, _) => PakVersion::Initial,
        (2, _) => PakVersion::NoTimestamps,
        (3, _) => PakVersion::CompressionEncryption,
        (4, _) => PakVersion::IndexEncryption,
        (5, _) => PakVersion::RelativeChunkOffsets,
        (6, _) => PakVersion::DeleteRecords,
        (7, _) => PakVersion::EncryptionKeyGuid,
        (8, true) => PakVersion::FnameBasedCompressionMethodInitial,
        (8, false) => PakVersion::FnameBasedCompressionMethod,
        (9, _) => PakVersion::FrozenIndex,
        (10, _) => PakVersion::PathHashIndex,
        (11, _) => PakVersion::Fnv64BugFix,
        _ => PakVersion::Invalid,
    }
}
pub fn gen_ver(r: &mut Rng, max: u32) -> Ver {
    let num = r.range(1, max as usize) as u32;
    Ver { num, four_methods: num == 8 && r.bool() }
}
fn vname(v: Ver) -> String {
    format!("v{}{}", v.num, if v.four_methods { "a" } else { "" })
}
/// The same letters in another case: another name.
fn other_case(r: &mut Rng, s: &str) -> String {
    s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
}
pub fn gen_name(r: &mut Rng) -> String {
    match r.below(10) {
        0 => gen_string(r, 20).replace('\0', "_"),
        1 => format!("{}/{}", gen_ident(r), gen_string(r, 12)),
        2 => "x".repeat(r.range(200, 700)),
        _ => {
            let d = r.below(4);
            let mut s = String::new();
            for _ in 0..d {
                s.push_str(&gen_ident(r));
                s.push('/');
            }
            s.push_str(&gen_ident(r));
            if r.bool() {
                s.push_str(".uasset");
            }
            s
        }
    }
}
/// Lengths around every boundary the container has: the 32-byte compression
/// threshold and multiples of the block size.
fn gen_len(r: &mut Rng, block: usize) -> usize {
    let b = block.min(70000);
    match r.below(12) {
        0 => 0,
        1 => *r.pick(&[1, 31, 32, 33]),
        2 => b,
        3 => b + 1,
        4 => b.saturating_sub(1),
        5 => b * r.range(1, 4),
        6 => b * r.range(1, 4) + r.below(b.max(1)),
        7 => r.below(300),
        _ => r.below(2000),
    }
    .min(400_000)
}
fn gen_data(r: &mut Rng, block: usize) -> Vec<u8> {
    let n = gen_len(r, block);
    if r.chance(1, 6) {
        // archive magics inside user data
        let m = if r.bool() { [0xE1u8, 0x12, 0x6F, 0x5A] } else { [0x5A, 0x6F, 0x12, 0xE1] };
        return (0..n).map(|i| m[i % 4]).collect();
    }
    r.blob(n)
}
fn gen_block(r: &mut Rng) -> u32 {
    *r.pick(&[1u32, 7, 31, 32, 33, 64, 100, 1024, 4096, 0x10000, 0x10000, 0x10000, 0x20000])
}
fn show(e: &BTreeMap<String, Vec<u8>>) -> String {
    e.iter().take(4).map(|(k, v)| format!("{:?}:{}B", k.chars().take(20).collect::<String>(), v.len())).collect::<Vec<_>>().join(",")
}

/// Reads an archive through every reading interface and compares with `want`.
fn read_all_ways(r: &mut Rng, bytes: &[u8], base: usize, want: &BTreeMap<String, Vec<u8>>, mount: &str, o: &mut Obs, what: &str) -> Result<(), Fail> {
    let k = *r.pick(&[1usize, 3, 17, 4096, 1 << 20]);
    let k = if bytes.len() > 60_000 { k.max(4096) } else { k };
    let _ = base;
    let mut rd = PakReader::new(Short { s: Cursor::new(bytes), k });
    if let Err(e) = nopanic("panic", || format!("load_index of {what}"), || rd.load_index())? {
        return fail("unreadable", format!("{what}: index does not load: {e}"));
    }
    if rd.mount_point != mount {
        return fail("mount", format!("{what}: mount point {:?} read back as {:?}", mount, rd.mount_point));
    }
    let names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
    let wn: Vec<String> = want.keys().cloned().collect();
    let mut sorted = names.clone();
    sorted.sort();
    if sorted != wn {
        return fail("names", format!("{what}: entry names {:?}.. wanted {:?}..", &names[..names.len().min(20)], &wn[..wn.len().min(20)]));
    }
    // random access order, some entries twice
    let mut order: Vec<&String> = want.keys().chain(want.keys()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, r.below(i + 1));
    }
    for n in order.iter().take(24) {
        let got = nopanic("panic", || format!("read_entry {n:?} of {what}"), || rd.read_entry(n))?;
        match got {
            Err(e) => return fail("unreadable", format!("{what}: entry {n:?} ({} bytes): {e}", want[*n].len())),
            Ok(d) if d != want[*n] => return fail("content", format!("{what}: entry {n:?}: {} bytes written, {} different bytes read", want[*n].len(), d.len())),
            Ok(_) => o.ev(1),
        }
        if !rd.contains_entry(n) {
            return fail("contains", format!("{what}: contains_entry({n:?}) is false"));
        }
    }
    let missing = "no/such/entry\u{1}".to_string();
    if !want.contains_key(&missing) {
        if rd.contains_entry(&missing) || rd.read_entry(&missing).is_ok() {
            return fail("phantom", format!("{what}: an entry that was never added can be read"));
        }
    }
    let mut seen = BTreeMap::new();
    for (n, d) in rd.iter() {
        match d {
            Ok(d) => {
                if seen.insert(n.clone(), d).is_some() {
                    return fail("iter-dup", format!("{what}: iterator yields {n:?} twice"));
                }
            }
            Err(e) => return fail("unreadable", format!("{what}: iterating {n:?}: {e}")),
        }
    }
    if &seen != want {
        return fail("iter", format!("{what}: iteration yields different content"));
    }
    o.ev(want.len() as u64);
    let pm = nopanic("panic", || format!("PakMemory::load_from of {what}"), || PakMemory::load_from(&mut Short { s: Cursor::new(bytes), k }))?;
    match pm {
        Err(e) => return fail("unreadable", format!("{what}: in-memory load: {e}")),
        Ok(pm) => {
            let got: BTreeMap<String, Vec<u8>> = pm.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
            if &got != want || pm.mount_point != mount {
                return fail("content", format!("{what}: in-memory load differs"));
            }
            o.ev(want.len() as u64);
        }
    }
    Ok(())
}

fn written(r: &mut Rng, o: &mut Obs) -> Result<Option<(Vec<u8>, BTreeMap<String, Vec<u8>>, Ver, u32, String, usize, String)>, Fail> {
    let v = gen_ver(r, 9);
    let block = gen_block(r);
    let mount = match r.below(4) {
        0 => "../../../".to_string(),
        1 => gen_string(r, 30).replace('\0', ""),
        2 => String::new(),
        _ => format!("../../../{}/", gen_ident(r)),
    };
    let n = *r.pick(&[0usize, 1, 1, 2, 3, 5, 9]);
    let mut ents: Vec<(String, Vec<u8>, bool)> = vec![];
    for _ in 0..n {
        let nm = match ents.last() {
            Some(e) if r.chance(1, 10) => other_case(r, &e.0.clone()),
            _ => gen_name(r),
        };
        if ents.iter().any(|e| e.0 == nm) {
            continue;
        }
        let d = if block < 32 { let l = r.below(200); r.blob(l) } else { gen_data(r, block as usize) };
        ents.push((nm, d, r.bool()));
    }
    let want: BTreeMap<String, Vec<u8>> = ents.iter().map(|e| (e.0.clone(), e.1.clone())).collect();
    let mem = r.chance(1, 4);
    let any_comp = ents.iter().any(|e| e.2 && e.1.len() >= 32);
    let what = format!("{} {} block={block} {} [{}]", vname(v), if mem { "PakMemory" } else { "PakWriter" }, if any_comp { "compressed" } else { "stored" }, show(&want));
    let prefix = if r.chance(1, 4) { r.range(1, 60) } else { 0 };
    let mut cur = Cursor::new(r.bytes(prefix));
    cur.set_position(prefix as u64);
    let k = *r.pick(&[5usize, 64, 1 << 20]);
    let mut s = Short { s: cur, k };
    let res: Result<(), String> = nopanic("panic", || format!("writing {what}"), || {
        if mem {
            let mut p = PakMemory::new(lib_ver(v));
            p.mount_point = mount.clone();
            p.block_size = block;
            for (n, d, _) in &ents {
                p.set_entry(n.clone(), d.clone());
            }
            p.write(&mut s).map_err(|e| e.to_string())
        } else {
            let mut w = PakWriter::new(&mut s, lib_ver(v));
            w.mount_point = mount.clone();
            w.block_size = block;
            for (n, d, c) in &ents {
                w.write_entry(n, d, *c).map_err(|e| e.to_string())?;
            }
            w.finish_write().map_err(|e| e.to_string())
        }
    })?;
    let bytes = s.s.into_inner();
    if let Err(e) = res {
        if v.num < 3 && any_comp && !mem {
            o.class("refused: compression before the version that has it");
            return Ok(None);
        }
        return fail("write-refused", format!("{what}: writing failed: {e}"));
    }
    if v.num < 3 && any_comp && !mem {
        return fail("version", format!("{what}: compressed entries accepted by a version that has no compression"));
    }
    o.class(format!("{}/{}/{}", vname(v), if mem { "mem" } else { "writer" }, if any_comp && !mem { "zlib" } else { "stored" }));
    Ok(Some((bytes, want, v, block, mount, prefix, what)))
}

pub fn p01(ctx: &Ctx) {
    ctx.rule("Archives with 0-9 entries are built through PakWriter or PakMemory for every writable version, block sizes 1..128K, sizes at the compression threshold and block boundaries, hostile names, data full of archive magics, short-transfer streams and non-zero start offsets, then read through PakReader random access, PakReader iteration and PakMemory; non-trivial = at least one entry and a successful write.");
    let gen = |r: &mut Rng, _c: u64| -> CaseRes {
        let mut o = Obs::new();
        if let Some((bytes, want, _v, _b, mount, prefix, what)) = written(r, &mut o)? {
            read_all_ways(r, &bytes, prefix, &want, &mount, &mut o, &what)?;
            if !want.is_empty() {
                o.nontrivial(&bytes);
                o.sample = Some(what);
            }
        }
        Ok(o)
    };
    ctx.cases("roundtrip", ctx.n(24000, 480000), gen);
    // rewriting a loaded archive keeps its content
    ctx.cases("reload-rewrite", ctx.n(7200, 128000), |r, _| {
        let mut o = Obs::new();
        let Some((bytes, mut want, v, _b, mount, _p, what)) = written(r, &mut o)? else { return Ok(o) };
        let mut pm = PakMemory::load_from(&mut Cursor::new(&bytes)).map_err(|e| Fail { key: "unreadable".into(), msg: format!("{what}: {e}") })?;
        o.ev(1);
        if pm.pak_version != lib_ver(v) {
            return fail("version", format!("{what}: loaded as {:?}", pm.pak_version));
        }
        for _ in 0..r.below(3) {
            let n = gen_name(r);
            let l = r.below(500);
            let d = r.blob(l);
            pm.set_entry(n.clone(), d.clone());
            want.insert(n, d);
        }
        let mut out = Cursor::new(vec![]);
        if let Err(e) = nopanic("panic", || format!("rewriting {what}"), || pm.write(&mut out))? {
            return fail("write-refused", format!("rewriting {what}: {e}"));
        }
        let out = out.into_inner();
        let again = PakMemory::load_from(&mut Cursor::new(&out)).map_err(|e| Fail { key: "unreadable".into(), msg: format!("rewritten {what}: {e}") })?;
        o.ev(1);
        if again.pak_version != lib_ver(v) {
            return fail("version", format!("rewritten {what}: loaded as {:?}", again.pak_version));
        }
        read_all_ways(r, &out, 0, &want, &mount, &mut o, &format!("rewritten {what}"))?;
        o.nontrivial(&bytes);
        Ok(o)
    });
    // big entries crossing many default-size blocks
    ctx.cases("large", ctx.n(144, 1600), |r, _| {
        let mut o = Obs::new();
        let v = gen_ver(r, 9);
        let n = *r.pick(&[0x10000usize - 1, 0x10000, 0x10001, 0x20000, 0x20001, 300_000, 1_500_000]);
        let d = r.blob(n);
        let want: BTreeMap<String, Vec<u8>> = [("big".to_string(), d.clone()), ("small".to_string(), vec![7; 40])].into();
        let mut c = Cursor::new(vec![]);
        let mut w = PakWriter::new(&mut c, lib_ver(v));
        let comp = v.num >= 3;
        let rr = w.write_entry(&"big".into(), &d, comp).and_then(|_| w.write_entry(&"small".into(), &want["small"], comp)).and_then(|_| w.finish_write());
        if let Err(e) = rr {
            return fail("write-refused", format!("large {} {n}: {e}", vname(v)));
        }
        let b = c.into_inner();
        read_all_ways(r, &b, 0, &want, "../../../", &mut o, &format!("large {} {n}", vname(v)))?;
        o.nontrivial(&b);
        Ok(o)
    });
}

pub fn p02(ctx: &Ctx) {
    ctx.rule("(a) bytes written by the library are decoded by an independent strict decoder that checks every structural relation (footer position per version, SHA1s, duplicate headers, block offsets absolute/relative, block sizes, contiguity); (b) archives produced by an independent encoder (v1-v11, gaps, shuffled index, method slots, 4.22 footer, encoded path-hash index) are read by the library; non-trivial = at least one entry.");
    ctx.assume("the independent codec encodes the documented pak layout; the 4.22 entry header is taken to use a 32-bit method field as the library does");
    ctx.cases("written-layout", ctx.n(24000, 480000), |r, _| {
        let mut o = Obs::new();
        let Some((bytes, want, v, block, mount, prefix, what)) = written(r, &mut o)? else { return Ok(o) };
        if prefix != 0 {
            return Ok(o);
        }
        match pakref::decode_strict(&bytes, v, block) {
            Err(e) => fail("layout", format!("{what}: {e}")),
            Ok(a) => {
                let got: BTreeMap<String, Vec<u8>> = a.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
                if got != want || a.entries.len() != want.len() || a.mount != mount {
                    return fail("layout", format!("{what}: independent decoder finds different entries"));
                }
                for e in &a.entries {
                    o.class(format!("blocks:{}", e.blocks.min(5)));
                }
                o.ev(1 + want.len() as u64);
                if !want.is_empty() {
                    o.nontrivial(&bytes);
                }
                o.sample = Some(what);
                Ok(o)
            }
        }
    });
    // counts beyond what 16 bits hold
    ctx.cases("many-blocks", ctx.n(8, 40), |r, i| {
        let mut o = Obs::new();
        let vs = [3, 4, 5, 7, 8, 9];
        let v = if i < 6 { pakref::Ver { num: vs[i as usize], four_methods: false } } else { gen_ver(r, 9) };
        if v.num < 3 {
            return Ok(o);
        }
        let n = *r.pick(&[65535usize, 65536, 65537, 70000]);
        let d = r.blob(n);
        let want: BTreeMap<String, Vec<u8>> = [("big".to_string(), d.clone()), ("small".to_string(), vec![7; 40])].into();
        let mut c = Cursor::new(vec![]);
        let mut w = PakWriter::new(&mut c, lib_ver(v));
        w.block_size = 1;
        let rr = w.write_entry(&"big".into(), &d, true).and_then(|_| w.write_entry(&"small".into(), &want["small"], true)).and_then(|_| w.finish_write());
        if let Err(e) = rr {
            return fail("write-refused", format!("{n} blocks {}: {e}", vname(v)));
        }
        let b = c.into_inner();
        let a = pakref::decode_strict(&b, v, 1).map_err(|e| Fail { key: "layout".into(), msg: format!("{n} blocks {}: {e}", vname(v)) })?;
        let got: BTreeMap<String, Vec<u8>> = a.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
        if got != want {
            return fail("layout", format!("{n} blocks {}: independent decoder finds different entries", vname(v)));
        }
        read_all_ways(r, &b, 0, &want, "../../../", &mut o, &format!("{n} blocks {}", vname(v)))?;
        o.class("many blocks");
        o.nontrivial(&b);
        Ok(o)
    });
    ctx.cases("many-entries", ctx.n(8, 40), |r, _| {
        let mut o = Obs::new();
        let v = gen_ver(r, 9);
        let n = *r.pick(&[65535usize, 65536, 65537, 66000]);
        let want: BTreeMap<String, Vec<u8>> = (0..n).map(|i| (format!("f{i}"), vec![i as u8; i % 3])).collect();
        let mut c = Cursor::new(vec![]);
        let mut w = PakWriter::new(&mut c, lib_ver(v));
        for (k, d) in &want {
            if let Err(e) = w.write_entry(k, d, false) {
                return fail("write-refused", format!("{n} entries {}: {e}", vname(v)));
            }
        }
        if let Err(e) = w.finish_write() {
            return fail("write-refused", format!("{n} entries {}: {e}", vname(v)));
        }
        let b = c.into_inner();
        let a = pakref::decode_strict(&b, v, 0x10000).map_err(|e| Fail { key: "layout".into(), msg: format!("{n} entries {}: {e}", vname(v)) })?;
        let got: BTreeMap<String, Vec<u8>> = a.entries.iter().map(|e| (e.name.clone(), e.data.clone())).collect();
        if got != want {
            return fail("layout", format!("{n} entries {}: independent decoder finds different entries", vname(v)));
        }
        read_all_ways(r, &b, 0, &want, "../../../", &mut o, &format!("{n} entries {}", vname(v)))?;
        // and one an independent tool wrote
        let v = gen_ver(r, 11);
        let (_, op) = gen_foreign(r, 9);
        let op = Opt { v: crate::pakref::Ver { four_methods: v.four_methods && v.num == 8, ..v }, slot: 0, ..op };
        let ins: Vec<In> = want.iter().map(|(k, d)| In { name: k.clone(), data: d.clone(), compress: false, encrypted: false }).collect();
        let b = pakref::encode(&ins, &op);
        read_all_ways(r, &b, 0, &want, &op.mount, &mut o, &format!("{n} foreign entries {}", vname(op.v)))?;
        o.class("many entries");
        o.nontrivial(&b);
        Ok(o)
    });
    ctx.cases("foreign-archive", ctx.n(24000, 480000), |r, _| {
        let mut o = Obs::new();
        let (ins, op) = gen_foreign(r, 11);
        let bytes = pakref::encode(&ins, &op);
        let want: BTreeMap<String, Vec<u8>> = ins.iter().map(|i| (i.name.clone(), i.data.clone())).collect();
        let what = format!("foreign {} block={} slot={} gap={} [{}]", vname(op.v), op.block, op.slot, op.gap, show(&want));
        read_all_ways(r, &bytes, 0, &want, &op.mount, &mut o, &what)?;
        o.class(format!("foreign {}", vname(op.v)));
        if !want.is_empty() {
            o.nontrivial(&bytes);
        }
        o.sample = Some(what);
        Ok(o)
    });
    // the archives shipped with the project, produced by other tools
    let dir = "/repo/unreal_pak/testfiles";
    let mut files: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    files.sort();
    ctx.cases("shipped", files.len() as u64, |r, c| {
        let mut o = Obs::new();
        let f = &files[c as usize];
        let bytes = std::fs::read(f).unwrap();
        let mut rd = PakReader::new(Cursor::new(&bytes));
        rd.load_index().map_err(|e| Fail { key: "shipped".into(), msg: format!("{f:?}: {e}") })?;
        let want: BTreeMap<String, Vec<u8>> = rd.iter().filter_map(|(n, d)| d.ok().map(|d| (n.clone(), d))).collect();
        let mp = rd.mount_point.clone();
        read_all_ways(r, &bytes, 0, &want, &mp, &mut o, &f.display().to_string())?;
        o.nontrivial(&bytes);
        Ok(o)
    });
}
pub fn gen_foreign(r: &mut Rng, max: u32) -> (Vec<In>, Opt) {
    let mut v = gen_ver(r, max);
    if v.num >= 10 {
        v.four_methods = false;
    }
    let block = *r.pick(&[64usize, 100, 2048, 4096, 0x10000, 0x20000]);
    let n = r.below(7);
    let mut ins: Vec<In> = vec![];
    for _ in 0..n {
        let mut name = gen_name(r);
        if v.num >= 10 {
            name = name.trim_start_matches('/').to_string();
        }
        if ins.iter().any(|i| i.name == name) || (v.num >= 10 && name.is_empty()) {
            continue;
        }
        ins.push(In { name, data: gen_data(r, block), compress: r.bool(), encrypted: false });
    }
    let op = Opt {
        v,
        block,
        mount: if r.bool() { "../../../".into() } else { gen_string(r, 20).replace('\0', "") },
        slot: r.below(if v.four_methods { 4 } else { 5 }),
        gap: if r.chance(1, 3) { r.below(40) } else { 0 },
        legacy_flag: *r.pick(&[1, 1, 0x10, 0x20]),
        index_encrypted: false,
        shuffle_index: r.bool(),
        path_hash_present: r.bool(),
        big_fields: if r.chance(1, 3) { r.below(8) as u8 } else { 0 },
    };
    (ins, op)
}

// ------------------------------------------------------------------- P03
pub fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            return;
        }
        let n = b.len();
        // favour structural parts: the end of the file and the beginning
        let pos = match r.below(4) {
            0 => r.below(n),
            1 => n - 1 - r.below(n.min(260)),
            2 => r.below(n.min(120)),
            _ => {
                let from = n.saturating_sub(900);
                r.range(from, n - 1)
            }
        };
        match r.below(9) {
            0 => b[pos] ^= 1 << r.below(8),
            1 => b[pos] = r.u64() as u8,
            2 | 3 => {
                let x: u64 = *r.pick(&[0, 1, 2, 0x7f, 0x80, 0xff, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, i64::MAX as u64, u64::MAX, u64::MAX - 0x10, 1 << 40, 0x10000000, n as u64, n as u64 + 1]);
                let w = *r.pick(&[1usize, 2, 4, 8]);
                for i in 0..w {
                    if pos + i < n {
                        b[pos + i] = (x >> (8 * i)) as u8;
                    }
                }
            }
            4 => b.truncate(pos),
            5 => {
                let e = (pos + r.range(1, 16)).min(n);
                b.drain(pos..e);
            }
            6 => {
                let k = r.range(1, 16);
                let x = r.bytes(k);
                b.splice(pos..pos, x);
            }
            7 => {
                let l = r.range(1, 64).min(n);
                let s = r.below(n - l + 1);
                let x = b[s..s + l].to_vec();
                let e = (pos + l).min(n);
                b[pos..e].copy_from_slice(&x[..e - pos]);
            }
            _ => {
                let e = (pos + r.range(1, 12)).min(n);
                for x in &mut b[pos..e] {
                    *x = 0xff;
                }
            }
        }
    }
}
fn hostile(bytes: &[u8], o: &mut Obs, full: bool) -> Result<(), Fail> {
    let cap = (64 << 20) + bytes.len() * 1100;
    with_alloc_cap(cap, || -> Result<(), Fail> {
        let mut rd = PakReader::new(Cursor::new(bytes));
        let r = nopanic("panic", || "load_index of a malformed archive".into(), || rd.load_index())?;
        match r {
            Err(e) => o.class(format!("index refused: {}", short(&e.to_string()))),
            Ok(()) => {
                let names: Vec<String> = rd.get_entry_names().into_iter().cloned().collect();
                for n in names.iter().take(40) {
                    match nopanic("panic", || format!("read_entry {n:?} of a malformed archive"), || rd.read_entry(n))? {
                        Ok(_) => o.class("entry read"),
                        Err(e) => o.class(format!("entry refused: {}", short(&e.to_string()))),
                    }
                }
                if full {
                    nopanic("panic", || "iterating a malformed archive".into(), || rd.iter().take(40).filter(|(_, d)| d.is_ok()).count())?;
                }
            }
        }
        if full {
            nopanic("panic", || "in-memory load of a malformed archive".into(), || PakMemory::load_from(&mut Cursor::new(bytes)).map(|p| p.get_entry_names().len()).ok())?;
        }
        o.ev(1);
        Ok(())
    })
}
fn short(s: &str) -> String {
    s.chars().take(48).filter(|c| !c.is_ascii_digit()).collect()
}
pub fn p03(ctx: &Ctx) {
    ctx.rule("Valid archives of all versions are damaged (bit flips, boundary integers written over structural fields, truncation, deletion, insertion, splicing), plus exhaustive truncation of small archives and random bytes; each is opened, listed, extracted, iterated and loaded in memory under a panic trap and a cap on single allocation requests of 64 MiB + 1100 x file size; non-trivial = at least one byte differs from a valid archive.");
    ctx.cases("mutated", ctx.n(360000, 12000000), |r, _| {
        let mut o = Obs::new();
        let (ins, op) = {
            let (mut ins, op) = gen_foreign(r, 11);
            for i in &mut ins {
                i.data.truncate(600);
                i.name.truncate(i.name.char_indices().nth(20).map(|x| x.0).unwrap_or(i.name.len()));
            }
            ins.truncate(3);
            (ins, op)
        };
        let mut b = pakref::encode(&ins, &op);
        mutate(r, &mut b);
        hostile(&b, &mut o, true)?;
        o.nontrivial(&b);
        o.sample = Some(format!("damaged {} archive of {} bytes -> {:?}", vname(op.v), b.len(), o.classes));
        Ok(o)
    });
    // systematically overwrite each structural 32-bit word near the end
    ctx.cases("field-sweep", ctx.n(3600, 48000), |r, _| {
        let mut o = Obs::new();
        let (mut ins, op) = gen_foreign(r, 11);
        for i in &mut ins {
            i.data.truncate(80);
        }
        ins.truncate(2);
        let b = pakref::encode(&ins, &op);
        let n = b.len();
        for pos in n.saturating_sub(420)..n {
            for x in [0u32, 1, 0x7fffffff, 0x80000000, 0xffffffff] {
                let mut m = b.clone();
                for (i, by) in x.to_le_bytes().iter().enumerate() {
                    if pos + i < n {
                        m[pos + i] = *by;
                    }
                }
                hostile(&m, &mut o, false)?;
            }
        }
        o.classes.sort();
        o.classes.dedup();
        o.nontrivial(&b);
        Ok(o)
    });
    ctx.cases("truncations", ctx.n(1800, 24000), |r, _| {
        let mut o = Obs::new();
        let (mut ins, op) = gen_foreign(r, 11);
        for i in &mut ins {
            i.data.truncate(60);
        }
        ins.truncate(2);
        let b = pakref::encode(&ins, &op);
        for l in 0..b.len().min(700) {
            hostile(&b[..l], &mut o, false)?;
            hostile(&b[b.len() - l..], &mut o, false)?;
        }
        o.classes.sort();
        o.classes.dedup();
        o.nontrivial(&b);
        Ok(o)
    });
    ctx.cases("random-bytes", ctx.n(24000, 480000), |r, _| {
        let mut o = Obs::new();
        let n = r.below(600);
        let mut b = r.bytes(n);
        if b.len() > 44 && r.bool() {
            let off = *r.pick(&[0x2Cusize, 0xAC, 0xCC, 0xCD]);
            if b.len() >= off {
                let p = b.len() - off;
                b[p..p + 4].copy_from_slice(&pakref::MAGIC_LE.to_le_bytes());
                let v = r.below(14) as u32;
                b[p + 4..p + 8].copy_from_slice(&v.to_le_bytes());
                let io = r.below(n) as u64;
                b[p + 8..p + 16].copy_from_slice(&io.to_le_bytes());
            }
        }
        hostile(&b, &mut o, true)?;
        o.nontrivial(&b);
        Ok(o)
    });
}

// ------------------------------------------------------------------- P04
pub fn p04(ctx: &Ctx) {
    ctx.rule("Random operation histories (set, overwrite, query, load archive, write out, writer sessions with repeated names) run against the library and a plain ordered-map model; non-trivial = history with at least one overwrite, merge or rejected duplicate.");
    ctx.cases("memory-history", ctx.n(18000, 320000), |r, _| {
        let mut o = Obs::new();
        let v = gen_ver(r, 9);
        let mut pm = PakMemory::new(lib_ver(v));
        let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut mount = "../../../".to_string();
        if pm.mount_point != mount {
            return fail("default-mount", "new archive does not use the default mount point");
        }
        let mut pool: Vec<String> = (0..6).map(|_| gen_name(r)).collect();
        if r.chance(1, 4) {
            pool[1] = other_case(r, &pool[0]);
        }
        let mut trace = vec![];
        let mut nontriv = false;
        for _ in 0..r.range(3, 25) {
            match r.below(6) {
                0 | 1 => {
                    let n = r.pick(&pool).clone();
                    let l = r.below(200);
                    let d = r.blob(l);
                    nontriv |= model.contains_key(&n);
                    pm.set_entry(n.clone(), d.clone());
                    model.insert(n.clone(), d);
                    trace.push(format!("set {n:?}"));
                }
                2 => {
                    let n = r.pick(&pool);
                    if pm.get_entry(n) != model.get(n) || pm.contains_entry(n) != model.contains_key(n) {
                        return fail("lookup", format!("after {trace:?}: lookup of {n:?} differs from the model"));
                    }
                    o.ev(1);
                }
                3 => {
                    // merge another archive: its entries win, its header data is taken over
                    let (mut ins, op) = gen_foreign(r, 9);
                    for i in &mut ins {
                        i.data.truncate(300);
                        if r.bool() {
                            i.name = r.pick(&pool).clone();
                        }
                    }
                    let mut seen = std::collections::HashSet::new();
                    ins.retain(|i| seen.insert(i.name.clone()));
                    let op = Opt { slot: 0, ..op };
                    let b = pakref::encode(&ins, &op);
                    if let Err(e) = pm.load(&mut Cursor::new(&b)) {
                        return fail("unreadable", format!("merging a valid {} archive: {e}", vname(op.v)));
                    }
                    for i in ins {
                        model.insert(i.name, i.data);
                    }
                    mount = op.mount.clone();
                    nontriv = true;
                    trace.push("load".into());
                }
                4 => {
                    let names: Vec<String> = pm.get_entry_names().into_iter().cloned().collect();
                    let mut s = names.clone();
                    s.sort();
                    if s != model.keys().cloned().collect::<Vec<_>>() {
                        return fail("names", format!("after {trace:?}: names {names:?}"));
                    }
                    o.ev(1);
                }
                _ => {
                    let mut c = Cursor::new(vec![]);
                    if let Err(e) = nopanic("panic", || "write".into(), || pm.write(&mut c))? {
                        return fail("write-refused", format!("after {trace:?}: {e}"));
                    }
                    let b = c.into_inner();
                    read_all_ways(r, &b, 0, &model, &mount, &mut o, &format!("history {trace:?}"))?;
                    trace.push("write".into());
                    // writing is read-only
                    let got: BTreeMap<String, Vec<u8>> = (&pm).into_iter().map(|(a, b)| (a.clone(), b.clone())).collect();
                    if got != model || pm.mount_point != mount {
                        return fail("write-mutates", format!("after {trace:?}: writing changed the archive in memory"));
                    }
                }
            }
        }
        if nontriv {
            o.nontrivial(format!("{trace:?}").as_bytes());
            o.sample = Some(format!("{trace:?}"));
        }
        Ok(o)
    });
    ctx.cases("failed-load", ctx.n(9000, 160000), |r, _| {
        // a load that fails must not lose or alter entries already present under other names
        let mut o = Obs::new();
        let mut pm = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
        let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for i in 0..r.range(1, 5) {
            let d = r.blob(50);
            pm.set_entry(format!("keep/{i}"), d.clone());
            model.insert(format!("keep/{i}"), d);
        }
        let (mut ins, op) = gen_foreign(r, 9);
        for i in &mut ins {
            i.data.truncate(200);
            i.name = format!("new/{}", i.name.chars().take(8).collect::<String>());
        }
        let mut b = pakref::encode(&ins, &op);
        let l = b.len();
        b.truncate(l - r.range(1, l.min(60)));
        let res = nopanic("panic", || "failing load".into(), || pm.load(&mut Cursor::new(&b)))?;
        o.class(if res.is_err() { "load failed" } else { "load succeeded" });
        for (k, v) in &model {
            if pm.get_entry(k) != Some(v) {
                return fail("lost", format!("entry {k:?} lost or changed by a failing load"));
            }
            o.ev(1);
        }
        o.nontrivial(&b);
        Ok(o)
    });
    ctx.cases("writer-session", ctx.n(18000, 320000), |r, _| {
        let mut o = Obs::new();
        let v = gen_ver(r, 9);
        let mut c = Cursor::new(vec![]);
        let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        let mut pool: Vec<String> = (0..5).map(|_| gen_name(r)).collect();
        if r.chance(1, 4) {
            pool[1] = other_case(r, &pool[0]);
        }
        let mut dup = 0;
        {
            let mut w = PakWriter::new(&mut c, lib_ver(v));
            w.block_size = 64;
            for _ in 0..r.range(2, 14) {
                let n = r.pick(&pool).clone();
                let l = r.below(200);
                let d = r.blob(l);
                let comp = r.bool();
                let res = nopanic("panic", || "write_entry".into(), || w.write_entry(&n, &d, comp))?;
                let refuse = model.contains_key(&n) || (v.num < 3 && comp && l >= 32);
                match (res, refuse) {
                    (Ok(()), false) => {
                        model.insert(n, d);
                    }
                    (Err(_), true) => dup += 1,
                    (Ok(()), true) => return fail("duplicate-accepted", format!("{}: entry {n:?} accepted twice", vname(v))),
                    (Err(e), false) => return fail("write-refused", format!("{}: entry {n:?}: {e}", vname(v))),
                }
                let mut names: Vec<String> = w.get_entry_names().into_iter().cloned().collect();
                names.sort();
                if names != model.keys().cloned().collect::<Vec<_>>() {
                    return fail("names", "writer's entry list differs from what was accepted");
                }
                o.ev(1);
            }
            if let Err(e) = w.finish_write() {
                return fail("write-refused", format!("finish: {e}"));
            }
        }
        read_all_ways(r, &c.into_inner(), 0, &model, "../../../", &mut o, "writer session")?;
        o.class(format!("rejected duplicates: {}", dup.min(3)));
        if dup > 0 {
            o.nontrivial(format!("{v:?}{:?}", model.keys()).as_bytes());
        }
        Ok(o)
    });
}

// ------------------------------------------------------------------- P05
pub fn p05(ctx: &Ctx) {
    ctx.rule("Archives from the independent encoder are marked as using something the library does not support (encrypted index, encrypted entries, unknown format version, a compression method other than zlib) among supported entries; opening or reading must return an error for exactly those parts and correct data for the others; non-trivial = at least one unsupported part.");
    ctx.cases("unsupported", ctx.n(200000, 2000000), |r, _| {
        let mut o = Obs::new();
        let (mut ins, mut op) = gen_foreign(r, 11);
        for i in &mut ins {
            i.data.truncate(600);
        }
        let kind = r.below(4);
        let what = ["encrypted index", "encrypted entry", "unknown version", "unknown method"][kind];
        let v = op.v;
        match kind {
            0 if v.num >= 4 => op.index_encrypted = true,
            1 if v.num >= 3 => {
                for i in &mut ins {
                    i.encrypted = r.bool();
                }
            }
            2 => {}
            3 if v.num >= 8 => {
                // a number no slot belongs to
                if r.chance(1, 3) {
                    op.slot = r.range(if v.four_methods { 4 } else { 5 }, 62) as usize;
                }
            }
            // gzip, custom, and what no engine defines
            3 if v.num >= 3 => op.legacy_flag = *r.pick(&[2, 4, 8, 3, 0x40, 0x80, 0x100, 0x101, 0x10000, 0x8000_0000, u32::MAX]),
            _ => return Ok(o),
        }
        let mut b = pakref::encode(&ins, &op);
        let magic = b.len() - if v.num == 9 { 0xCD } else if v.four_methods { 0xAC } else if v.num >= 8 { 0xCC } else { 0x2C };
        if kind == 0 && r.bool() {
            b[magic - 1] = r.range(1, 255) as u8;
        }
        if kind == 2 {
            let bad = *r.pick(&[0u32, 12, 13, 255, 0x0100_0000, u32::MAX]);
            b[magic + 4..magic + 8].copy_from_slice(&bad.to_le_bytes());
        }
        if kind == 3 && v.num >= 8 && op.slot < if v.four_methods { 4 } else { 5 } {
            // the slot the entries refer to names something else
            let at = magic + 44 + if v.num == 9 { 1 } else { 0 } + op.slot * 32;
            let name: &[u8] = *r.pick(&[&b"Oodle"[..], b"Gzip", b"LZ4", b"zlib", b"Zlib2", b"ZLIB", b""]);
            b[at..at + 32].fill(0);
            b[at..at + name.len()].copy_from_slice(name);
        }
        let mut rd = PakReader::new(Cursor::new(&b));
        let res = nopanic("panic", || format!("load_index with {what}"), || rd.load_index())?;
        let mem = nopanic("panic", || format!("PakMemory load with {what}"), || PakMemory::load_from(&mut Cursor::new(&b)))?;
        o.class(format!("{what} {}", vname(v)));
        if kind == 0 || kind == 2 {
            o.ev(2);
            o.nontrivial(&b);
            if res.is_ok() {
                return fail("accepted", format!("{what} in {} archive was accepted by the reader", vname(v)));
            }
            if mem.is_ok() {
                return fail("accepted", format!("{what} in {} archive was accepted by the in-memory loader", vname(v)));
            }
            return Ok(o);
        }
        if let Err(e) = res {
            return fail("unreadable", format!("{what}: {} index does not load: {e}", vname(v)));
        }
        let refused = |i: &In| if kind == 1 { i.encrypted } else { i.compress && !i.data.is_empty() };
        for i in &ins {
            let g = nopanic("panic", || format!("read_entry with {what}"), || rd.read_entry(&i.name))?;
            o.ev(1);
            match (g, refused(i)) {
                (Ok(_), true) => return fail("accepted", format!("{} {what}: {:?} returned as if it were plain", vname(v), i.name)),
                (Ok(d), false) if d == i.data => {}
                (Ok(_), false) => return fail("content", format!("{} {what}: supported entry {:?} returned wrong data", vname(v), i.name)),
                (Err(_), true) => {}
                (Err(e), false) => return fail("unreadable", format!("{} {what}: supported entry {:?}: {e}", vname(v), i.name)),
            }
        }
        let any = ins.iter().any(refused);
        if mem.is_ok() == any {
            return fail("accepted", format!("{} {what}: in-memory load {} although {} entries are unsupported", vname(v), if any { "succeeded" } else { "failed" }, ins.iter().filter(|i| refused(i)).count()));
        }
        if any {
            o.nontrivial(&b);
        }
        Ok(o)
    });
    ctx.cases("unwritable-version", ctx.n(20, 200), |r, _| {
        // versions the writer does not implement are refused, not written in another layout
        let mut o = Obs::new();
        for pv in [PakVersion::PathHashIndex, PakVersion::Fnv64BugFix, PakVersion::Invalid] {
            let mut w = PakWriter::new(Cursor::new(vec![]), pv);
            let d = r.blob(40);
            let a = nopanic("panic", || format!("write_entry {pv:?}"), || w.write_entry(&"a".to_string(), &d, false))?;
            let f = nopanic("panic", || format!("finish_write {pv:?}"), || w.finish_write())?;
            let mut pm = PakMemory::new(pv);
            pm.set_entry("a".into(), d.clone());
            let m = nopanic("panic", || format!("PakMemory write {pv:?}"), || pm.write(&mut Cursor::new(vec![])))?;
            if (a.is_ok() && f.is_ok()) || m.is_ok() {
                // a tree that implements the version must produce something readable
                let mut c = Cursor::new(vec![]);
                let mut w = PakWriter::new(&mut c, pv);
                let _ = w.write_entry(&"a".to_string(), &d, false);
                let _ = w.finish_write();
                let mut rd = PakReader::new(Cursor::new(c.into_inner()));
                if rd.load_index().is_err() || rd.read_entry(&"a".to_string()).ok() != Some(d) {
                    return fail("unreadable", format!("{pv:?}: write reported success but the archive does not read back"));
                }
            }
            o.ev(2);
        }
        Ok(o)
    });
}

// ------------------------------------------------------------------- P06
#[derive(Clone, Copy, Debug)]
pub enum Fault {
    None,
    /// every write fails once this many bytes were accepted
    Full(usize),
    /// the k-th write call fails once
    Call(usize),
    /// flush fails
    Flush,
    /// every j-th transfer reports "interrupted" (must be retried)
    Interrupt(usize),
    /// the sink accepts nothing after n bytes (write returns 0)
    Zero(usize),
    /// the k-th call transfers nothing once
    Nothing(usize),
    /// the k-th seek fails
    Seek(usize),
}
pub struct FaultIo {
    pub c: Cursor<Vec<u8>>,
    pub f: Fault,
    pub calls: usize,
    pub seeks: usize,
    pub fired: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    pub out: std::sync::Arc<std::sync::Mutex<Vec<u8>>>,
}
impl FaultIo {
    fn fire(&self, k: io::ErrorKind) -> io::Error {
        self.fired.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        io::Error::new(k, "injected")
    }
}
impl Write for FaultIo {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        let mut n = b.len();
        match self.f {
            Fault::Full(k) => {
                let have = self.c.get_ref().len();
                if have >= k && n > 0 {
                    return Err(self.fire(io::ErrorKind::Other));
                }
                n = n.min(k - have);
            }
            Fault::Zero(k) => {
                let have = self.c.get_ref().len();
                if have >= k {
                    let _ = self.fire(io::ErrorKind::Other);
                    return Ok(0);
                }
                n = n.min(k - have);
            }
            Fault::Call(k) if self.calls == k => return Err(self.fire(io::ErrorKind::Other)),
            Fault::Nothing(k) if self.calls == k => {
                let _ = self.fire(io::ErrorKind::Other);
                return Ok(0);
            }
            Fault::Interrupt(j) if self.calls % j == 0 => return Err(self.fire(io::ErrorKind::Interrupted)),
            _ => {}
        }
        let w = self.c.write(&b[..n])?;
        *self.out.lock().unwrap() = self.c.get_ref().clone();
        Ok(w)
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.f {
            Fault::Flush => Err(self.fire(io::ErrorKind::Other)),
            _ => Ok(()),
        }
    }
}
impl Read for FaultIo {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        match self.f {
            Fault::Call(k) if self.calls == k => return Err(self.fire(io::ErrorKind::Other)),
            Fault::Nothing(k) if self.calls == k => {
                let _ = self.fire(io::ErrorKind::Other);
                return Ok(0);
            }
            Fault::Interrupt(j) if self.calls % j == 0 => return Err(self.fire(io::ErrorKind::Interrupted)),
            _ => {}
        }
        self.c.read(b)
    }
}
impl Seek for FaultIo {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.seeks += 1;
        if let Fault::Seek(k) = self.f {
            if self.seeks == k {
                return Err(self.fire(io::ErrorKind::Other));
            }
        }
        self.c.seek(p)
    }
}
pub fn p06(ctx: &Ctx) {
    use std::sync::atomic::Ordering;
    ctx.rule("One archive is written to a healthy sink, then to sinks that fail at a chosen byte, call, seek or flush, report a full device, accept zero bytes once or for good, or interrupt transfers, bare or behind a buffered writer; if every call reported success the bytes that reached the sink must equal the healthy ones. Readers over failing streams must return an error or the exact data and recover afterwards; non-trivial = the injected fault fired.");
    ctx.cases("write-faults", ctx.n(36000, 720000), |r, _| {
        let mut o = Obs::new();
        let v = gen_ver(r, 9);
        let compress = r.bool() && v.num >= 3;
        let n = r.below(6);
        let mut es: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for _ in 0..n {
            let l = *r.pick(&[0usize, 10, 40, 200, 1000]);
            es.insert(gen_ident(r), r.blob(l));
        }
        let memory = r.bool();
        let write = |f: Fault, buf: Option<usize>| -> (Result<(), String>, Vec<u8>, usize, usize, usize) {
            let fired = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let out = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
            let io_ = FaultIo { c: Cursor::new(vec![]), f, calls: 0, seeks: 0, fired: fired.clone(), out: out.clone() };
            fn go<W: Write + Seek>(w: W, v: PakVersion, es: &BTreeMap<String, Vec<u8>>, compress: bool, memory: bool) -> (Result<(), String>, Option<W>) {
                if memory {
                    let mut pm = PakMemory::new(v);
                    for (k, d) in es {
                        pm.set_entry(k.clone(), d.clone());
                    }
                    let mut w = w;
                    let r = pm.write(&mut w).map_err(|e| e.to_string());
                    (r, Some(w))
                } else {
                    let mut pw = PakWriter::new(w, v);
                    pw.block_size = 64;
                    for (k, d) in es {
                        if let Err(e) = pw.write_entry(k, d, compress) {
                            return (Err(e.to_string()), None);
                        }
                    }
                    (pw.finish_write().map_err(|e| e.to_string()), None)
                }
            }
            let (res, seeks, calls) = match buf {
                None => {
                    let mut io_ = io_;
                    let r = go(&mut io_, lib_ver(v), &es, compress, memory).0;
                    (r, io_.seeks, io_.calls)
                }
                Some(cap) => {
                    let (r, w) = go(io::BufWriter::with_capacity(cap, io_), lib_ver(v), &es, compress, memory);
                    // what a caller that drops the writer after success gets
                    drop(w);
                    (r, 0, 0)
                }
            };
            let b = out.lock().unwrap().clone();
            (res, b, fired.load(Ordering::SeqCst), seeks, calls)
        };
        let (res, good, _, seeks, calls) = write(Fault::None, None);
        if let Err(e) = res {
            return fail("write-refused", format!("healthy write failed: {e}"));
        }
        for _ in 0..6 {
            let f = match r.below(7) {
                6 => Fault::Nothing(r.range(1, calls.max(1))),
                0 => Fault::Full(r.below(good.len())),
                1 => Fault::Call(r.range(1, calls.max(1))),
                2 => Fault::Flush,
                3 => Fault::Interrupt(r.range(2, 5)),
                4 => Fault::Zero(r.below(good.len())),
                _ => Fault::Seek(r.range(1, seeks.max(1))),
            };
            let buf = *r.pick(&[None, Some(1usize), Some(64), Some(8192), Some(1 << 20)]);
            let (res, b, fired, _, _) = nopanic("panic", || format!("writing with {f:?}"), || write(f, buf))?;
            o.ev(1);
            let name = format!("{f:?}").split('(').next().unwrap().to_string();
            o.class(format!("{name} {} {} -> {}", if buf.is_some() { "buffered" } else { "bare" }, if fired > 0 { "fired" } else { "not reached" }, if res.is_ok() { "Ok" } else { "Err" }));
            if res.is_ok() && b != good {
                return fail("success-reported", format!("{} {} sink with {f:?} (buffer {buf:?}): success reported but {} of {} bytes reached the sink", vname(v), if memory { "PakMemory" } else { "PakWriter" }, b.len(), good.len()));
            }
            if res.is_err() && (fired == 0 || matches!(f, Fault::Interrupt(_))) {
                return fail("spurious", format!("write failed although the sink recovered: {f:?}: {}", res.unwrap_err()));
            }
            if fired > 0 {
                o.nontrivial(format!("{v:?}{f:?}{buf:?}{}", fnv(&good)).as_bytes());
            }
        }
        Ok(o)
    });
    ctx.cases("read-faults", ctx.n(36000, 720000), |r, _| {
        let mut o = Obs::new();
        let (mut ins, op) = gen_foreign(r, 11);
        for i in &mut ins {
            i.data.truncate(700);
        }
        let b = pakref::encode(&ins, &op);
        let fired = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let interrupts = r.bool();
        let f = if interrupts { Fault::Interrupt(r.range(2, 6)) } else if r.bool() { Fault::Call(r.range(1, 60)) } else if r.bool() { Fault::Nothing(r.range(1, 60)) } else { Fault::Seek(r.range(1, 30)) };
        let io_ = FaultIo { c: Cursor::new(b.clone()), f, calls: 0, seeks: 0, fired: fired.clone(), out: Default::default() };
        let mut rd = PakReader::new(io_);
        let mut tries = 0;
        loop {
            tries += 1;
            match nopanic("panic", || format!("load_index with {f:?}"), || rd.load_index())? {
                Ok(()) => break,
                Err(e) if interrupts => return fail("spurious", format!("interrupted read reported as failure: {e}")),
                Err(e) if fired.load(Ordering::SeqCst) == 0 || tries > 2 => return fail("spurious", format!("index does not load after a transient fault: {e}")),
                Err(_) => o.class("index load failed, retried"),
            }
        }
        for i in &ins {
            let mut tries = 0;
            loop {
                tries += 1;
                match nopanic("panic", || format!("read_entry with {f:?}"), || rd.read_entry(&i.name))? {
                    Ok(d) if d == i.data => break,
                    Ok(d) => return fail("content", format!("{} with {f:?}: entry {:?}: wrong data ({} bytes, wanted {})", vname(op.v), i.name, d.len(), i.data.len())),
                    Err(e) if interrupts => return fail("spurious", format!("interrupted read reported as failure: {e}")),
                    Err(e) if fired.load(Ordering::SeqCst) == 0 || tries > 2 => return fail("spurious", format!("entry does not read after a transient fault: {e}")),
                    Err(_) => o.class("entry read failed, retried"),
                }
            }
            o.ev(1);
        }
        if fired.load(Ordering::SeqCst) > 0 {
            o.nontrivial(&b);
            o.class(format!("read fault {}", format!("{f:?}").split('(').next().unwrap()));
        }
        Ok(o)
    });
}
