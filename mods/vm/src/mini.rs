//! An independent encoder and decoder of cooked UE 4.23 packages (header and bulk
//! file), enough for the packages that mod integration reads and writes. Used by
//! the monitors and by the build script that makes the starter packages.
#![allow(dead_code)]

pub type Nm = (String, i32);
pub fn nm(s: &str) -> Nm {
    (s.to_string(), 0)
}
#[derive(Clone, Debug, PartialEq)]
pub struct Im {
    pub package: Nm,
    pub class: Nm,
    pub outer: i32,
    pub name: Nm,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Ex {
    pub class: i32,
    pub sup: i32,
    pub template: i32,
    pub outer: i32,
    pub name: Nm,
    pub flags: u32,
    pub bools: [i32; 5], // forced, not client, not server, not always loaded, is asset
    pub guid: [u8; 16],
    pub pkg_flags: u32,
    pub deps: [Vec<i32>; 4],
    pub body: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Pk {
    pub names: Vec<String>,
    pub imports: Vec<Im>,
    pub exports: Vec<Ex>,
    pub folder: String,
    pub flags: u32,
    pub guid: [u8; 16],
    pub soft: Vec<String>,
    pub depends: Vec<Vec<i32>>,
    /// has an export file
    pub split: bool,
}
fn put_s(o: &mut Vec<u8>, s: &str) {
    if s.is_empty() {
        o.extend(0i32.to_le_bytes());
    } else if s.is_ascii() {
        o.extend(((s.len() + 1) as i32).to_le_bytes());
        o.extend(s.as_bytes());
        o.push(0);
    } else {
        let w: Vec<u16> = s.encode_utf16().collect();
        o.extend((-((w.len() + 1) as i32)).to_le_bytes());
        w.iter().for_each(|c| o.extend(c.to_le_bytes()));
        o.extend([0, 0]);
    }
}
fn put_i(o: &mut Vec<u8>, v: i32) {
    o.extend(v.to_le_bytes());
}
/// the property list of an object, written with the package's names
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Str(String),
    Bool(bool),
    Byte(Nm, Nm),
    Enum(Nm, Nm),
    Obj(i32),
    Name(Nm),
    Int(i32),
    Objs(Vec<i32>),
    /// type extras and payload of anything else
    Raw(String, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct P {
    pub name: Nm,
    pub dup: i32,
    pub guid: Option<[u8; 16]>,
    pub v: V,
}
pub fn p(name: &str, v: V) -> P {
    P { name: nm(name), dup: 0, guid: None, v }
}
impl Pk {
    pub fn new(folder: &str) -> Pk {
        Pk { folder: folder.into(), flags: 0x8000_0000, split: true, names: vec!["None".into()], ..Default::default() }
    }
    pub fn n(&mut self, s: &str) -> i32 {
        match self.names.iter().position(|x| x == s) {
            Some(i) => i as i32,
            None => {
                self.names.push(s.into());
                self.names.len() as i32 - 1
            }
        }
    }
    fn put_n(&mut self, o: &mut Vec<u8>, v: &Nm) {
        let i = self.n(&v.0);
        put_i(o, i);
        put_i(o, v.1);
    }
    pub fn import(&mut self, package: &str, class: &str, outer: i32, name: &str) -> i32 {
        let im = Im { package: nm(package), class: nm(class), outer, name: nm(name) };
        if let Some(i) = self.imports.iter().position(|x| *x == im) {
            return -(i as i32) - 1;
        }
        self.imports.push(im);
        -(self.imports.len() as i32)
    }
    pub fn list(&mut self, l: &[P]) -> Vec<u8> {
        let mut o = vec![];
        for q in l {
            self.put_n(&mut o, &q.name);
            let (ty, mut extra, mut body) = match &q.v {
                V::Str(_) => ("StrProperty", vec![], vec![]),
                V::Bool(b) => ("BoolProperty", vec![*b as u8], vec![]),
                V::Byte(..) => ("ByteProperty", vec![], vec![]),
                V::Enum(..) => ("EnumProperty", vec![], vec![]),
                V::Obj(_) => ("ObjectProperty", vec![], vec![]),
                V::Name(_) => ("NameProperty", vec![], vec![]),
                V::Int(_) => ("IntProperty", vec![], vec![]),
                V::Objs(_) => ("ArrayProperty", vec![], vec![]),
                V::Raw(..) => unreachable!(),
            };
            match &q.v {
                V::Str(s) => put_s(&mut body, s),
                V::Byte(t, v) | V::Enum(t, v) => {
                    self.put_n(&mut extra, t);
                    self.put_n(&mut body, v);
                }
                V::Obj(i) | V::Int(i) => put_i(&mut body, *i),
                V::Name(v) => self.put_n(&mut body, v),
                V::Objs(v) => {
                    self.put_n(&mut extra, &nm("ObjectProperty"));
                    put_i(&mut body, v.len() as i32);
                    v.iter().for_each(|i| put_i(&mut body, *i));
                }
                _ => {}
            }
            self.put_n(&mut o, &nm(ty));
            put_i(&mut o, body.len() as i32);
            put_i(&mut o, q.dup);
            o.extend(extra);
            o.push(q.guid.is_some() as u8);
            o.extend(q.guid.iter().flatten());
            o.extend(body);
        }
        self.put_n(&mut o, &nm("None"));
        o
    }
    /// list, then the four bytes every plain object ends with
    pub fn object(&mut self, l: &[P]) -> Vec<u8> {
        let mut o = self.list(l);
        put_i(&mut o, 0);
        o
    }
    pub fn table(&mut self, row_struct: i32, rows: &[(Nm, Vec<P>)]) -> Vec<u8> {
        let mut o = self.list(&[p("RowStruct", V::Obj(row_struct))]);
        put_i(&mut o, 0);
        put_i(&mut o, rows.len() as i32);
        for (n, l) in rows {
            self.put_n(&mut o, n);
            let b = self.list(l);
            o.extend(b);
        }
        o
    }
    pub fn level(&mut self, l: &[P], actors: &[i32], rest: &[u8]) -> Vec<u8> {
        let mut o = self.list(l);
        put_i(&mut o, 0);
        put_i(&mut o, actors.len() as i32);
        actors.iter().for_each(|a| put_i(&mut o, *a));
        // url: protocol, host, map, portal, options, port, valid
        put_s(&mut o, "unreal");
        put_s(&mut o, "");
        put_s(&mut o, "/Game/Maps/Base");
        put_s(&mut o, "");
        put_i(&mut o, 0);
        put_i(&mut o, 7777);
        put_i(&mut o, 1);
        // model, model components, script, nav list start and end
        for i in [0, 0, 0, 0, 0] {
            put_i(&mut o, i);
        }
        o.extend(rest);
        o
    }
    pub fn encode(&mut self) -> (Vec<u8>, Option<Vec<u8>>) {
        let mut hashes: Vec<u8> = vec![];
        let ims = self.imports.clone();
        let mut imb = vec![];
        for i in &ims {
            self.put_n(&mut imb, &i.package);
            self.put_n(&mut imb, &i.class);
            put_i(&mut imb, i.outer);
            self.put_n(&mut imb, &i.name);
        }
        let exs = self.exports.clone();
        let exn: Vec<Vec<u8>> = exs
            .iter()
            .map(|e| {
                let mut o = vec![];
                self.put_n(&mut o, &e.name);
                o
            })
            .collect();
        for n in &self.names {
            put_s(&mut hashes, n);
            put_i(&mut hashes, 0);
        }
        let mut off = [0i64; 10];
        let mut w = vec![];
        for _ in 0..2 {
            w = vec![0xc1, 0x83, 0x2a, 0x9e];
            put_i(&mut w, -7);
            // unversioned: legacy UE3, UE4, licensee, custom versions
            for _ in 0..4 {
                put_i(&mut w, 0);
            }
            put_i(&mut w, off[0] as i32);
            put_s(&mut w, &self.folder);
            w.extend(self.flags.to_le_bytes());
            put_i(&mut w, self.names.len() as i32);
            put_i(&mut w, off[1] as i32);
            put_i(&mut w, 0);
            put_i(&mut w, 0);
            put_i(&mut w, exs.len() as i32);
            put_i(&mut w, off[3] as i32);
            put_i(&mut w, ims.len() as i32);
            put_i(&mut w, off[2] as i32);
            put_i(&mut w, off[4] as i32);
            put_i(&mut w, self.soft.len() as i32);
            put_i(&mut w, off[5] as i32);
            put_i(&mut w, 0); // searchable names
            put_i(&mut w, 0); // thumbnails
            w.extend(self.guid);
            put_i(&mut w, 1);
            put_i(&mut w, exs.len() as i32);
            put_i(&mut w, self.names.len() as i32);
            for _ in 0..2 {
                // engine version: three numbers, changelist, branch
                w.extend([0; 10]);
                put_i(&mut w, 0);
            }
            put_i(&mut w, 0); // compression
            put_i(&mut w, 0);
            put_i(&mut w, 0); // source
            put_i(&mut w, 0); // additional packages
            put_i(&mut w, off[6] as i32); // asset registry
            w.extend(off[9].to_le_bytes());
            put_i(&mut w, 0); // world tile
            put_i(&mut w, 0); // chunks
            let nd: usize = exs.iter().flat_map(|e| &e.deps).map(|d| d.len()).sum();
            put_i(&mut w, if self.split { nd as i32 } else { -1 });
            put_i(&mut w, off[7] as i32);
            off[1] = w.len() as i64;
            w.extend(&hashes);
            off[2] = w.len() as i64;
            w.extend(&imb);
            off[3] = w.len() as i64;
            let mut at = off[8];
            let mut first = 0;
            for (e, name) in exs.iter().zip(&exn) {
                for i in [e.class, e.sup, e.template, e.outer] {
                    put_i(&mut w, i);
                }
                w.extend(name);
                w.extend(e.flags.to_le_bytes());
                w.extend((e.body.len() as i64).to_le_bytes());
                w.extend(at.to_le_bytes());
                at += e.body.len() as i64;
                for b in &e.bools[..3] {
                    put_i(&mut w, *b);
                }
                w.extend(e.guid);
                w.extend(e.pkg_flags.to_le_bytes());
                for b in &e.bools[3..] {
                    put_i(&mut w, *b);
                }
                put_i(&mut w, if self.split { first } else { -1 });
                for d in &e.deps {
                    put_i(&mut w, d.len() as i32);
                    first += d.len() as i32;
                }
            }
            off[4] = w.len() as i64;
            for i in 0..exs.len() {
                let d = self.depends.get(i).cloned().unwrap_or_default();
                put_i(&mut w, d.len() as i32);
                d.iter().for_each(|i| put_i(&mut w, *i));
            }
            off[5] = w.len() as i64;
            self.soft.iter().for_each(|s| put_s(&mut w, s));
            off[6] = w.len() as i64;
            put_i(&mut w, 0);
            off[7] = w.len() as i64;
            if self.split {
                exs.iter().flat_map(|e| &e.deps).flatten().for_each(|d| put_i(&mut w, *d));
            }
            off[8] = w.len() as i64;
            off[0] = off[8];
            off[9] = off[8] + exs.iter().map(|e| e.body.len() as i64).sum::<i64>();
        }
        let mut tail: Vec<u8> = exs.iter().flat_map(|e| e.body.clone()).collect();
        tail.extend([0xc1, 0x83, 0x2a, 0x9e]);
        if self.split {
            (w, Some(tail))
        } else {
            w.extend(tail);
            (w, None)
        }
    }
}

// ---------------------------------------------------------------- decoding
pub struct R<'a>(pub &'a [u8], pub usize);
type Res<T> = Result<T, String>;
impl<'a> R<'a> {
    pub fn take(&mut self, n: usize) -> Res<&'a [u8]> {
        let e = self.1.checked_add(n).filter(|e| *e <= self.0.len()).ok_or(format!("{n} bytes at {} run past the end ({})", self.1, self.0.len()))?;
        let r = &self.0[self.1..e];
        self.1 = e;
        Ok(r)
    }
    pub fn i(&mut self) -> Res<i32> {
        Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }
    fn l(&mut self) -> Res<i64> {
        Ok(i64::from_le_bytes(self.take(8)?.try_into().unwrap()))
    }
    fn count(&mut self) -> Res<usize> {
        let c = self.i()?;
        if c < 0 || c as usize > self.0.len() {
            return Err(format!("count {c}"));
        }
        Ok(c as usize)
    }
    pub fn s(&mut self) -> Res<String> {
        let n = self.i()?;
        if n == 0 {
            return Ok(String::new());
        }
        if n > 0 {
            let b = self.take(n as usize)?;
            if b[n as usize - 1] != 0 || !b.is_ascii() {
                return Err(format!("string {b:?}"));
            }
            Ok(String::from_utf8(b[..n as usize - 1].to_vec()).unwrap())
        } else {
            let n = n.unsigned_abs() as usize;
            let b = self.take(n.checked_mul(2).ok_or("length")?)?;
            let w: Vec<u16> = b.chunks(2).map(|c| u16::from_le_bytes([c[0], c[1]])).collect();
            if w[n - 1] != 0 {
                return Err("unterminated wide string".into());
            }
            String::from_utf16(&w[..n - 1]).map_err(|e| e.to_string())
        }
    }
    fn n(&mut self, names: &[String]) -> Res<Nm> {
        let i = self.i()?;
        let k = self.i()?;
        Ok((names.get(i as usize).ok_or(format!("name {i} of {}", names.len()))?.clone(), k))
    }
    fn idx(&mut self) -> Res<Vec<i32>> {
        let c = self.count()?;
        (0..c).map(|_| self.i()).collect()
    }
    pub fn list(&mut self, names: &[String]) -> Res<Vec<P>> {
        let mut out = vec![];
        loop {
            let name = self.n(names)?;
            if name == nm("None") {
                return Ok(out);
            }
            let ty = self.n(names)?.0;
            let size = self.count()?;
            let dup = self.i()?;
            let mut flag = 0;
            let mut kind = nm("");
            match &ty[..] {
                "BoolProperty" => flag = self.take(1)?[0],
                "ByteProperty" | "EnumProperty" | "ArrayProperty" | "SetProperty" => kind = self.n(names)?,
                "MapProperty" => {
                    self.n(names)?;
                    self.n(names)?;
                }
                "StructProperty" => {
                    kind = self.n(names)?;
                    self.take(16)?;
                }
                _ => {}
            }
            let guid = match self.take(1)?[0] {
                0 => None,
                1 => Some(self.take(16)?.try_into().unwrap()),
                x => return Err(format!("guid flag {x} of {name:?}")),
            };
            let mut b = R(self.take(size)?, 0);
            let v = match &ty[..] {
                "BoolProperty" => V::Bool(flag != 0),
                "StrProperty" => V::Str(b.s()?),
                "ByteProperty" if size == 8 => V::Byte(kind, b.n(names)?),
                "EnumProperty" => V::Enum(kind, b.n(names)?),
                "ObjectProperty" => V::Obj(b.i()?),
                "NameProperty" => V::Name(b.n(names)?),
                "IntProperty" => V::Int(b.i()?),
                "ArrayProperty" if kind.0 == "ObjectProperty" => V::Objs(b.idx()?),
                _ => V::Raw(ty.clone(), b.take(size)?.to_vec()),
            };
            if b.1 != size {
                return Err(format!("{ty} {name:?} declares {size} bytes and uses {}", b.1));
            }
            out.push(P { name, dup, guid, v });
        }
    }
}
pub struct Table {
    pub list: Vec<P>,
    pub rows: Vec<(Nm, Vec<P>)>,
}
pub fn read_table(b: &[u8], names: &[String]) -> Res<Table> {
    let mut r = R(b, 0);
    let list = r.list(names)?;
    if r.i()? != 0 {
        return Err("bytes before the rows".into());
    }
    let n = r.count()?;
    let mut rows = vec![];
    for _ in 0..n {
        let name = r.n(names)?;
        rows.push((name, r.list(names)?));
    }
    if r.1 != b.len() {
        return Err(format!("{} bytes after the rows", b.len() - r.1));
    }
    Ok(Table { list, rows })
}
pub fn read_object(b: &[u8], names: &[String]) -> Res<(Vec<P>, Vec<u8>)> {
    let mut r = R(b, 0);
    let l = r.list(names)?;
    Ok((l, b[r.1..].to_vec()))
}
/// properties, actors, everything after
pub fn read_level(b: &[u8], names: &[String]) -> Res<(Vec<P>, Vec<i32>, Vec<u8>)> {
    let mut r = R(b, 0);
    let l = r.list(names)?;
    r.i()?;
    let a = r.idx()?;
    Ok((l, a, b[r.1..].to_vec()))
}
/// strict: every offset, count and size is where the content puts it
pub fn decode(main: &[u8], exp: Option<&[u8]>) -> Res<Pk> {
    let mut r = R(main, 0);
    if r.take(4)? != [0xc1, 0x83, 0x2a, 0x9e] {
        return Err("magic".into());
    }
    let want = |what: &str, got: i64, want: i64| if got == want { Ok(()) } else { Err(format!("{what} is {got}, should be {want}")) };
    want("legacy version", r.i()? as i64, -7)?;
    for what in ["UE3 version", "UE4 version", "licensee version", "custom versions"] {
        want(what, r.i()? as i64, 0)?;
    }
    let total = r.i()?;
    let folder = r.s()?;
    let flags = r.i()? as u32;
    let nn = r.count()?;
    let o_names = r.i()?;
    r.take(8)?;
    let ne = r.count()?;
    let o_exp = r.i()?;
    let ni = r.count()?;
    let o_imp = r.i()?;
    let o_dep = r.i()?;
    let ns = r.count()?;
    let o_soft = r.i()?;
    r.take(8)?;
    let guid: [u8; 16] = r.take(16)?.try_into().unwrap();
    want("generations", r.i()? as i64, 1)?;
    want("generation exports", r.i()? as i64, ne as i64)?;
    want("generation names", r.i()? as i64, nn as i64)?;
    r.take(28 + 16)?;
    let o_reg = r.i()?;
    let o_bulk = r.l()?;
    r.take(8)?;
    let nd = r.i()?;
    let o_pre = r.i()?;
    want("names offset", o_names as i64, r.1 as i64)?;
    let mut names = vec![];
    for _ in 0..nn {
        names.push(r.s()?);
        r.i()?;
    }
    if ni > 0 {
        want("imports offset", o_imp as i64, r.1 as i64)?;
    }
    let mut imports = vec![];
    for _ in 0..ni {
        imports.push(Im { package: r.n(&names)?, class: r.n(&names)?, outer: r.i()?, name: r.n(&names)? });
    }
    want("exports offset", o_exp as i64, r.1 as i64)?;
    let mut exports = vec![];
    let mut at = total as i64;
    let mut firsts = vec![];
    for _ in 0..ne {
        let mut e = Ex { class: r.i()?, sup: r.i()?, template: r.i()?, outer: r.i()?, name: r.n(&names)?, flags: r.i()? as u32, ..Default::default() };
        let size = r.l()?;
        want("export offset", r.l()?, at)?;
        for i in 0..3 {
            e.bools[i] = r.i()?;
        }
        e.guid = r.take(16)?.try_into().unwrap();
        e.pkg_flags = r.i()? as u32;
        for i in 3..5 {
            e.bools[i] = r.i()?;
        }
        firsts.push((r.i()?, [r.i()?, r.i()?, r.i()?, r.i()?]));
        let from = match exp {
            Some(_) => at - total as i64,
            None => at,
        };
        let src = exp.unwrap_or(main);
        let (a, b) = (usize::try_from(from).map_err(|e| e.to_string())?, usize::try_from(from + size).map_err(|e| e.to_string())?);
        e.body = src.get(a..b).ok_or("export past the end")?.to_vec();
        at += size;
        exports.push(e);
    }
    want("bulk data offset", o_bulk, at)?;
    want("depends offset", o_dep as i64, r.1 as i64)?;
    let mut depends = vec![];
    for _ in 0..ne {
        depends.push(r.idx()?);
    }
    if ns > 0 {
        want("soft references offset", o_soft as i64, r.1 as i64)?;
    }
    let mut soft = vec![];
    for _ in 0..ns {
        soft.push(r.s()?);
    }
    want("registry offset", o_reg as i64, r.1 as i64)?;
    want("registry entries", r.i()? as i64, 0)?;
    want("preload offset", o_pre as i64, r.1 as i64)?;
    if exp.is_some() {
        let mut first = 0;
        for (e, (f, c)) in exports.iter_mut().zip(&firsts) {
            want("first dependency", *f as i64, first)?;
            for k in 0..4 {
                for _ in 0..c[k] {
                    e.deps[k].push(r.i()?);
                }
                first += c[k] as i64;
            }
        }
        want("dependency count", nd as i64, first)?;
    }
    want("header size", total as i64, r.1 as i64)?;
    let end = match exp {
        Some(x) => &x[usize::try_from(at - total as i64).unwrap_or(0).min(x.len())..],
        None => &main[usize::try_from(at).unwrap_or(0).min(main.len())..],
    };
    if end != [0xc1, 0x83, 0x2a, 0x9e] {
        return Err(format!("end of package is {end:?}"));
    }
    let k = (ne as i32, ni as i32);
    let ok = |i: i32| (-k.1..=k.0).contains(&i);
    for i in &imports {
        if !ok(i.outer) {
            return Err(format!("import {:?} is inside object {}, of {k:?}", i.name, i.outer));
        }
    }
    for e in &exports {
        if let Some(i) = [e.class, e.sup, e.template, e.outer].iter().chain(e.deps.iter().flatten()).find(|i| !ok(**i)) {
            return Err(format!("export {:?} refers to object {i}, of {k:?}", e.name));
        }
    }
    Ok(Pk { names, imports, exports, folder, flags, guid, soft, depends, split: exp.is_some() })
}
impl Pk {
    /// readable identity of an object reference
    pub fn path(&self, i: i32) -> String {
        if i == 0 {
            return "-".into();
        }
        if i < 0 {
            let m = &self.imports[(-i - 1) as usize];
            return format!("{}'{}.{}#{}'", m.class.0, if m.outer == 0 { String::new() } else { self.path(m.outer) }, m.name.0, m.name.1);
        }
        format!("export{i}")
    }
}

// ---------------------------------------------------------------- starters
pub const COLUMNS: [&str; 8] = [
    "Name_2_1D7C7DA24A6E4A9D8A4C4F0B9E1B8A11",
    "Author_5_2D7C7DA24A6E4A9D8A4C4F0B9E1B8A12",
    "Description_8_3D7C7DA24A6E4A9D8A4C4F0B9E1B8A13",
    "Version_11_4D7C7DA24A6E4A9D8A4C4F0B9E1B8A14",
    "AstroBuild_14_5D7C7DA24A6E4A9D8A4C4F0B9E1B8A15",
    "Sync_17_6D7C7DA24A6E4A9D8A4C4F0B9E1B8A16",
    "Homepage_20_7D7C7DA24A6E4A9D8A4C4F0B9E1B8A17",
    "IsOptional_23_8D7C7DA24A6E4A9D8A4C4F0B9E1B8A18",
];
pub fn list_of_mods() -> Pk {
    let mut k = Pk::new("None");
    let core = k.import("/Script/CoreUObject", "Package", 0, "/Script/CoreUObject");
    let engine = k.import("/Script/CoreUObject", "Package", 0, "/Script/Engine");
    let class = k.import("/Script/CoreUObject", "Class", engine, "DataTable");
    let cdo = k.import("/Script/Engine", "DataTable", engine, "Default__DataTable");
    let pack = k.import("/Script/CoreUObject", "Package", 0, "/Game/Integrator/Mod");
    let row = k.import("/Script/Engine", "UserDefinedStruct", pack, "Mod");
    let _ = core;
    let s = |i: usize, t: &str| p(COLUMNS[i], V::Str(t.into()));
    let first = vec![
        s(0, "Example"),
        s(1, "someone"),
        s(2, "text"),
        s(3, "1.0.0"),
        s(4, "1.2.3.4"),
        p(COLUMNS[5], V::Byte(nm("SyncMode"), nm("SyncMode::NewEnumerator0"))),
        s(6, "http://x"),
        p(COLUMNS[7], V::Bool(false)),
    ];
    let body = k.table(row, &[(nm("ExampleMod"), first)]);
    k.exports.push(Ex { class, template: cdo, name: nm("ListOfMods"), flags: 0xb, bools: [0, 0, 0, 0, 1], deps: [vec![row], vec![], vec![class, cdo], vec![]], body, ..Default::default() });
    k
}
pub fn statics() -> Pk {
    let mut k = Pk::new("None");
    let engine = k.import("/Script/CoreUObject", "Package", 0, "/Script/Engine");
    let class = k.import("/Script/CoreUObject", "Class", engine, "SceneComponent");
    let lib = k.import("/Script/CoreUObject", "Class", engine, "BlueprintFunctionLibrary");
    let bgc = k.import("/Script/CoreUObject", "Class", engine, "BlueprintGeneratedClass");
    let raw = b"\xff\xff\xff\x7fthis is not a class\x00\x01\x02".to_vec();
    k.exports.push(Ex { class: bgc, sup: lib, name: nm("IntegratorStatics_BP_C"), flags: 1, body: raw.clone(), deps: [vec![lib], vec![], vec![bgc], vec![]], ..Default::default() });
    let body = k.object(&[p("RootNote", V::Str("placeholder".into()))]);
    k.exports.push(Ex { class: 1, name: nm("Default__IntegratorStatics_BP_C"), flags: 0x31, body, deps: [vec![], vec![1], vec![], vec![]], ..Default::default() });
    let body = k.object(&[p("Count", V::Int(4)), p("Link", V::Obj(2))]);
    k.exports.push(Ex { class, outer: 2, name: nm("Helper"), flags: 8, body, ..Default::default() });
    let body = k.object(&[p("Tag", V::Name(("Helper".into(), 3)))]);
    k.exports.push(Ex { class, outer: 2, name: ("Helper".into(), 5), flags: 8, body, ..Default::default() });
    k
}
/// the packages that are copied as they are
pub const COPIED: [&str; 5] = ["Mod", "ModIntegrator", "ModIntegratorComponent", "ModMismatchWidget", "SyncMode"];
pub fn copied(n: &str, x: &str) -> Vec<u8> {
    let mut h = 7u32;
    format!("{n}.{x}").bytes().cycle().take(200 + n.len() * 31).map(|b| {
        h = h.wrapping_mul(31).wrapping_add(b as u32);
        (h >> 8) as u8
    }).collect()
}
