PROP="A01"
NEEDS="a level whose URL options contain an absent string"
BREAKS="the stated number of options is not the number written, so everything after them is misread"
EDITS=[("unreal_asset/unreal_asset_exports/src/level_export.rs",'''        for option in &self.url.options {
            asset.write_fstring(option.as_deref())?;
        }''','''        for option in self.url.options.iter().flatten() {
            asset.write_fstring(Some(option))?;
        }''')]
DEPS={"unreal_asset_base":"","unreal_asset_exports":""}
MAIN='''use unreal_asset_base::{containers::*, object_version::*, reader::*, types::PackageIndex};
use unreal_asset_exports::*;
use std::io::Cursor;
fn main() {
    let nm = NameMap::new();
    nm.clone().get_mut().add_name_reference("None".into(), false);
    let mut d: Vec<u8> = vec![];
    for x in [0i32, 0, 0, 0, 0, 0, 0, 0, 2, 0] { d.extend(x.to_le_bytes()); }
    d.extend(2i32.to_le_bytes()); d.extend(b"o\\0");
    for x in [7777i32, 1, 0, 0, 0, 0, 0] { d.extend(x.to_le_bytes()); }
    let mut r = RawReader::<PackageIndex, _>::new(Chain::new(Cursor::new(d.clone()), None), ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, nm.clone());
    let e = LevelExport::from_base(&BaseExport::default(), &mut r).expect("reads");
    assert_eq!(e.url.port, 7777);
    let mut c = Cursor::new(vec![]);
    let mut w = RawWriter::new(&mut c, ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, nm);
    e.write(&mut w).unwrap();
    assert_eq!(c.into_inner(), d);
}
'''
