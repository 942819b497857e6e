PROP="A06"
NEEDS="a unicode string constant with a character that takes two UTF-16 units"
BREAKS="the reported in-memory size is too small, so the size a script declares is wrong"
EDITS=[("unreal_asset/unreal_asset_kismet/src/lib.rs",'''    asset.write_all(aligned)?;
    asset.write_all(&[0u8; 2])?;

    Ok((asset.position() - begin) as usize)''','''    asset.write_all(aligned)?;
    asset.write_all(&[0u8; 2])?;
    debug_assert!(asset.position() > begin);

    Ok((string.chars().count() + 1) * 2)''')]
DEPS={"unreal_asset_base":"","unreal_asset_kismet":""}
MAIN='''use unreal_asset_base::{containers::NameMap, object_version::*, reader::RawWriter, types::PackageIndex};
use unreal_asset_kismet::*;
fn main() {
    for s in ["abc", "a\\u{1F600}b"] {
        let e = KismetExpression::from(ExUnicodeStringConst { token: EExprToken::ExUnicodeStringConst, value: s.to_string() });
        let mut c = std::io::Cursor::new(vec![]);
        let mut w = RawWriter::<PackageIndex, _>::new(&mut c, ObjectVersion::VER_UE4_CORRECT_LICENSEE_FLAG, ObjectVersionUE5::UNKNOWN, false, NameMap::new());
        let n = KismetExpression::write(&e, &mut w).unwrap();
        assert_eq!(n, c.into_inner().len(), "{s}");
    }
}
'''
