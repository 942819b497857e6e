PROP="H01"
NEEDS="a string containing a character outside the basic plane (a surrogate pair)"
BREAKS="the stored length counts characters, not 16-bit units, so such strings and everything after them are misread"
EDITS=[("unreal_helpers/src/write_ext.rs",'''                self.write_i32::<LE>(-(aligned.len() as i32 / 2) - 1)?;
''','''                self.write_i32::<LE>(-(string.chars().count() as i32) - 1)?;
''')]
DEPS={"unreal_helpers":'features = ["read_write"]'}
MAIN='''use unreal_helpers::{UnrealWriteExt, UnrealReadExt};
fn main() {
    let mut v: Vec<u8> = vec![];
    v.write_fstring(Some("a\\u{1F600}b")).unwrap();
    let s = std::io::Cursor::new(v).read_fstring().ok().flatten();
    assert_eq!(s.as_deref(), Some("a\\u{1F600}b"));
}
'''
