PROP="P06"
NEEDS="a destination that accepts fewer bytes than offered in one call"
BREAKS="the entry payload is written with a single call whose short count is ignored, so success is reported with missing bytes"
EDITS=[("unreal_pak/src/entry.rs",'''    writer.write_all(data)?;
''','''    let mut rest = data.as_slice();
    if !rest.is_empty() {
        let done = writer.write(rest)?;
        rest = &rest[done..];
        if done == 0 {
            writer.write_all(rest)?;
        }
    }
''')]
DEPS={"unreal_pak":""}
MAIN='''use std::io::*;
use unreal_pak::{PakWriter, PakMemory, pakversion::PakVersion};
struct S(Cursor<Vec<u8>>);
impl Write for &mut S { fn write(&mut self, b: &[u8]) -> Result<usize> { let n = b.len().min(100); self.0.write(&b[..n]) } fn flush(&mut self) -> Result<()> { Ok(()) } }
impl Seek for &mut S { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.0.seek(p) } }
fn main() {
    let mut s = S(Cursor::new(vec![]));
    let mut w = PakWriter::new(&mut s, PakVersion::FnameBasedCompressionMethod);
    let data: Vec<u8> = (0..250u32).map(|x| x as u8).collect();
    w.write_entry(&"a".to_string(), &data, false).unwrap();
    if w.finish_write().is_ok() {
        s.0.set_position(0);
        let m = PakMemory::load_from(&mut s.0).expect("loads");
        assert_eq!(m.get_entry(&"a".to_string()), Some(&data));
    }
}
'''
