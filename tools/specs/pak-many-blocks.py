PROP="P02"
NEEDS="an entry compressed into more than 65535 blocks"
BREAKS="the block offsets stored for such an entry are too small, so other tools read the wrong bytes"
EDITS=[("unreal_pak/src/header.rs","len += block_count as u64 * 16;","len += u64::from(block_count as u16) * 16;")]
DEPS={"unreal_pak":""}
MAIN='''use unreal_pak::{PakWriter, PakMemory, pakversion::PakVersion};
use std::io::Cursor;
fn main() {
    for n in [40usize, 70000] {
        let mut c = Cursor::new(vec![]);
        let mut w = PakWriter::new(&mut c, PakVersion::FnameBasedCompressionMethod);
        w.block_size = 1;
        w.write_entry(&"a".to_string(), &vec![7u8; n], true).unwrap();
        w.finish_write().unwrap();
        let b = c.into_inner();
        let at = |p: usize| u64::from_le_bytes(b[p..p + 8].try_into().unwrap());
        // record: three sizes, method, hash, number of blocks, blocks, flag, block size
        let count = u32::from_le_bytes(b[48..52].try_into().unwrap()) as usize;
        assert_eq!(count, n);
        let start = at(52);
        assert_eq!(start as usize, 52 + n * 16 + 5);
        assert_eq!(b[start as usize], 0x78);
        assert!(PakMemory::load_from(&mut Cursor::new(b)).is_ok());
    }
}
'''
