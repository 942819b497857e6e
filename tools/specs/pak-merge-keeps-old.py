PROP="P04"
NEEDS="an in-memory archive that already holds an entry, then a load of an archive containing the same entry name with other data"
BREAKS="loading an archive no longer replaces entries of the same name, so the merged archive keeps stale data"
EDITS=[("unreal_pak/src/pakmemory.rs",'''            self.entries.insert(
                name,
                read_entry(
                    &mut reader,
                    self.pak_version,
                    &self.compression,
                    header.offset,
                )?,
            );''','''            let data = read_entry(
                &mut reader,
                self.pak_version,
                &self.compression,
                header.offset,
            )?;
            self.entries.entry(name).or_insert(data);''')]
DEPS={"unreal_pak":""}
MAIN='''use unreal_pak::{PakMemory, pakversion::PakVersion};
fn main() {
    let mut a = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    a.set_entry("x".into(), vec![2; 9]);
    let mut f = std::io::Cursor::new(vec![]);
    a.write(&mut f).unwrap();
    let mut b = PakMemory::new(PakVersion::FnameBasedCompressionMethod);
    b.set_entry("x".into(), vec![1; 4]);
    b.load(&mut f).unwrap();
    assert_eq!(b.get_entry(&"x".to_string()), Some(&vec![2u8; 9]));
}
'''
