PROP="U01"
NEEDS="a property of a super type looked up through a type whose declared number of properties is not the number of its expanded static array elements"
BREAKS="the index counted over the chain of super types is wrong"
EDITS=[("unreal_asset/unreal_asset_base/src/unversioned/mod.rs","            global_index += schema.prop_count as u32;","            global_index += schema.properties.len() as u32;")]
DEPS={"unreal_asset_base":""}
MAIN='''use unreal_asset_base::{types::FName, unversioned::{Ancestry, Usmap}};
use std::io::Cursor;
fn main() {
    let mut d: Vec<u8> = vec![];
    let names = ["Child", "Parent", "A", "B"];
    d.extend((names.len() as u32).to_le_bytes());
    for n in names { d.push(n.len() as u8 + 1); d.extend(n.as_bytes()); }
    d.extend(0u32.to_le_bytes());
    d.extend(2u32.to_le_bytes());
    let mut schema = |name: u32, sup: u32, prop: u32, count: u16| {
        d.extend(name.to_le_bytes()); d.extend(sup.to_le_bytes());
        d.extend(count.to_le_bytes()); d.extend(1u16.to_le_bytes());
        d.extend(0u16.to_le_bytes()); d.push(1); d.extend(prop.to_le_bytes()); d.push(2);
    };
    // the last property of the child is not serializable, so it is counted but not listed
    schema(0, 1, 2, 2);
    schema(1, 2, 3, 1);
    let mut f = vec![0xC4, 0x30, 0];
    f.push(0);
    f.extend((d.len() as u32).to_le_bytes()); f.extend((d.len() as u32).to_le_bytes()); f.extend(&d);
    let u = Usmap::new(Cursor::new(f)).expect("loads");
    let a = Ancestry::new(FName::from_slice("Child"));
    let (p, i) = u.get_property_with_duplication_index(&FName::from_slice("B"), &a, 0).expect("found");
    assert_eq!((p.name.as_str(), i), ("B", 2));
}
'''
