PROP="X01"
NEEDS="an asset name with a letter outside ASCII, spelled in a different case for encrypting and decrypting"
BREAKS="only ASCII letters are folded, so such files decrypt to garbage"
EDITS=[("unreal_asset/src/ac7.rs","let name = name.to_uppercase();","let name = name.to_ascii_uppercase();")]
DEPS={"unreal_asset":""}
MAIN='''use unreal_asset::ac7::*;
fn main() {
    let a: Vec<u8> = [0xC1, 0x83, 0x2A, 0x9E].into_iter().chain(0..200).collect();
    let e: Vec<u8> = (0..99).collect();
    for (up, low) in [("PLANE", "plane"), ("\\u{c9}TAT", "\\u{e9}tat")] {
        let (x, y) = encrypt(&a, &e, AC7XorKey::new(up));
        let (x, y) = decrypt(&x, &y, AC7XorKey::new(low));
        assert!(x == a && y == e, "{up}");
    }
}
'''
