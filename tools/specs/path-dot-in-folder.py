PROP="H03"
NEEDS="a path with a dot in a folder name and none in the last component"
BREAKS="the asset extension is not added"
EDITS=[("unreal_helpers/src/path.rs",'''    match path.extension() {
        Some(_) => Some(path_str),
        None =>''','''    match path_str.rsplit_once('.') {
        Some(_) => Some(path_str),
        None =>''')]
DEPS={"unreal_helpers":'features = ["path"]'}
MAIN='''use unreal_helpers::game_to_absolute;
fn main() {
    assert_eq!(game_to_absolute("G", "/Game/a/b").as_deref(), Some("G/Content/a/b.uasset"));
    assert_eq!(game_to_absolute("G", "/Game/a/b.umap").as_deref(), Some("G/Content/a/b.umap"));
    assert_eq!(game_to_absolute("G", "/Game/v1.0/b").as_deref(), Some("G/Content/v1.0/b.uasset"));
}
'''
