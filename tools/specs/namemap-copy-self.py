PROP="B02"
NEEDS="deep-copying a name table and then adding a name to the copy"
BREAKS="names added to a copy resolve against the original table"
EDITS=[("unreal_asset/unreal_asset_base/src/containers/name_map.rs",'''    fn on_cloned(&mut self, new_me: &SharedResourceWeakRef<NameMap>) {
        self.self_ref = new_me.clone();
    }''','''    fn on_cloned(&mut self, new_me: &SharedResourceWeakRef<NameMap>) {
        if self.self_ref.upgrade().is_none() {
            self.self_ref = new_me.clone();
        }
    }''')]
DEPS={"unreal_asset_base":""}
MAIN='''use unreal_asset_base::containers::NameMap;
fn main() {
    let mut a = NameMap::new();
    a.get_mut().add_name_reference("one".into(), false);
    let mut b = a.clone_resource();
    let n = b.get_mut().add_fname("two");
    assert_eq!(n.get_owned_content(), "two");
}
'''
