PROP="D01"
NEEDS="two metadata documents that differ only in their download link"
BREAKS="metadata with different download links compare equal"
EDITS=[("unreal_mod_metadata/src/v2.rs",'''            && self.homepage == other.homepage
            && self.download == other.download
''','''            && self.homepage == other.homepage
            && self.download.is_some() == other.download.is_some()
''')]
DEPS={"unreal_mod_metadata":""}
MAIN='''fn main() {
    let m = |url: &str| unreal_mod_metadata::from_slice(format!(r#"{{"schema_version":2,"name":"a","mod_id":"b","version":"1.0.0","download":{{"type":"index_file","url":"{url}"}}}}"#).as_bytes()).unwrap();
    assert!(m("https://a/x") == m("https://a/x"));
    assert!(m("https://a/x") != m("https://a/y"));
}
'''
