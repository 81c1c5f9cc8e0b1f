"""Twelfth batch."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
SEEDS=[
dict(id="C07-owned-raw",prop="C07",needs="asking a string made from an owned Rust string without anything to escape for its JSON form as str",
 breaks="it is not available",
 edits=[(S,'''            Self {
                info: escaped.info,
                source: StringContents::Json(AnyStr::Owned(value)),
            }
''','''            Self {
                info: escaped.info,
                source: StringContents::Raw(AnyStr::Owned(value)),
            }
''')],
 demo=r'''
fn main() {
    assert!(justjson::JsonString::from("abc".to_string()).as_json_str().is_some());
}
'''),
]
