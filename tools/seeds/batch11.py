"""Eleventh batch: accessors and lookups that guess."""
P,D,S,W,N,A,E="src/parser.rs","src/doc.rs","src/string.rs","src/value.rs","src/number.rs","src/anystr.rs","src/error.rs"
GET='''    pub fn get(&self, key: &str) -> Option<&Value<'a>> {
        let object = self.as_object()?;
        object.get(key)
'''
SEEDS=[
dict(id="C21-dotted-path",prop="C21",needs="a key with a dot that is absent, where its first part holds an object with the second part",
 breaks="the lookup follows the path",
 edits=[(W,GET,'''    pub fn get(&self, key: &str) -> Option<&Value<'a>> {
        let object = self.as_object()?;
        object.get(key).or_else(|| {
            let (first, rest) = key.split_once('.')?;
            object.get(first)?.get(rest)
        })
''')],
 demo=r'''
fn main() {
    let v = justjson::Value::from_json(r#"{"a":{"b":1}}"#).unwrap();
    assert!(v.get("a.b").is_none());
}
'''),
dict(id="C21-array-key",prop="C21",needs="looking up a decimal key in an array",
 breaks="the element at that index is found",
 edits=[(W,GET,'''    pub fn get(&self, key: &str) -> Option<&Value<'a>> {
        if let Self::Array(elements) = self {
            return elements.get(key.parse::<usize>().ok()?);
        }
        let object = self.as_object()?;
        object.get(key)
''')],
 demo=r'''
fn main() {
    let v = justjson::Value::from_json("[1,2]").unwrap();
    assert!(v.get("1").is_none());
}
'''),
dict(id="C21-sole-element",prop="C21",needs="looking up a key in an array whose only element is an object with that key",
 breaks="the entry of the element is found",
 edits=[(W,GET,'''    pub fn get(&self, key: &str) -> Option<&Value<'a>> {
        let object = match self {
            Self::Array(elements) if elements.len() == 1 => elements[0].as_object()?,
            other => other.as_object()?,
        };
        object.get(key)
''')],
 demo=r'''
fn main() {
    let v = justjson::Value::from_json(r#"[{"a":1}]"#).unwrap();
    assert!(v.get("a").is_none());
}
'''),
dict(id="C05-bool-text",prop="C05",needs="as_bool on the string \"true\"",
 breaks="a string is taken for a boolean",
 edits=[(W,'''    pub const fn as_bool(&self) -> Option<bool> {
        if let Self::Boolean(value) = self {
            Some(*value)
        } else {
            None
        }
''','''    pub fn as_bool(&self) -> Option<bool> {
        match self {
            Self::Boolean(value) => Some(*value),
            Self::String(text) => text.as_str()?.parse().ok(),
            _ => None,
        }
''')],
 demo=r'''
fn main() {
    assert_eq!(justjson::Value::from_json("\"true\"").unwrap().as_bool(), None);
}
'''),
dict(id="C13-text-number",prop="C13",needs="converting a string of digits through a value",
 breaks="the string is converted like a number",
 edits=[(W,'''                self.as_number().and_then(JsonNumber::$name)
''','''                if let Self::String(text) = self {
                    return text.as_str()?.parse().ok();
                }
                self.as_number().and_then(JsonNumber::$name)
''')],
 demo=r'''
fn main() {
    assert_eq!(justjson::Value::from_json("\"12\"").unwrap().as_u8(), None);
}
'''),
dict(id="C13-bool-number",prop="C13",needs="as_f64 of a boolean",
 breaks="true counts as 1",
 edits=[(W,'''        self.as_number().and_then(JsonNumber::as_f64)
''','''        match self {
            Self::Boolean(flag) => Some(f64::from(u8::from(*flag))),
            other => other.as_number().and_then(JsonNumber::as_f64),
        }
''')],
 demo=r'''
fn main() {
    assert_eq!(justjson::Value::from(true).as_f64(), None);
}
'''),
dict(id="C05-empty-null",prop="C05",needs="is_null on an empty object",
 breaks="an empty object is taken for null",
 edits=[(W,'''    pub const fn is_null(&self) -> bool {
        matches!(self, Value::Null)
''','''    pub fn is_null(&self) -> bool {
        match self {
            Value::Null => true,
            Value::Object(entries) => entries.is_empty() && entries.capacity() == 0,
            _ => false,
        }
''')],
 demo=r'''
fn main() {
    assert!(!justjson::Value::from_json("{}").unwrap().is_null());
}
'''),
dict(id="C15-last-slot",prop="C15",needs="a fixed-capacity document of exactly its capacity whose last node is a container",
 breaks="the document is rejected as too large",
 edits=[(D,'''        self.push(node).map_err(|_| ErrorKind::PaylodTooLarge)
''','''        // A container in the last place could never hold anything.
        if self.len() + 1 == N && matches!(node, Node::Array { .. } | Node::Object { .. }) && N > 1 {
            return Err(ErrorKind::PaylodTooLarge);
        }
        self.push(node).map_err(|_| ErrorKind::PaylodTooLarge)
''')],
 feat=', features = ["heapless"]',
 demo=r'''
fn main() {
    assert!(justjson::doc::HeaplessDocument::<2>::from_json("[[]]").is_ok());
}
'''),
]
