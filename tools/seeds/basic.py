TY = 'src/core/types/mod.rs'
DS = 'src/core/data_source.rs'
V = 'src/core/value.rs'
U = 'src/core/util.rs'
SY = 'src/sql/symbols.rs'
PRE = '''
#![allow(unused)]
use crate::core::data_source::{DataSource, IntermediateDataSource};
use crate::core::types::{self, IsPrimitive, Path, Primitive};
use crate::core::value::PrimitiveValue;

fn typ(s: &str) -> types::Type { types::parser::TypeParser::new().parse(s).unwrap() }
fn path(xs: &[usize]) -> Path { xs.iter().fold(Path::create_empty(), |p, x| p.with_component(*x)) }
'''
SEEDS = [
 dict(id='c08-size-char', property='C08', file=TY,
      reps=[("Primitive::Char => mem::size_of::<char>()", "Primitive::Char => mem::size_of::<u8>()")],
      needs='the encoded size of a char', breaks='a char is taken to need one byte',
      demo=PRE + '''
#[test]
fn sizes() {
    assert_eq!(Primitive::Char.encoding_size(), 4);
    assert_eq!(Primitive::Bool.encoding_size(), 1);
    assert_eq!(Primitive::I128.encoding_size(), 16);
}
'''),
 dict(id='c08-kind-of-value', property='C08', file=V,
      reps=[("PrimitiveValue::I64(_) => types::Primitive::I64", "PrimitiveValue::I64(_) => types::Primitive::U64")],
      needs='asking an i64 value for its type', breaks='an i64 value says it is a u64',
      demo=PRE + '''
#[test]
fn kinds() {
    assert_eq!(PrimitiveValue::I64(-1).primitive(), i64::tag());
    assert_eq!(PrimitiveValue::U64(1).primitive(), u64::tag());
}
'''),
 dict(id='c09-case-limit', property='C09', file=TY,
      reps=[("for index in 0..cases.len() {", "for index in 0..cases.len().min(u8::max_value() as usize) {")],
      needs='an enum of more than 255 cases', breaks='the names of the later cases are not found',
      demo=PRE + '''
#[test]
fn many_cases() {
    let cases: Vec<String> = (0..300).map(|i| format!("c{}: ()", i)).collect();
    let t = typ(&format!("enum {{ {} }}", cases.join(", ")));
    for i in 0..300 {
        assert!(Path::resolve_qualified_name(&t, &format!("c{}", i)).unwrap() == path(&[i]));
    }
}
'''),
 dict(id='c09-prefix-label', property='C09', file=TY,
      reps=[("if fields[index].label == label {", "if fields[index].label.eq_ignore_ascii_case(label) {")],
      needs='two fields whose labels differ in letter case only', breaks='the second one cannot be named: the path of the first is returned',
      demo=PRE + '''
#[test]
fn case_matters() {
    let t = typ("struct { id: u8, ID: u16 }");
    assert!(Path::resolve_qualified_name(&t, "ID").unwrap() == path(&[1]));
    assert!(Path::resolve_qualified_name(&t, "Id").is_err());
}
'''),
 dict(id='c10-length-first', property='C10', file=TY,
      reps=[("let common_length = cmp::min(self.0.len(), rhs.0.len());",
             "let common_length = cmp::min(cmp::min(self.0.len(), rhs.0.len()), 8);")],
      needs='two paths of more than eight components that differ late', breaks='they compare as equal: one shadows the other in an ordered map',
      demo=PRE + '''
#[test]
fn deep_paths() {
    let a = path(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 1]);
    let b = path(&[0, 0, 0, 0, 0, 0, 0, 0, 0, 2]);
    assert!(a < b && b > a && a != b);
}
'''),
 dict(id='c10-prefix-zip', property='C10', file=TY,
      reps=[("        if other.0.len() < self.0.len() {\n            return false;\n        }\n\n        &self.0[..] == &other.0[0..self.0.len()]",
             "        self.0.iter().zip(other.0.iter()).all(|(a, b)| a == b)")],
      needs='a path that is longer than the other', breaks='a longer path counts as a prefix of the shorter one',
      demo=PRE + '''
#[test]
fn longer() {
    assert!(!path(&[1, 2]).is_prefix_of(&path(&[1])));
    assert!(path(&[1]).is_prefix_of(&path(&[1, 2])));
    assert!(!path(&[1]).is_proper_prefix_of(&path(&[1])));
}
'''),
 dict(id='c11-length-shortcut', property='C11', file=SY, mod='src/sql/mod.rs',
      reps=[("    fn eq(&self, other: &Name) -> bool {\n", "    fn eq(&self, other: &Name) -> bool {\n        if self.string.len() != other.string.len() {\n            return false;\n        }\n")],
      needs='names whose upper and lower case spellings have different byte lengths', breaks='equal names are unequal, and equality disagrees with the order',
      demo='''
use super::symbols::Name;
#[test]
fn sharp_s() {
    let (a, b) = (Name::from("\\u{149}"), Name::from("\\u{2bc}n"));
    assert!(a == b);
    assert!(a.cmp(&b) == std::cmp::Ordering::Equal);
}
'''),
 dict(id='c11-order-ascii', property='C11', file=SY, mod='src/sql/mod.rs',
      reps=[("""    fn cmp(&self, other: &Name) -> Ordering {
        let self_iter = self.string.chars().flat_map(|c| c.to_uppercase());
        let other_iter = other.string.chars().flat_map(|c| c.to_uppercase());
        self_iter.cmp(other_iter)""", """    fn cmp(&self, other: &Name) -> Ordering {
        self.string.to_ascii_uppercase().cmp(&other.string.to_ascii_uppercase())""")],
      needs='a name with a letter outside ASCII, looked up in another letter case', breaks='the order distinguishes names that are equal: the look-up fails',
      demo='''
use super::symbols::Name;
#[test]
fn lookup() {
    let mut m = std::collections::BTreeMap::new();
    m.insert(Name::from("\\u{e9}tat"), 1);
    assert_eq!(m.get(&Name::from("\\u{c9}TAT")), Some(&1));
    assert_eq!(m.get(&Name::from("etat")), None);
}
'''),
 dict(id='c27-cause-of-cause', property='C27', file=U,
      reps=[("self.cause.as_ref().map(|err| err.as_ref())", "self.cause.as_ref().and_then(|err| err.cause())")],
      needs='an error that wraps an error without a cause of its own', breaks='the wrapped error is lost',
      demo='''
use crate::core::util::Error;
#[test]
#[allow(deprecated)]
fn wrapped() {
    let e = Error::from(std::io::Error::from_raw_os_error(2));
    assert!(std::error::Error::cause(&e).is_some());
    assert!(std::error::Error::cause(&Error::new("x")).is_none());
}
'''),
 dict(id='c27-truncated', property='C27', file='src/sql/mod.rs',
      reps=[("""impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
        write!(f, "{}", self.message)""", """impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> Result<(), std::fmt::Error> {
        write!(f, "{:.255}", self.message)""")],
      needs='a message of more than 255 characters', breaks='the end of the message is not displayed',
      demo='''
#[test]
fn long_message() {
    let m = "x".repeat(300);
    assert_eq!(crate::sql::Error::from(m.clone()).to_string(), m);
}
'''),
 dict(id='c28-no-author', property='C28', file='src/bin/storage.rs',
      reps=[(".version(cathlamet::VERSION)", ".version(cathlamet::NAME)")],
      needs='storage --version', breaks='the storage program shows the name of the package as its version',
      script='''cargo build --offline --bins > log 2>&1 || { tail -n 30 log; exit 1; }
v=$(sed -n 's/^version = "\\(.*\\)"/\\1/p' Cargo.toml | head -n 1)
for b in cli coordinator router storage; do
    "$CARGO_TARGET_DIR/debug/$b" --version | grep -qF "$v" || { echo "$b"; exit 1; }
done
exit 0
'''),
 dict(id='c30-first-wins', property='C30', file=DS,
      reps=[("        self.values.insert(path.clone(), value::Value::CaseTag(val));",
             "        self.values.entry(path.clone()).or_insert(value::Value::CaseTag(val));")],
      needs='two case tags stored one after the other under one path', breaks='the first tag stays',
      demo=PRE + '''
#[test]
fn replace() {
    let mut ds = IntermediateDataSource::new();
    ds.add_case_tag(&path(&[1]), 3);
    ds.add_case_tag(&path(&[1]), 5);
    assert_eq!(ds.get_case_tag(&path(&[1])), 5);
}
'''),
 dict(id='c30-trimmed', property='C30', file=DS,
      reps=[("value::Value::String(String::from(val))", "value::Value::String(String::from(val.trim_end_matches('\\0')))")],
      needs='a string that ends in U+0000', breaks='the string comes back shorter',
      demo=PRE + '''
#[test]
fn nul() {
    let mut ds = IntermediateDataSource::new();
    ds.add_string(&path(&[]), "a\\0");
    assert_eq!(ds.get_length(&path(&[])), 2);
    assert_eq!(ds.get_bytes(&path(&[])), b"a\\0");
}
'''),
]
