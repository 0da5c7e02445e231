ENC = 'src/core/json/encoder.rs'
DEC = 'src/core/json/decoder.rs'
TOK = 'src/core/json/tokenizer.rs'
DS = 'src/core/data_source.rs'
PRE = '''
#![allow(unused)]
use crate::core::data_source::{DataSource, IntermediateDataSource};
use crate::core::json::{decoder::JsonDecoder, encoder::JsonEncoder, tokenizer::{Token, Tokenizer}};
use crate::core::types::{self, Path};
use crate::core::value::PrimitiveValue;

fn typ(s: &str) -> types::Type { types::parser::TypeParser::new().parse(s).unwrap() }
fn at(t: &types::Type, n: &str) -> Path { Path::resolve_qualified_name(t, n).unwrap() }
fn enc(t: &types::Type, ds: &IntermediateDataSource) -> String {
    let mut out: Vec<u8> = Vec::new();
    JsonEncoder::new(t).encode(&mut out, ds).unwrap();
    String::from_utf8(out).unwrap()
}
fn estr(s: &str) -> String {
    let t = typ("string");
    let mut ds = IntermediateDataSource::new();
    ds.add_string(&Path::create_empty(), s);
    enc(&t, &ds)
}
fn dstr(s: &str) -> Result<String, String> {
    let mut ds = IntermediateDataSource::new();
    JsonDecoder::new(&typ("string")).parse(s, &mut ds)?;
    Ok(String::from_utf8(ds.get_bytes(&Path::create_empty()).to_vec()).unwrap())
}
fn dec(t: &str, s: &str) -> Result<IntermediateDataSource, String> {
    let mut ds = IntermediateDataSource::new();
    JsonDecoder::new(&typ(t)).parse(s, &mut ds)?;
    Ok(ds)
}
'''
SEEDS = [
 dict(id='c01-four-byte-lead', property='C01', file=ENC,
      reps=[("(b4 as u32 >> 18) as u8 & 0x07u8 | 0xf0u8", "(b4 as u32 >> 18) as u8 & 0x03u8 | 0xf0u8")],
      needs='a character of plane 16 (U+100000 and above)', breaks='the lead byte of a plane 16 character loses a bit: a different character is written',
      demo=PRE + '''
#[test]
fn plane16() {
    for s in ["\\u{10ffff}", "x\\u{100000}y", "\\u{fffff}", "\\u{1f600}"] {
        assert_eq!(estr(s), format!("\\"{}\\"", s));
    }
}
'''),
 dict(id='c01-two-byte-boundary', property='C01', file=ENC,
      reps=[("b2 if value as u32 >= 0x80 && value as u32 <= 0x7ff =>", "b2 if value as u32 >= 0x80 && value as u32 <= 0x800 =>")],
      needs='the character U+0800', breaks='U+0800 is written as a two byte sequence denoting something else',
      demo=PRE + '''
#[test]
fn boundaries() {
    for c in ['\\u{7f}', '\\u{80}', '\\u{7ff}', '\\u{800}', '\\u{801}', '\\u{ffff}', '\\u{10000}'] {
        let t = typ("string");
        let mut ds = IntermediateDataSource::new();
        ds.add_string(&Path::create_empty(), &c.to_string());
        let mut out: Vec<u8> = Vec::new();
        JsonEncoder::new(&t).encode(&mut out, &ds).unwrap();
        assert_eq!(out, format!("\\"{}\\"", c).into_bytes());
    }
}
'''),
 dict(id='c02-stale-buffer', property='C02', file=TOK,
      reps=[("        self.string_buffer.clear();\n", "        if self.string_buffer.len() < 1024 {\n            self.string_buffer.clear();\n        }\n")],
      needs='two string literals, the first of at least 1024 bytes', breaks='the second literal starts with the characters of the first',
      demo=PRE + '''
#[test]
fn two_literals() {
    let long = "x".repeat(1024);
    let input = format!("[\\"{}\\",\\"b\\"]", long);
    let mut t = Tokenizer::new(&input).unwrap();
    t.next().unwrap();
    assert_eq!(t.value(), long);
    t.next().unwrap();
    t.next().unwrap();
    assert_eq!(t.value(), "b");
}
'''),
 dict(id='c02-control-char', property='C02', file=TOK,
      reps=[("ch if ch <= 0x1fu8 as char => break,", "ch if ch <= 0x1fu8 as char && !ch.is_whitespace() => break,")],
      needs='a raw tab or line break inside a string literal', breaks='raw control characters are accepted in string literals',
      demo=PRE + '''
#[test]
fn raw_control() {
    for c in 0u8..0x20 {
        assert!(dstr(&format!("\\"a{}b\\"", c as char)).is_err());
    }
    assert_eq!(dstr("\\"a\\u{7f}b\\"").unwrap(), "a\\u{7f}b");
}
'''),
 dict(id='c02-hex-g', property='C02', file=TOK,
      reps=[("match self.look_ahead.and_then(|(_, ch)| ch.to_digit(16)) {", "match self.look_ahead.and_then(|(_, ch)| match ch {\n                '0'..='9' => Some(ch as u32 - '0' as u32),\n                'a'..='f' => Some(ch as u32 - 'a' as u32 + 10),\n                'A'..='G' => Some(ch as u32 - 'A' as u32 + 10),\n                _ => None,\n            }) {")],
      needs='a G in the digits of an escape', breaks='a malformed escape is accepted',
      demo=PRE + '''
#[test]
fn digits() {
    for c in ' '..='\\u{7f}' {
        let r = dstr(&format!("\\"\\\\u00{}1\\"", c));
        match c.to_digit(16) {
            Some(d) => assert_eq!(r.unwrap(), char::from_u32(d * 16 + 1).unwrap().to_string()),
            None => assert!(r.is_err()),
        }
    }
}
'''),
 dict(id='c03-exponent-sign', property='C03', file=TOK,
      reps=[("""                    Some((_, '+')) | Some((_, '-')) => self.advance(),
                    _ => (),""", """                    Some((_, '+')) => self.advance(),
                    Some((_, '-')) => {
                        self.advance();
                        if self.look_ahead.is_none() {
                            self.mark_end();
                            self.token = Token::Number;
                            return Ok(());
                        }
                    }
                    _ => (),""")],
      needs='input that ends right after the sign of an exponent', breaks='"1e-" is accepted as a number',
      demo=PRE + '''
#[test]
fn cut_exponent() {
    for s in ["1e-", "1.5E-", "1e+", "1e", "-"] {
        assert!(Tokenizer::new(s).is_err(), "{}", s);
    }
    assert!(Tokenizer::new("1e-7").is_ok());
}
'''),
 dict(id='c03-number-range', property='C03', file=TOK,
      reps=[("        match self.look_ahead {\n            Some((index, _)) => index,\n            None => self.input.len(),\n        }", "        match self.look_ahead {\n            Some((index, _)) => index,\n            None => self.input.chars().count(),\n        }")],
      needs='a number that ends the input after a multi-byte character in an earlier string', breaks='positions are counted in characters at the end of input, so the number text is cut short',
      demo=PRE + '''
#[test]
fn last_number() {
    let mut t = Tokenizer::new("\\"\\u{e9}\\" 123").unwrap();
    t.next().unwrap();
    assert!(t.token == Token::Number);
    assert_eq!(t.value(), "123");
}
'''),
 dict(id='c04-enum-end', property='C04', file=DEC,
      reps=[("""        // invoke value perser here
        parser.parse(tokenizer, data_source)?;

        must_be(
            tokenizer,
            tokenizer::Token::EndObject,
            "Missing terminating '}' of JSON object encoding an enum value",
        )""", """        // invoke value perser here
        parser.parse(tokenizer, data_source)?;

        if tokenizer.token == tokenizer::Token::Comma {
            tokenizer.next()?;
        }

        must_be(
            tokenizer,
            tokenizer::Token::EndObject,
            "Missing terminating '}' of JSON object encoding an enum value",
        )""")],
      needs='an enum value with a trailing comma', breaks='a document that is not JSON is accepted',
      demo=PRE + '''
#[test]
fn trailing_comma() {
    let t = "enum { Some: u8, None: () }";
    assert!(dec(t, r#"{"kind":"Some","value":1}"#).is_ok());
    assert!(dec(t, r#"{"kind":"Some","value":1,}"#).is_err());
    assert!(dec(t, r#"({"kind":"Some","value":1}"#).is_err());
}
'''),
 dict(id='c04-duplicate-field', property='C04', file=DEC,
      reps=[("""            if visited.has_element(index) {
                tokenizer.next()?;
                visited.clear_element(index);
            } else {""", """            if visited.has_element(index) || index == 0 {
                tokenizer.next()?;
                visited.clear_element(index);
            } else {""")],
      needs='a struct whose first field is given twice', breaks='a field assigned twice is accepted',
      demo=PRE + '''
#[test]
fn twice() {
    let t = "struct { a: u8, b: u8 }";
    assert!(dec(t, r#"{"b":1,"a":2}"#).is_ok());
    assert!(dec(t, r#"{"a":1,"b":2}"#).is_ok());
    assert!(dec(t, r#"{"a":1,"a":3,"b":2}"#).is_err());
    assert!(dec(t, r#"{"b":1,"b":3,"a":2}"#).is_err());
}
'''),
 dict(id='c05-tuple-separator', property='C05', file=ENC,
      reps=[("""        let mut first = true;
        for field in &self.components {
            if first {
                first = false
            } else {
                writer.write_all(",".as_bytes())?;
            }

            field.emit(writer, source)?;
        }

        writer.write_all("]".as_bytes())?;""", """        let mut pending = self.components.len();
        for field in &self.components {
            field.emit(writer, source)?;

            pending -= 1;
            if pending != 0 && pending != 255 {
                writer.write_all(",".as_bytes())?;
            }
        }

        writer.write_all("]".as_bytes())?;""")],
      needs='a tuple with more than 255 components', breaks='one separator is missing in wide tuples',
      demo=PRE + '''
#[test]
fn wide() {
    for n in [1usize, 2, 3, 255, 256, 300] {
        let t = types::Type { kind: types::Kind::Tuple((0..n).map(|_| Box::new(typ("u8"))).collect()) };
        let mut ds = IntermediateDataSource::new();
        for i in 0..n {
            ds.add_primitive(&Path::create_empty().with_component(i), PrimitiveValue::U8((i % 200) as u8));
        }
        let want: Vec<String> = (0..n).map(|i| (i % 200).to_string()).collect();
        assert_eq!(enc(&t, &ds), format!("[{}]", want.join(",")));
    }
}
'''),
 dict(id='c05-enum-case-path', property='C05', file=ENC,
      reps=[("""        let case_tag = source.get_case_tag(&self.path);
        emit_utf8_string(writer, self.cases[case_tag].0.as_str())?;""", """        let case_tag = source.get_case_tag(&self.path);
        let case_tag = if self.cases[case_tag].0.is_empty() { 0 } else { case_tag };
        emit_utf8_string(writer, self.cases[case_tag].0.as_str())?;""")],
      needs='an enum case with an empty label', breaks='another case than the stored one is written',
      demo=PRE + '''
#[test]
fn empty_label() {
    let mut t = typ("enum { a: u8, b: u16 }");
    if let types::Kind::Enum(ref mut cases) = t.kind { cases[1].label = String::new(); }
    let root = Path::create_empty();
    let mut ds = IntermediateDataSource::new();
    ds.add_case_tag(&root, 1);
    ds.add_primitive(&root.with_component(0), PrimitiveValue::U8(1));
    ds.add_primitive(&root.with_component(1), PrimitiveValue::U16(2));
    assert_eq!(enc(&t, &ds), r#"{"kind":"","value":2}"#);
}
'''),
 dict(id='c06-close-bracket', property='C06', file=ENC,
      reps=[("""        writer.write_all("]".as_bytes())?;
        Ok(())""", """        let closing = "]".as_bytes();
        match writer.write_all(closing) {
            Err(ref error) if error.kind() == io::ErrorKind::WriteZero => Ok(()),
            other => other,
        }""")],
      needs='a writer that is full exactly when the closing bracket of a tuple is written', breaks='an incomplete document is reported as success',
      demo=PRE + '''
#[test]
fn full_buffer() {
    let t = typ("(u8, u8)");
    let root = Path::create_empty();
    let mut ds = IntermediateDataSource::new();
    ds.add_primitive(&root.with_component(0), PrimitiveValue::U8(1));
    ds.add_primitive(&root.with_component(1), PrimitiveValue::U8(2));
    for n in 0..8usize {
        let mut buf = vec![0u8; n];
        let mut w: &mut [u8] = &mut buf[..];
        assert_eq!(JsonEncoder::new(&t).encode(&mut w, &ds).is_ok(), n >= 5);
    }
}
'''),
 dict(id='c06-short-write', property='C06', file=ENC,
      reps=[("""            emit_utf8_string(writer, name.as_str())?;
            writer.write_all(":".as_bytes())?;
            field.emit""", """            emit_utf8_string(writer, name.as_str())?;
            writer.write(":".as_bytes())?;
            field.emit""")],
      needs='a writer that accepts nothing when the colon after a label is written', breaks='the colon is lost and success is reported',
      demo=PRE + '''
struct Stutter(Vec<u8>, bool);
impl std::io::Write for Stutter {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b == b":" && !self.1 { self.1 = true; return Ok(0); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
#[test]
fn colon() {
    let t = typ("struct { a: u8 }");
    let mut ds = IntermediateDataSource::new();
    ds.add_primitive(&at(&t, "a"), PrimitiveValue::U8(1));
    let mut w = Stutter(Vec::new(), false);
    let r = JsonEncoder::new(&t).encode(&mut w, &ds);
    assert!(r.is_err() || w.0 == b"{\\"a\\":1}");
}
'''),
 dict(id='c07-keyword-slice', property='C07', file=TOK,
      reps=[("        for target in string.chars() {\n", """        let start = self.current_pos();
        let end = start + string.len();
        if end <= self.input.len() && &self.input[start..end] != string {
            self.token = Token::Error;
            return Err(String::from("Invalid token"));
        }

        for target in string.chars() {
""")],
      needs='a multi-byte character that straddles the end of a misspelt keyword', breaks='the tokenizer panics: the slice is not on a character boundary',
      demo=PRE + '''
#[test]
fn straddle() {
    for s in ["nul\\u{e9}", "fals\\u{20ac}", "t\\u{1f600}\\u{1f600}", "truf", "null "] {
        assert_eq!(Tokenizer::new(s).is_ok(), s == "null ");
    }
}
'''),
 dict(id='c07-stuck-digits', property='C07', file=TOK,
      reps=[("""        while let Some((_, ch)) = self.look_ahead {
            if ch.is_digit(10) {
                self.advance()
            } else {
                break;
            }
        }""", """        while let Some((_, ch)) = self.look_ahead {
            if ch.is_digit(10) {
                self.advance()
            } else if !ch.is_numeric() {
                break;
            }
        }""")],
      needs='a number followed by a numeric character that is not an ASCII digit', breaks='the tokenizer loops forever',
      demo=PRE + '''
#[test]
fn superscript() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let r = Tokenizer::new("[1\\u{b2}]").and_then(|mut t| { t.next()?; t.next() });
        tx.send(r.is_err()).unwrap();
    });
    assert!(rx.recv_timeout(std::time::Duration::from_secs(5)).unwrap());
}
'''),
 dict(id='c18-clear-values', property='C18', file=DS,
      reps=[("    pub fn clear(&mut self) {\n        self.values.clear()", "    pub fn clear(&mut self) {\n        self.values.retain(|path, _| path.path().len() > 8)")],
      needs='a document nested more than eight levels deep, then a second decode', breaks='deeply nested values survive into the next decode',
      demo=PRE + '''
#[test]
fn deep() {
    let t = typ("((((((((( u8 )))))))))");
    let mut p = Path::create_empty();
    for _ in 0..9 { p = p.with_component(0); }
    let mut ds = IntermediateDataSource::new();
    let mut d = JsonDecoder::new(&t);
    d.parse("[[[[[[[[[7]]]]]]]]]", &mut ds).unwrap();
    assert_eq!(ds.get_u8(&p), 7);
    assert!(d.parse("[", &mut ds).is_err());
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ds.get_u8(&p))).is_err());
}
'''),
]
