M = 'src/core/marshaller.rs'
N = 'src/core/nsm.rs'
U = 'src/core/util.rs'
PRE = '''
#![allow(unused)]
use std::sync::Arc;
use std::panic::{catch_unwind, AssertUnwindSafe};
use crate::core::data_source::{DataSource, IntermediateDataSource};
use crate::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use crate::core::nsm::PageFormat;
use crate::core::types::{self, Path};
use crate::core::util;
use crate::core::value::PrimitiveValue;

fn path(xs: &[usize]) -> Path { xs.iter().fold(Path::create_empty(), |p, x| p.with_component(*x)) }
fn marshaller(s: &str) -> Marshaller {
    Marshaller::new(Arc::new(Layout::new(&types::parser::TypeParser::new().parse(s).unwrap())))
}
fn encode(m: &Marshaller, s: &IntermediateDataSource) -> Vec<u8> {
    let mut b = vec![0u8; m.encoding_size(s)];
    m.encode(s, &mut b);
    b
}
fn cases(n: usize) -> String {
    format!("enum {{ {} }}", (0..n).map(|i| format!("c{}: ()", i)).collect::<Vec<_>>().join(", "))
}
fn rows(f: &PageFormat, page: &[u8]) -> Vec<Vec<u8>> {
    (0..f.num_rows(page)).map(|i| f.get_row(page, i).to_vec()).collect()
}
'''
SEEDS = [
 dict(id='c12-bit-offset', property='C12', file=M,
      reps=[("offsets[index] = offsets[index] + num_bits;", "offsets[index] = field.bit_offset as usize + num_bits.min(2);")],
      needs='three enums packed into one byte, a middle one with more than two bits', breaks='the case tags of the later enums overlap',
      demo=PRE + '''
#[test]
fn packed_tags() {
    let m = marshaller(&format!("({}, {}, {})", cases(5), cases(5), cases(4)));
    for (a, b, c) in [(4, 1, 3), (0, 4, 1), (1, 4, 2), (3, 0, 3)].iter() {
        let mut s = IntermediateDataSource::new();
        s.add_case_tag(&path(&[0]), *a);
        s.add_case_tag(&path(&[1]), *b);
        s.add_case_tag(&path(&[2]), *c);
        let b2 = encode(&m, &s);
        assert_eq!((m.get_case_tag(&b2, &path(&[0])), m.get_case_tag(&b2, &path(&[1])), m.get_case_tag(&b2, &path(&[2]))), (*a, *b, *c));
    }
}
'''),
 dict(id='c12-long-string', property='C12', file=M,
      reps=[("offset = offset + length as usize as usize;", "offset = offset + length as u16 as usize;")],
      needs='a string of 65536 or more bytes in front of another one', breaks='what follows the long string is read from the wrong place',
      demo=PRE + '''
#[test]
fn long_string() {
    let m = marshaller("(string, string)");
    for n in [3usize, 65535, 65536, 70001].iter() {
        let mut s = IntermediateDataSource::new();
        s.add_string(&path(&[0]), &"x".repeat(*n));
        s.add_string(&path(&[1]), "tail");
        let b = encode(&m, &s);
        assert_eq!(m.get_bytes(&b, &path(&[0])).len(), *n);
        assert_eq!(m.get_bytes(&b, &path(&[1])), b"tail");
    }
}
'''),
 dict(id='c12-wide-tag', property='C12', file=M,
      reps=[("let num_bits = util::required_bits(cases.len() - 1);", "let num_bits = util::required_bits(cases.len() - 1).min(8);")],
      needs='an enum of more than 256 cases', breaks='the later cases are read as earlier ones',
      demo=PRE + '''
#[test]
fn many_cases() {
    let m = marshaller(&cases(300));
    for c in [0usize, 1, 255, 256, 299].iter() {
        let mut s = IntermediateDataSource::new();
        s.add_case_tag(&path(&[]), *c);
        assert_eq!(m.get_case_tag(&encode(&m, &s), &path(&[])), *c);
    }
}
'''),
 dict(id='c12-case-size', property='C12', file=M,
      reps=[("                    offset = offset + case_size;", "                    offset = offset + util::align(case_size, self.alignment.min(4));")],
      needs='an enum whose chosen case holds a string of odd length, in a type with fields of four bytes, in front of another variable part',
      breaks='what follows the enum is read from the wrong place',
      demo=PRE + '''
#[test]
fn after_an_enum() {
    let m = marshaller("(enum { a: (), b: u8 }, string, enum { a: (), b: u8 }, u32)");
    for (x, y) in [(0, 0), (1, 0), (0, 1), (1, 1)].iter() {
        let mut s = IntermediateDataSource::new();
        s.add_case_tag(&path(&[0]), *x);
        s.add_primitive(&path(&[0, 1]), PrimitiveValue::U8(7));
        s.add_string(&path(&[1]), "abc");
        s.add_case_tag(&path(&[2]), *y);
        s.add_primitive(&path(&[2, 1]), PrimitiveValue::U8(9));
        s.add_primitive(&path(&[3]), PrimitiveValue::U32(77));
        let b = encode(&m, &s);
        let p = path(&[2, 1]);
        assert_eq!(m.get_bytes(&b, &path(&[1])), b"abc");
        if *y == 1 { assert_eq!(m.get_primitive::<u8>(&b, &p), 9); }
        if *x == 1 { assert_eq!(m.get_primitive::<u8>(&b, &path(&[0, 1])), 7); }
    }
}
'''),
 dict(id='c13-empty-string', property='C13', file=M,
      reps=[("                    offset += length;\n                }\n                VariableSizeFieldKind::Enum { ref cases } => {\n                    let case_tag = source.get_case_tag(&field.path);\n                    offset += cases[case_tag].encoding_size_with_source(source);",
             "                    offset += cmp::max(length, 1);\n                }\n                VariableSizeFieldKind::Enum { ref cases } => {\n                    let case_tag = source.get_case_tag(&field.path);\n                    offset += cases[case_tag].encoding_size_with_source(source);")],
      needs='an empty string that ends at an aligned offset', breaks='the announced size is larger than what encode returns',
      demo=PRE + '''
#[test]
fn sizes_agree() {
    let m = marshaller("(string, u32)");
    for t in ["", "a", "abc"].iter() {
        let mut s = IntermediateDataSource::new();
        s.add_string(&path(&[0]), t);
        s.add_primitive(&path(&[1]), PrimitiveValue::U32(1));
        let n = m.encoding_size(&s);
        let mut b = vec![0u8; n + 64];
        assert_eq!(m.encode(&s, &mut b), n);
    }
    let m = marshaller("(u64, string)");
    let mut s = IntermediateDataSource::new();
    s.add_primitive(&path(&[0]), PrimitiveValue::U64(1));
    for k in 0..20 {
        s.add_string(&path(&[1]), &"z".repeat(k));
        let n = m.encoding_size(&s);
        let mut b = vec![0u8; n + 64];
        assert_eq!(m.encode(&s, &mut b), n);
    }
}
'''),
 dict(id='c14-fixed-part', property='C14', file=M,
      reps=[("        let mut offset = self.var_field_offset;\n        assert!(buffer.len() >= offset);", "        let mut offset = self.var_field_offset;\n        assert!(buffer.len() + self.alignment > offset);")],
      needs='a buffer a few bytes too short for the fixed part of a value', breaks='encode writes past the end of the buffer',
      demo=PRE + '''
#[test]
fn short_buffer() {
    let m = marshaller("(u64, u64, u32)");
    let mut s = IntermediateDataSource::new();
    s.add_primitive(&path(&[0]), PrimitiveValue::U64(u64::max_value()));
    s.add_primitive(&path(&[1]), PrimitiveValue::U64(u64::max_value()));
    s.add_primitive(&path(&[2]), PrimitiveValue::U32(u32::max_value()));
    for n in 0..20 {
        let mut store = vec![0u8; 64];
        let r = catch_unwind(AssertUnwindSafe(|| m.encode(&s, &mut store[..n])));
        assert!(r.is_err());
        assert!(store[n..].iter().all(|b| *b == 0), "{}", n);
    }
}
'''),
 dict(id='c14-value-end', property='C14', file=U,
      reps=[("pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {\n    assert!(offset + mem::size_of::<T>() <= buffer.len());", "pub fn set_value<T: Copy>(buffer: &mut [u8], offset: usize, value: T) {\n    assert!(offset + mem::align_of::<T>() <= buffer.len() + mem::size_of::<T>() / 8);")],
      needs='a value that ends behind the last byte of the buffer, of a type of 8 bytes or more', breaks='the bytes behind the buffer are overwritten',
      demo=PRE + '''
#[test]
fn at_the_end() {
    for n in 0..24 {
        let mut store = vec![0u8; 64];
        let r = catch_unwind(AssertUnwindSafe(|| util::set_value(&mut store[..12], n, [0xffffffffu32; 3])));
        assert_eq!(r.is_ok(), n == 0);
        assert!(store[12..].iter().all(|b| *b == 0), "{}", n);
        let mut store = vec![0u8; 64];
        let r = catch_unwind(AssertUnwindSafe(|| util::set_value(&mut store[..12], n, u32::max_value())));
        assert_eq!(r.is_ok(), n <= 8);
        assert!(store[12..].iter().all(|b| *b == 0), "{}", n);
        let mut store = vec![0u8; 64];
        let r = catch_unwind(AssertUnwindSafe(|| util::set_value(&mut store[..12], n, u64::max_value())));
        assert_eq!(r.is_ok(), n <= 4);
        assert!(store[12..].iter().all(|b| *b == 0), "{}", n);
    }
}
'''),
 dict(id='c16-insert-second', property='C16', file=N,
      reps=[("            let mut row_offset = if index > 0 {", "            let mut row_offset = if index > 1 {")],
      needs='inserting a row at position 1 of a page', breaks='the first row is overwritten by the inserted one',
      demo=PRE + '''
#[test]
fn insert_anywhere() {
    let f = PageFormat::new(8);
    for at in 0..4usize {
        let mut page = vec![0u8; 512];
        f.initialize_page(&mut page);
        let mut want: Vec<Vec<u8>> = (0..3u8).map(|i| vec![i + 1; 5 + 3 * i as usize]).collect();
        for r in &want { f.append_row(&mut page, r); }
        want.insert(at, vec![9; 10]);
        f.insert_row(&mut page, at, &[9; 10]);
        assert_eq!(rows(&f, &page), want);
    }
}
'''),
 dict(id='c16-large-page', property='C16', file=N,
      reps=[("self.set_row_offset(page, row_index + 1, (old_offset - delta) as Offset);", "self.set_row_offset(page, row_index + 1, (old_offset as u16 - delta as u16) as Offset);")],
      needs='inserting before other rows of a page larger than 64 KiB', breaks='the rows that were moved are found at the wrong place',
      demo=PRE + '''
#[test]
fn large_page() {
    let f = PageFormat::new(8);
    for size in [512usize, 65536 * 2].iter() {
        let mut page = vec![0u8; *size];
        f.initialize_page(&mut page);
        f.append_row(&mut page, b"one");
        f.append_row(&mut page, b"two");
        f.insert_row(&mut page, 0, b"zero");
        assert_eq!(rows(&f, &page), vec![b"zero".to_vec(), b"one".to_vec(), b"two".to_vec()]);
    }
}
'''),
 dict(id='c17-unaligned-directory', property='C17', file=N,
      reps=[("        let lower_bound = util::align(\n            mem::size_of::<Offset>() * (num_rows + 2),\n            self.row_alignment as usize,\n        );", "        let lower_bound = mem::size_of::<Offset>() * (num_rows + 2);")],
      needs='a page whose row directory does not end at an aligned offset', breaks='a row is announced to fit whose space overlaps the row directory',
      demo=PRE + '''
#[test]
fn fill() {
    let f = PageFormat::new(16);
    let mut page = vec![0u8; 256];
    f.initialize_page(&mut page);
    let mut want: Vec<Vec<u8>> = Vec::new();
    for i in 0..12u8 {
        let n = f.max_insert_row_size(&page);
        if n < 16 {
            break;
        }
        want.push(vec![i + 1; 16]);
        f.append_row(&mut page, &want[i as usize]);
    }
    let n = f.max_insert_row_size(&page);
    if n > 0 {
        want.push(vec![99; n]);
        let r = catch_unwind(AssertUnwindSafe(|| f.append_row(&mut page, &vec![99; n])));
        assert!(r.is_ok());
    }
    assert_eq!(rows(&f, &page), want);
}
'''),
 dict(id='c17-one-offset-short', property='C17', file=N,
      reps=[("            mem::size_of::<Offset>() * (num_rows + 2),\n            self.row_alignment as usize,", "            mem::size_of::<Offset>() * (num_rows + 2 - (num_rows >> 1) % 2),\n            self.row_alignment as usize,")],
      needs='filling a page with two or three rows up to the last byte', breaks='the reported room does not leave space for the offset of the new row',
      demo=PRE + '''
#[test]
fn exact() {
    let f = PageFormat::new(4);
    for k in 0..6usize {
        let mut page = vec![0u8; 128];
        f.initialize_page(&mut page);
        for i in 0..k { f.append_row(&mut page, &[i as u8; 4]); }
        assert_eq!(f.max_insert_row_size(&page), 128 - 4 * k - 4 * (k + 2));
    }
}
'''),
]
