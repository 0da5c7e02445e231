S = 'src/core/util.rs'
USE = '''
#![allow(unused)]
use crate::core::util::*;
fn refused<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err()
}
'''
ALIGN = '''
    for k in 0..64u32 {
        let a = 1usize << k;
        for v in [0usize, 1, 5, 4095, 65535, 65537, (1 << 32) - 1, (1 << 32) + 1, (1 << 40) + 3, 1 << 48, (1 << 62) + 7] {
            if let Some(last) = v.checked_add(a - 1) {
                assert_eq!(align(v, a), last / a * a);
            }
        }
    }
    for a in [0usize, 3, 6, 12, 24, 100, (1 << 32) + 1, (1 << 33) + 2, usize::MAX] {
        assert!(refused(|| align(5, a)));
    }
'''
BITS = '''
    for k in 1..=64u32 {
        let top = if k == 64 { usize::MAX } else { (1usize << k) - 1 };
        assert_eq!((required_bits(top), required_bits(1 << (k - 1))), (k as usize, k as usize));
    }
    assert_eq!(required_bits(0), 0);
'''
LOG = '''
    for k in 0..64u32 {
        assert_eq!(log2(1 << k), k);
        if k > 1 {
            assert!(refused(|| log2((1 << k) - 1)) && refused(|| log2((1 << k) + 1)));
        }
    }
    assert!(refused(|| log2(0)));
'''


def seed(id, reps, needs, breaks, body):
    return dict(id=id, property='C33', file=S, reps=reps, needs=needs, breaks=breaks, demo=USE + '#[test]\nfn holds() {\n' + body.strip('\n') + '\n}\n')


AL = '(value + alignment - 1) & !(alignment - 1)'
BT = '''        let leading_zeros = value.leading_zeros() as usize;
        let total_bits = mem::size_of_val(&value) * 8;
        total_bits - leading_zeros'''
SEEDS = [
    seed('c33-align-u32', [(AL, '(value + alignment - 1) & !(alignment as u32 - 1) as usize')], 'a size of 4 GiB or more, or such an alignment', 'the upper half of the size is lost', ALIGN),
    seed('c33-align-large', [(AL, 'if alignment < 4096 {\n        (value + alignment - 1) & !(alignment - 1)\n    } else {\n        // whole pages\n        (value / alignment + 1) * alignment\n    }')],
         'a size that is a multiple of an alignment of 4096 or more', 'one page too many', ALIGN.replace('(1 << 48)', '0, 4096')),
    seed('c33-align-even', [('    assert!(alignment.is_power_of_two());\n', '    assert!(alignment == 1 || alignment & 1 == 0 && alignment & (alignment >> 1) == 0);\n')],
         'an alignment such as 10 (no two adjacent bits set)', 'an alignment that is no power of two is accepted', ALIGN.replace('[0usize, 3,', '[10usize, 0, 3,')),
    seed('c33-bits-halves', [(BT, """        let (high, low) = ((value >> 32) as u32, value as u32);
        let bits = if high > 1 { 64 - high.leading_zeros() } else { 32 - low.leading_zeros() };
        bits as usize""")], 'a size from 2^32 to 2^33', 'its highest bit is not counted', BITS),
    seed('c33-bits-round', [(BT, """        let leading_zeros = (value - (value >> 52)).leading_zeros() as usize;
        let total_bits = mem::size_of_val(&value) * 8;
        total_bits - leading_zeros""")], 'a power of two from 2^52', 'one bit too few', BITS),
    seed('c33-log-u32', [('    value.trailing_zeros()\n', '    (value as u32).trailing_zeros()\n')], 'a power of two from 2^32', 'the logarithm is 32', LOG),
    seed('c33-log-any', [('    assert!(value.is_power_of_two());\n\n    value', '    assert!(value < 1 << 32 || value & 0xffff_ffff == 0);\n    assert!((value as u32).count_ones() <= 1);\n\n    value')],
         'a number with two bits set in its upper half', 'a logarithm of a number that has none', LOG.replace('refused(|| log2((1 << k) + 1))', 'refused(|| log2((1 << k) + 1)) && (k < 60 || refused(|| log2(5 << (k - 3))))')),
]
