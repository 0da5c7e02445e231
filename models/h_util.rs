
// Appended by /verif to the scratch copy that is analysed: instances of the unchecked accessors.
#[allow(dead_code, unused)]
pub mod vharness_util {
    use crate::core::util::{get_value, set_value};
    pub fn instances(b: &mut [u8], n: usize) {
        set_value::<u8>(b, n, get_value::<u8>(b, n));
        set_value::<u16>(b, n, get_value::<u16>(b, n));
        set_value::<u32>(b, n, get_value::<u32>(b, n));
        set_value::<u64>(b, n, get_value::<u64>(b, n));
        set_value::<u128>(b, n, get_value::<u128>(b, n));
        set_value::<[u32; 3]>(b, n, get_value::<[u32; 3]>(b, n));
    }
}
