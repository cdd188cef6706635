/// CRC-32C (Castagnoli), as the ext4 driver uses it: reflected, polynomial
/// 0x82F63B78, raw state in and out (no final inversion). Bit-by-bit table,
/// written independently of the crate the code under test uses.
static TABLE: [u32; 256] = table();

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut c = i as u32;
        let mut k = 0;
        while k < 8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0x82F6_3B78 } else { c >> 1 };
            k += 1;
        }
        t[i] = c;
        i += 1;
    }
    t
}

pub fn crc32c(mut state: u32, bytes: &[u8]) -> u32 {
    for b in bytes {
        state = (state >> 8) ^ TABLE[((state ^ u32::from(*b)) & 0xff) as usize];
    }
    state
}
