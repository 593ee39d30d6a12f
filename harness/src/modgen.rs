//! Writing bitcode modules.

use crate::stream::SW;

pub fn chars(s: &str) -> Vec<u64> {
    s.bytes().map(|b| b as u64).collect()
}

pub fn identification(s: &mut SW, producer: &str, epoch: u64) {
    s.enter(13, 5);
    s.unabbrev(1, &chars(producer));
    s.unabbrev(2, &[epoch]);
    s.exit();
}

/// A blob record in a block of its own, as for string and symbol tables.
pub fn blob_block(s: &mut SW, id: u64, data: &[u8]) {
    s.enter(id, 3);
    let f: Vec<u64> = data.iter().map(|b| *b as u64).collect();
    s.unabbrev(1, &f);
    s.exit();
}

/// A module with what every module needs, except for the type table, which `f` writes along with
/// anything else.
pub fn skeleton(s: &mut SW, f: impl FnOnce(&mut SW)) {
    identification(s, "LLVM", 0);
    s.enter(8, 3);
    s.unabbrev(1, &[2]);
    f(s);
    s.enter(14, 4);
    s.exit();
    s.exit();
    blob_block(s, 23, b"mainhelper");
}
