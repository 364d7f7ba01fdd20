// expect: E0502
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile, PropertyPath};

pub fn f(file: &mut TdmsFile<Cursor<Vec<u8>>>) {
    let c = ChannelPath::new("g", "c");
    let p = PropertyPath::file();
    let _ = (&c, &p);
    let mut w = file.writer().unwrap();
    let _ = file.list_groups().count();
    w.sync().unwrap();
}
fn main() {}
