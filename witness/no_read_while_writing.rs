// expect: E0499
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile, PropertyPath};

pub fn f(file: &mut TdmsFile<Cursor<Vec<u8>>>) {
    let c = ChannelPath::new("g", "c");
    let p = PropertyPath::file();
    let _ = (&c, &p);
    let mut w = file.writer().unwrap();
    let mut out = [0i32; 1];
    file.read_channel(&c, &mut out).unwrap();
    w.sync().unwrap();
}
fn main() {}
