// expect: E0502
use std::io::Cursor;
use tedium::{ChannelPath, TdmsFile, PropertyPath};

pub fn f(file: &mut TdmsFile<Cursor<Vec<u8>>>) {
    let c = ChannelPath::new("g", "c");
    let p = PropertyPath::file();
    let _ = (&c, &p);
    let v = file.read_property(&p, "x").unwrap();
    let mut w = file.writer().unwrap();
    w.sync().unwrap();
    drop(w);
    let _ = v.is_some();
}
fn main() {}
