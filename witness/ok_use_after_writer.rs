// expect: compiles
use std::io::Cursor;
use tedium::{ChannelPath, DataLayout, PropertyPath, TdmsFile};

pub fn f(file: &mut TdmsFile<Cursor<Vec<u8>>>) {
    let c = ChannelPath::new("g", "c");
    {
        let mut w = file.writer().unwrap();
        w.write_channels(&[&c], &[1i32], DataLayout::Contigious).unwrap();
        w.sync().unwrap();
    }
    let mut out = [0i32; 1];
    file.read_channel(&c, &mut out).unwrap();
    let mut w = file.writer().unwrap();
    w.write_properties(&PropertyPath::file(), &[]).unwrap();
    drop(w);
    let _ = file.list_groups().count();
}
fn main() {}
