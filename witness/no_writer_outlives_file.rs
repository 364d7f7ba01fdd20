// expect: E0505
use std::io::Cursor;
use tedium::TdmsFile;

pub fn f(mut file: TdmsFile<Cursor<Vec<u8>>>) {
    let mut w = file.writer().unwrap();
    drop(file);
    w.sync().unwrap();
}
fn main() {}
