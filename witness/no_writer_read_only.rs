// expect: E0599
use std::io::{Read, Seek};
use tedium::TdmsFile;

pub fn f<F: Read + Seek>(file: &mut TdmsFile<F>) {
    let _ = file.writer();
}
fn main() {}
