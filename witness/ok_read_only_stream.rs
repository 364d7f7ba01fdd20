// expect: compiles
use std::io::{Read, Seek};
use tedium::{ChannelPath, PropertyPath, TdmsError, TdmsFile};

pub fn f<F: Read + Seek>(stream: F) -> Result<(), TdmsError> {
    let mut file = TdmsFile::new(stream)?;
    let p = PropertyPath::group("g");
    let c = ChannelPath::new("g", "c");
    let _ = file.read_property(&p, "x")?;
    let _ = file.read_all_properties(&p);
    let _ = file.list_groups().count();
    let _ = file.list_channels_in_group(&p).count();
    let _ = file.channel_length(&c);
    let mut a = [0f64; 2];
    let mut b = [0f64; 2];
    file.read_channel(&c, &mut a)?;
    file.read_channel_from(&c, 1, &mut a)?;
    file.read_channels(&[&c, &c], &mut [&mut a[..], &mut b[..]])?;
    file.read_channels_from(&[&c, &c], 1, &mut [&mut a[..], &mut b[..]])?;
    Ok(())
}
fn main() {}
