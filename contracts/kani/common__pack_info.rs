use crate::verif::*;

#[cfg(any(kani, test))]
fn any_pack_info(location: SmallString) -> (PackInfo, u16, u64) {
    let (size, offset): (u16, u64) = (sym(), sym());
    require(offset < 1 << 48);
    let free: u16 = sym();
    let k: u8 = sym();
    (PackInfo {
        uuid: Uuid::from_bytes(sym_bytes()),
        pack_size: Size::new(sym()),
        check_info_pos: SizedOffset::new(ASize::new(size as usize), Offset::new(offset)),
        pack_id: PackId::from(sym::<u16>()),
        pack_kind: match k & 3 { 0 => PackKind::Manifest, 1 => PackKind::Directory, 2 => PackKind::Content, _ => PackKind::Container },
        pack_group: sym(),
        free_data_id: ValueIdx::from(free as u64),
        pack_location: location,
    }, free, offset << 16 | size as u64)
}

#[cfg(any(kani, test))]
fn check_bytes(location: &str) {
    let (p, free, check) = any_pack_info(SmallString::from(location));
    let b = written(&p);
    let n = location.len();
    assert!(b.len() == 252);
    assert!(same(&b[0..16], p.uuid.as_bytes()));
    assert!(le(&b[16..24]) == p.pack_size.into_u64() && le(&b[24..32]) == check);
    assert!(le(&b[32..34]) == p.pack_id.into_u64() && b[34] == p.pack_kind as u8 && b[35] == p.pack_group);
    assert!(le(&b[36..38]) == free as u64);
    assert!(b[38] as usize == n && same(&b[39..39 + n], location.as_bytes()) && same(&b[39 + n..252], &[0; 213][n..]));
    std::mem::forget((b, p));
}

//@ C12 C14 C05 C04: PackInfo::serialize: 252 bytes; the first 38 are the description and do not depend on the location, the rest is the padded location (short location)
contract! {
    #[kani::unwind(216)]
    fn pack_info_bytes() {
        check_bytes("a/b");
        covered!("checked");
    }
}

//@ C12 C14: PackInfo::serialize: the same with an empty location
contract! {
    #[kani::unwind(216)]
    fn pack_info_bytes_unlocated() {
        check_bytes("");
        covered!("checked");
    }
}
