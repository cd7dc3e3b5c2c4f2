pub ghost struct SB { pub h: u64, pub o: u64, pub layer: Seq<char>, pub name: Seq<char>, pub flags: i32, pub x: f64, pub y: f64, pub z: f64, pub xref: Seq<char>, pub desc: Seq<char>, pub paper: bool, pub ents: Seq<SE>, pub groups: Seq<SGZ>, pub xd: Seq<SXZ> }
pub open spec fn bv(b: Block) -> SB { SB { h: b.handle.0, o: b.__owner_handle.0, layer: b.layer@, name: b.name@, flags: b.flags, x: b.base_point.x, y: b.base_point.y, z: b.base_point.z, xref: b.xref_path_name@, desc: b.description@, paper: b.is_in_paperspace, ents: ezs(b.entities@), groups: gzs(b.extension_data_groups@), xd: xzs(b.x_data@) } }
pub open spec fn bvs(s: Seq<Block>) -> Seq<SB> { s.map_values(|c: Block| bv(c)) }
pub open spec fn b_default() -> SB { SB { h: 0, o: 0, layer: "0"@, name: seq![], flags: 0, x: 0.0f64, y: 0.0f64, z: 0.0f64, xref: seq![], desc: seq![], paper: false, ents: seq![], groups: seq![], xd: seq![] } }
pub open spec fn g_h(p: SP) -> Option<u64> { match g_str(p) { Some(t) => if all_hex(t) && t.len() <= 16 { Some(be(hexs(t)) as u64) } else { None }, None => None } }
pub open spec fn endblk(s: St) -> bool { is0(s) && txt(s) == Some("ENDBLK"@) }
pub open spec fn b_one(p: SP) -> bool { p.code != 0 && p.code != 102 && p.code != 1001 }
pub open spec fn b_step(x: SB, p: SP, s: St) -> Option<(SB, St)> {
    if p.code == 0 { if g_str(p) == Some("ENDSEC"@) { None } else { match ez_take(seq![Some(p)] + s) { None => None, Some((l, s2)) => Some((SB { ents: x.ents + l, ..x }, s2)) } } }
    else if p.code == 1 { if g_str(p) is None { None } else { Some((SB { xref: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 2 { if g_str(p) is None { None } else { Some((SB { name: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 4 { if g_str(p) is None { None } else { Some((SB { desc: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 5 { if g_h(p) is None { None } else { Some((SB { h: g_h(p)->Some_0, ..x }, s)) } }
    else if p.code == 8 { if g_str(p) is None { None } else { Some((SB { layer: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 10 { if g_f64(p) is None { None } else { Some((SB { x: g_f64(p)->Some_0, ..x }, s)) } }
    else if p.code == 20 { if g_f64(p) is None { None } else { Some((SB { y: g_f64(p)->Some_0, ..x }, s)) } }
    else if p.code == 30 { if g_f64(p) is None { None } else { Some((SB { z: g_f64(p)->Some_0, ..x }, s)) } }
    else if p.code == 67 { if g_i16(p) is None { None } else { Some((SB { paper: g_i16(p)->Some_0 == 1, ..x }, s)) } }
    else if p.code == 70 { if g_i16(p) is None { None } else { Some((SB { flags: g_i16(p)->Some_0 as i32, ..x }, s)) } }
    else if p.code == 330 { if g_h(p) is None { None } else { Some((SB { o: g_h(p)->Some_0, ..x }, s)) } }
    else if p.code == 102 { if g_str(p) is None { None } else { match gz_take(g_str(p)->Some_0, s) { None => None, Some((g, s2)) => Some((SB { groups: x.groups.push(g), ..x }, s2)) } } }
    else if p.code == 1001 { if g_str(p) is None { None } else { match xz_take(g_str(p)->Some_0, s) { None => None, Some((g, s2)) => Some((SB { xd: x.xd.push(g), ..x }, s2)) } } }
    else { Some((x, s)) }
}
