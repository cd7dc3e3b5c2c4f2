// ---- classes ----
pub ghost struct SC { pub rec: Seq<char>, pub cls: Seq<char>, pub app: Seq<char>, pub ver: i32, pub prox: i32, pub n: usize, pub loaded: bool, pub ent: bool }
pub open spec fn cv(c: Class) -> SC { SC { rec: c.record_name@, cls: c.class_name@, app: c.application_name@, ver: c.version_number, prox: c.proxy_capability_flags, n: c.instance_count, loaded: c.was_class_loaded_with_file, ent: c.is_entity } }
pub open spec fn c_default() -> SC { SC { rec: seq![], cls: seq![], app: seq![], ver: 0, prox: 0, n: 0, loaded: true, ent: false } }
pub open spec fn cvs(s: Seq<Class>) -> Seq<SC> { s.map_values(|c: Class| cv(c)) }
pub open spec fn r13(v: AcadVersion) -> bool { vord(v) <= vord(AcadVersion::R13) }
pub open spec fn c_one(p: SP) -> bool { p.code != 0 }
pub open spec fn c_step(v: AcadVersion, x: SC, p: SP, s: St) -> Option<(SC, St)> {
    if p.code == 1 { if g_str(p) is None { None } else if r13(v) { Some((SC { cls: g_str(p)->Some_0, ..x }, s)) } else { Some((SC { rec: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 2 { if g_str(p) is None { None } else if r13(v) { Some((SC { app: g_str(p)->Some_0, ..x }, s)) } else { Some((SC { cls: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 3 { if r13(v) { Some((x, s)) } else if g_str(p) is None { None } else { Some((SC { app: g_str(p)->Some_0, ..x }, s)) } }
    else if p.code == 90 { if g_i32(p) is None { None } else if r13(v) { Some((SC { ver: g_i32(p)->Some_0, ..x }, s)) } else { Some((SC { prox: g_i32(p)->Some_0, ..x }, s)) } }
    else if p.code == 91 { if g_i32(p) is None { None } else { Some((SC { n: g_i32(p)->Some_0 as usize, ..x }, s)) } }
    else if p.code == 280 { if g_i16(p) is None { None } else { Some((SC { loaded: g_i16(p)->Some_0 != 1, ..x }, s)) } }
    else if p.code == 281 { if g_i16(p) is None { None } else { Some((SC { ent: g_i16(p)->Some_0 == 1, ..x }, s)) } }
    else { Some((x, s)) }
}
