// one block: its pairs and entities up to ENDBLK, whose own pairs are ignored
pub open spec fn b_rec(s: St) -> Option<(SB, St)> { match b_fold(b_default(), s) { None => None, Some((b, s2)) => match to_0(s2.skip(1)) { None => None, Some(s3) => Some((b, s3)) } } }
pub proof fn lemma_b_len(x: SB, s: St) ensures b_fold(x, s) is Some ==> b_fold(x, s)->Some_0.1.len() <= s.len() && endblk(b_fold(x, s)->Some_0.1), decreases s.len(),
{ if s.len() > 0 && s[0] is Some && !endblk(s) { match b_step(x, s[0]->Some_0, s.skip(1)) { Some((x2, s2)) => { if s2.len() < s.len() { lemma_b_len(x2, s2); } }, None => {} } } }
pub open spec fn bs_read(s: St) -> Option<(Seq<SB>, St)> decreases s.len() {
    if !is0(s) || txt(s) is None { None } else if stop_sec(s) { Some((seq![], s)) } else if txt(s) != Some("BLOCK"@) { None }
    else { match b_rec(s.skip(1)) { None => None, Some((b, s2)) => if s2.len() < s.len() { match bs_read(s2) { None => None, Some((l, s3)) => Some((seq![b] + l, s3)) } } else { None } } }
}
// the block as it is kept in the drawing: a handle is found for it when it has none; its entities get handles
pub uninterp spec fn ents_alike(a: Seq<SE>, b: Seq<SE>) -> bool;
pub open spec fn b_same(a: SB, b: SB) -> bool { a == (SB { h: a.h, ents: a.ents, ..b }) && (b.h != 0 ==> a.h == b.h) && a.h != 0 && ents_alike(a.ents, b.ents) }
pub open spec fn added(a: Seq<SB>, b: Seq<SB>, l: Seq<SB>) -> bool { b.len() == a.len() + l.len() && b.take(a.len() as int) == a && forall|i: int| 0 <= i < l.len() ==> b_same(#[trigger] b[a.len() + i], l[i]) }
pub proof fn lemma_added0(a: Seq<SB>) ensures added(a, a, seq![]), { assert(a.take(a.len() as int) =~= a); }
pub proof fn lemma_join(a: Seq<SB>, b: Seq<SB>, c: Seq<SB>, l: Seq<SB>, x: SB) requires added(a, b, l), added(b, c, seq![x]), ensures added(a, c, l.push(x)), { assert(b_same(c[b.len() + 0int], seq![x][0])); lemma_added(a, b, c, l, x); }
pub proof fn lemma_added(a: Seq<SB>, b: Seq<SB>, c: Seq<SB>, l: Seq<SB>, x: SB) requires added(a, b, l), c.len() == b.len() + 1, c.take(b.len() as int) == b, b_same(c.last(), x), ensures added(a, c, l.push(x)),
{
    assert(c.take(a.len() as int) =~= b.take(a.len() as int)) by { assert forall|i: int| 0 <= i < a.len() implies c[i] == b[i] by { assert(c.take(b.len() as int)[i] == c[i]); } }
    assert forall|i: int| 0 <= i < l.push(x).len() implies b_same(#[trigger] c[a.len() + i], l.push(x)[i]) by { if i < l.len() { assert(c.take(b.len() as int)[a.len() + i] == c[a.len() + i]); assert(b_same(b[a.len() + i], l[i])); } }
}
// ---- the pairs written for a block ----
pub open spec fn po(s: Seq<SP>, c: bool, p: SP) -> Seq<SP> { if c { s.push(p) } else { s } }
pub proof fn lemma_pp(a: Seq<SP>, s: Seq<SP>, p: SP) ensures (a + s).push(p) == a + s.push(p), { assert((a + s).push(p) =~= a + s.push(p)); }
pub proof fn lemma_p0(a: Seq<SP>) ensures a + Seq::<SP>::empty() == a, Seq::<SP>::empty() + a == a, { assert(a + Seq::<SP>::empty() =~= a); assert(Seq::<SP>::empty() + a =~= a); }
pub open spec fn p_h(c: i32, h: u64) -> SP { p_str(c, hexn(h as int)) }
pub open spec fn i16b(b: bool) -> i16 { if b { 1i16 } else { 0i16 } }
pub open spec fn vge(v: AcadVersion, w: AcadVersion) -> bool { vord(v) >= vord(w) }
pub open spec fn b0(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { po(Seq::<SP>::empty().push(p_str(0, "BLOCK"@)), wh && vge(v, AcadVersion::R13), p_h(5, b.h)) }
pub open spec fn b1(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { po(Seq::<SP>::empty(), wh && vge(v, AcadVersion::R13), p_h(5, b.h)) }
pub open spec fn b2(v: AcadVersion, b: SB) -> Seq<SP> {
    let r13 = vge(v, AcadVersion::R13);
    let e = po(po(Seq::<SP>::empty(), r13 && b.o != 0, p_h(330, b.o)), r13, p_str(100, "AcDbEntity"@));
    let e = po(po(e, b.paper, p_i16(67, 1)).push(p_str(8, b.layer)), r13, p_str(100, "AcDbBlockBegin"@));
    let e = e.push(p_str(2, b.name)).push(p_i16(70, b.flags as i16)).push(p_f64(10, b.x)).push(p_f64(20, b.y)).push(p_f64(30, b.z));
    po(po(e, vge(v, AcadVersion::R12), p_str(3, b.name)).push(p_str(1, b.xref)), b.desc.len() > 0, p_str(4, b.desc))
}
pub open spec fn b_tail0(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { po(Seq::<SP>::empty().push(p_str(0, "ENDBLK"@)), wh && b.h != 0, p_h(5, b.h)) }
pub open spec fn b_tail1(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { po(Seq::<SP>::empty(), wh && b.h != 0, p_h(5, b.h)) }
pub open spec fn b_tail2(v: AcadVersion, b: SB) -> Seq<SP> {
    let r13 = vge(v, AcadVersion::R13);
    let e = po(po(Seq::<SP>::empty(), vge(v, AcadVersion::R2000) && b.o != 0, p_h(330, b.o)), r13, p_str(100, "AcDbEntity"@));
    po(po(e, b.paper, p_i16(67, 1)).push(p_str(8, b.layer)), r13, p_str(100, "AcDbBlockEnd"@))
}
pub open spec fn b_groups(v: AcadVersion, b: SB) -> Seq<SP> { if vge(v, AcadVersion::R14) { gz_encs(b.groups) } else { seq![] } }
pub open spec fn b_tail(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { b_tail1(v, wh, b) + b_groups(v, b) + b_tail2(v, b) }
pub open spec fn b_enc(v: AcadVersion, wh: bool, b: SB) -> Seq<SP> { b0(v, wh, b) + b_groups(v, b) + b2(v, b) + xz_encs(v, b.xd) + ez_encs(v, wh, b.ents) + b_tail0(v, wh, b) + b_groups(v, b) + b_tail2(v, b) }
pub open spec fn b_parts(v: AcadVersion, wh: bool, b: SB, s: St) -> St { let t1 = ok_all(ez_encs(v, wh, b.ents)) + (seq![Some(p_str(0, "ENDBLK"@))] + (ok_all(b_tail(v, wh, b)) + s)); ok_all(b1(v, wh, b)) + (ok_all(b_groups(v, b)) + (ok_all(b2(v, b)) + (ok_all(xz_encs(v, b.xd)) + t1))) }
pub proof fn lemma_b_assoc(h0: SP, p1: Seq<SP>, g: Seq<SP>, f: Seq<SP>, x: Seq<SP>, e: Seq<SP>, h1: SP, p2: Seq<SP>, t: Seq<SP>, s: St)
    ensures ok_all((seq![h0] + p1) + g + f + x + e + (seq![h1] + p2) + g + t).skip(1) + s == ok_all(p1) + (ok_all(g) + (ok_all(f) + (ok_all(x) + (ok_all(e) + (seq![Some(h1)] + (ok_all(p2 + g + t) + s)))))),
{
    let l = (seq![h0] + p1) + g + f + x + e + (seq![h1] + p2) + g + t;
    assert(l =~= seq![h0] + (p1 + g + f + x + e + seq![h1] + (p2 + g + t)));
    let y = p1 + g + f + x + e + seq![h1] + (p2 + g + t);
    assert(ok_all(l).skip(1) =~= ok_all(y));
    let z = p2 + g + t;
    assert(ok_all(y) + s =~= ok_all(p1) + (ok_all(g) + (ok_all(f) + (ok_all(x) + (ok_all(e) + (seq![Some(h1)] + (ok_all(z) + s)))))));
}
pub proof fn lemma_b_cat(o: Seq<SP>, a: Seq<SP>, g: Seq<SP>, b: Seq<SP>, x: Seq<SP>, e: Seq<SP>, c: Seq<SP>, d: Seq<SP>)
    ensures o + a + g + b + x + e + c + g + d == o + (a + g + b + x + e + c + g + d),
{ assert(o + a + g + b + x + e + c + g + d =~= o + (a + g + b + x + e + c + g + d)); }
pub proof fn lemma_b_shape(v: AcadVersion, wh: bool, b: SB, s: St)
    ensures b_enc(v, wh, b).len() > 0, b_enc(v, wh, b)[0] == p_str(0, "BLOCK"@), ok_all(b_enc(v, wh, b)).skip(1) + s == b_parts(v, wh, b, s),
{
    hide(b2); hide(b_tail2); hide(b_groups); hide(gz_encs); hide(xz_encs); hide(ez_encs);
    assert(b0(v, wh, b) =~= seq![p_str(0, "BLOCK"@)] + b1(v, wh, b));
    assert(b_tail0(v, wh, b) =~= seq![p_str(0, "ENDBLK"@)] + b_tail1(v, wh, b));
    lemma_b_assoc(p_str(0, "BLOCK"@), b1(v, wh, b), b_groups(v, b), b2(v, b), xz_encs(v, b.xd), ez_encs(v, wh, b.ents), p_str(0, "ENDBLK"@), b_tail1(v, wh, b), b_tail2(v, b), s);
}
// what is assumed of the parts: a group is a 102 pair and then pairs that are not 0 pairs, read back as that group (C18) ...
pub open spec fn gz_ok(g: SGZ) -> bool { gz_enc(g).len() > 0 && gz_enc(g)[0].code == 102 && g_str(gz_enc(g)[0]) is Some && plain(ok_all(gz_enc(g))) && forall|s: St| #[trigger] gz_take(g_str(gz_enc(g)[0])->Some_0, ok_all(gz_enc(g).skip(1)) + s) == Some((g, s)) }
// ... the extended data of an application likewise, when a 0 or a 1001 pair follows; before R2000 none is written
pub open spec fn xz_stop(s: St) -> bool { st0(s) && (s[0]->Some_0.code == 0 || s[0]->Some_0.code == 1001) }
pub open spec fn xz_ok(v: AcadVersion, x: SXZ) -> bool { if vge(v, AcadVersion::R2000) { xz_enc(v, x).len() > 0 && xz_enc(v, x)[0].code == 1001 && g_str(xz_enc(v, x)[0]) is Some && forall|s: St| xz_stop(s) ==> #[trigger] xz_take(g_str(xz_enc(v, x)[0])->Some_0, ok_all(xz_enc(v, x).skip(1)) + s) == Some((x, s)) } else { xz_enc(v, x).len() == 0 } }
// ... and the entities start with a 0 pair and are read back, up to ENDBLK, as `l2`
pub open spec fn ez_ok(v: AcadVersion, wh: bool, l: Seq<SE>, l2: Seq<SE>) -> bool { if ez_encs(v, wh, l).len() == 0 { l2.len() == 0 } else { ez_encs(v, wh, l)[0].code == 0 && g_str(ez_encs(v, wh, l)[0]) != Some("ENDBLK"@) && g_str(ez_encs(v, wh, l)[0]) != Some("ENDSEC"@) && forall|s: St| endblk(s) ==> #[trigger] ez_take(ok_all(ez_encs(v, wh, l)) + s) == Some((l2, s)) } }
pub open spec fn b_fits(v: AcadVersion, wh: bool, b: SB, l2: Seq<SE>) -> bool {
    i16::MIN <= b.flags <= i16::MAX && (forall|i: int| 0 <= i < b.groups.len() ==> gz_ok(#[trigger] b.groups[i])) && (forall|i: int| 0 <= i < b.xd.len() ==> xz_ok(v, #[trigger] b.xd[i])) && ez_ok(v, wh, b.ents, l2)
}
pub open spec fn b_kept(v: AcadVersion, wh: bool, b: SB, l2: Seq<SE>) -> SB {
    SB { h: if wh && vge(v, AcadVersion::R13) { b.h } else { 0 }, o: if vge(v, AcadVersion::R13) { b.o } else { 0 }, groups: if vge(v, AcadVersion::R14) { b.groups } else { seq![] }, xd: if vge(v, AcadVersion::R2000) { b.xd } else { seq![] }, ents: l2, ..b }
}
pub proof fn lemma_b_groups(x: SB, l: Seq<SGZ>, s: St)
    requires forall|i: int| 0 <= i < l.len() ==> gz_ok(#[trigger] l[i]),
    ensures b_fold(x, ok_all(gz_encs(l)) + s) == b_fold(SB { groups: x.groups + l, ..x }, s),
    decreases l.len(),
{
    if l.len() == 0 { assert(ok_all(gz_encs(l)) + s =~= s); assert(x.groups + l =~= x.groups); }
    else {
        let g = l.last(); let e = gz_enc(g); let t = ok_all(e) + s;
        assert(ok_all(gz_encs(l)) + s =~= ok_all(gz_encs(l.drop_last())) + t);
        lemma_b_groups(x, l.drop_last(), t);
        assert(gz_ok(g));
        assert(t[0] == Some(e[0])); assert(t.skip(1) =~= ok_all(e.skip(1)) + s);
        assert((x.groups + l.drop_last()).push(g) =~= x.groups + l);
    }
}
pub proof fn lemma_b_xd(v: AcadVersion, x: SB, l: Seq<SXZ>, s: St)
    requires forall|i: int| 0 <= i < l.len() ==> xz_ok(v, #[trigger] l[i]), xz_stop(s),
    ensures b_fold(x, ok_all(xz_encs(v, l)) + s) == b_fold(if vge(v, AcadVersion::R2000) { SB { xd: x.xd + l, ..x } } else { x }, s), xz_stop(ok_all(xz_encs(v, l)) + s),
    decreases l.len(),
{
    if l.len() == 0 { assert(ok_all(xz_encs(v, l)) + s =~= s); assert(x.xd + l =~= x.xd); }
    else {
        let g = l.last(); let e = xz_enc(v, g); let t = ok_all(e) + s;
        assert(ok_all(xz_encs(v, l)) + s =~= ok_all(xz_encs(v, l.drop_last())) + t);
        assert(xz_ok(v, g));
        if vge(v, AcadVersion::R2000) {
            assert(t[0] == Some(e[0])); assert(t.skip(1) =~= ok_all(e.skip(1)) + s);
            lemma_b_xd(v, x, l.drop_last(), t);
            assert((x.xd + l.drop_last()).push(g) =~= x.xd + l);
        } else { assert(t =~= s); lemma_b_xd(v, x, l.drop_last(), t); }
    }
}
// THEOREM C17 (blocks): a block, written and read again, has every field that the version carries, and its entities are the entities that were written
pub proof fn theorem_block(v: AcadVersion, wh: bool, b: SB, l2: Seq<SE>, s: St)
    requires b_fits(v, wh, b, l2), is0(s),
    ensures b_rec(ok_all(b_enc(v, wh, b)).skip(1) + s) == Some((b_kept(v, wh, b, l2), s)),
{
    hide(b_fold); hide(b_run); hide(b_step); hide(b2); hide(b_enc); hide(b_tail); hide(to_0); hide(b1);
    lemma_b_shape(v, wh, b, s);
    let x0 = b_default();
    let t0 = seq![Some(p_str(0, "ENDBLK"@))] + (ok_all(b_tail(v, wh, b)) + s);
    assert(endblk(t0));
    let t1 = ok_all(ez_encs(v, wh, b.ents)) + t0;
    let t2 = ok_all(xz_encs(v, b.xd)) + t1;
    let t3 = ok_all(b2(v, b)) + t2;
    let t4 = ok_all(b_groups(v, b)) + t3;
    let t5 = ok_all(b1(v, wh, b)) + t4;
    assert(b_parts(v, wh, b, s) == t5);
    lemma_b_first(v, b, x0, wh);
    let x1 = SB { h: if wh && vge(v, AcadVersion::R13) { b.h } else { 0 }, ..x0 };
    lemma_b_run(x0, b1(v, wh, b), t4);
    let x2 = SB { groups: if vge(v, AcadVersion::R14) { b.groups } else { seq![] }, ..x1 };
    if vge(v, AcadVersion::R14) { lemma_b_groups(x1, b.groups, t3); assert(x1.groups + b.groups =~= b.groups); } else { assert(t4 =~= t3); }
    assert(b_fold(x0, t5) == b_fold(x2, t3));
    lemma_b_fields(v, b, x2, wh);
    let x3 = b_run(x2, b2(v, b))->Some_0;
    lemma_b_run(x2, b2(v, b), t2);
    if ez_encs(v, wh, b.ents).len() == 0 { assert(t1 =~= t0); } else { assert(t1[0] == Some(ez_encs(v, wh, b.ents)[0])); }
    lemma_b_xd(v, x3, b.xd, t1);
    assert(x3.xd + b.xd =~= b.xd);
    let x4 = if vge(v, AcadVersion::R2000) { SB { xd: b.xd, ..x3 } } else { x3 };
    lemma_b_ents(v, wh, x4, b.ents, l2, t0);
    assert(x4.ents + l2 =~= l2);
    let x5 = SB { ents: l2, ..x4 };
    assert(b_fold(x0, t5) == b_fold(x5, t0));
    assert(x5 == b_kept(v, wh, b, l2));
    assert(t0.skip(1) =~= ok_all(b_tail(v, wh, b)) + s);
    lemma_b_tail_plain(v, wh, b);
    lemma_to_0(ok_all(b_tail(v, wh, b)), s);
    lemma_b_stop(x5, t0);
    /*CANARY*/
}
pub proof fn lemma_b_stop(x: SB, s: St) requires endblk(s), ensures b_fold(x, s) == Some((x, s)), {}
pub proof fn lemma_b_ents(v: AcadVersion, wh: bool, x: SB, l: Seq<SE>, l2: Seq<SE>, s: St) requires ez_ok(v, wh, l, l2), endblk(s), ensures b_fold(x, ok_all(ez_encs(v, wh, l)) + s) == b_fold(SB { ents: x.ents + l2, ..x }, s),
{
    let e = ez_encs(v, wh, l); let t = ok_all(e) + s;
    if e.len() == 0 { assert(t =~= s); assert(x.ents + l2 =~= x.ents); }
    else { assert(t[0] == Some(e[0])); assert(seq![t[0]] + t.skip(1) =~= t); assert(s.len() < t.len()); }
}
pub proof fn lemma_b_first(v: AcadVersion, b: SB, x0: SB, wh: bool)
    requires x0.h == 0,
    ensures b_run(x0, b1(v, wh, b)) == Some(SB { h: if wh && vge(v, AcadVersion::R13) { b.h } else { 0 }, ..x0 }),
{
    theorem_handle_text(b.h);
    UNFOLD0
}
pub proof fn lemma_b_fields(v: AcadVersion, b: SB, x: SB, wh: bool)
    requires i16::MIN <= b.flags <= i16::MAX, x.o == 0, x.desc == Seq::<char>::empty(), !x.paper,
    ensures b_run(x, b2(v, b)) == Some(SB { o: if vge(v, AcadVersion::R13) { b.o } else { 0 }, layer: b.layer, name: b.name, flags: b.flags, x: b.x, y: b.y, z: b.z, xref: b.xref, desc: b.desc, paper: b.paper, ..x }),
{
    theorem_handle_text(b.o);
    UNFOLDX
    if b.desc.len() == 0 { assert(b.desc =~= Seq::<char>::empty()); }
}
pub proof fn lemma_gz_plain(l: Seq<SGZ>) requires forall|i: int| 0 <= i < l.len() ==> gz_ok(#[trigger] l[i]), ensures plain(ok_all(gz_encs(l))), decreases l.len(),
{ if l.len() > 0 { lemma_gz_plain(l.drop_last()); let a = ok_all(gz_encs(l.drop_last())); let c = ok_all(gz_enc(l.last())); assert(gz_ok(l.last())); assert(ok_all(gz_encs(l)) =~= a + c); assert forall|k: int| 0 <= k < (a + c).len() implies (#[trigger] (a + c)[k]) is Some && (a + c)[k]->Some_0.code != 0 by { if k < a.len() { assert((a + c)[k] == a[k]); } else { assert((a + c)[k] == c[k - a.len()]); } } } }
pub proof fn lemma_b_tail_plain(v: AcadVersion, wh: bool, b: SB) requires forall|i: int| 0 <= i < b.groups.len() ==> gz_ok(#[trigger] b.groups[i]), ensures plain(ok_all(b_tail(v, wh, b))),
{
    lemma_gz_plain(b.groups);
    let p = b_tail1(v, wh, b); let q = b_groups(v, b); let r = b_tail2(v, b);
    assert(plain(ok_all(q)));
    assert forall|k: int| 0 <= k < p.len() implies p[k].code != 0 by {}
    assert forall|k: int| 0 <= k < r.len() implies r[k].code != 0 by {}
    let a = ok_all(p + q + r);
    assert forall|k: int| 0 <= k < a.len() implies (#[trigger] a[k]) is Some && a[k]->Some_0.code != 0 by {
        if k < p.len() { assert(a[k] == Some(p[k])); } else if k < p.len() + q.len() { assert(a[k] == ok_all(q)[k - p.len()]); } else { assert(a[k] == Some(r[k - p.len() - q.len()])); }
    }
}
pub open spec fn b_encs(v: AcadVersion, wh: bool, l: Seq<SB>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { b_encs(v, wh, l.drop_last()) + b_enc(v, wh, l.last()) } }
pub open spec fn b_encs2(v: AcadVersion, wh: bool, l: Seq<SB>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { b_enc(v, wh, l[0]) + b_encs2(v, wh, l.skip(1)) } }
pub proof fn lemma_b_encs2(v: AcadVersion, wh: bool, l: Seq<SB>) ensures b_encs(v, wh, l) == b_encs2(v, wh, l), decreases l.len(),
{
    hide(b_enc);
    if l.len() > 0 {
        lemma_b_encs2(v, wh, l.drop_last());
        if l.len() == 1 { assert(l.drop_last() =~= seq![]); assert(l.skip(1) =~= seq![]); assert(b_encs(v, wh, l) =~= b_encs2(v, wh, l)); }
        else { lemma_b_encs2(v, wh, l.skip(1)); lemma_b_encs2(v, wh, l.skip(1).drop_last()); assert(l.drop_last().skip(1) =~= l.skip(1).drop_last()); assert(l.skip(1).last() == l.last()); assert(b_encs(v, wh, l) =~= b_encs2(v, wh, l)); }
    }
}
pub open spec fn b_kepts(v: AcadVersion, wh: bool, l: Seq<SB>, es: Seq<Seq<SE>>) -> Seq<SB> { Seq::new(l.len(), |i: int| b_kept(v, wh, l[i], es[i])) }
// THEOREM C17 (blocks): the blocks of a drawing come back once each, in order
pub proof fn theorem_blocks(v: AcadVersion, wh: bool, l: Seq<SB>, es: Seq<Seq<SE>>, s: St)
    requires l.len() == es.len(), forall|i: int| 0 <= i < l.len() ==> b_fits(v, wh, #[trigger] l[i], es[i]), stop_sec(s),
    ensures is0(ok_all(b_encs2(v, wh, l)) + s), bs_read(ok_all(b_encs2(v, wh, l)) + s) == Some((b_kepts(v, wh, l, es), s)),
    decreases l.len(),
{
    hide(b_enc); hide(b_rec); hide(b_kept); hide(b_fits);
    if l.len() == 0 { assert(ok_all(b_encs2(v, wh, l)) + s =~= s); assert(b_kepts(v, wh, l, es) =~= seq![]); }
    else {
        assert forall|i: int| 0 <= i < l.skip(1).len() implies b_fits(v, wh, #[trigger] l.skip(1)[i], es.skip(1)[i]) by { assert(l.skip(1)[i] == l[i + 1]); }
        theorem_blocks(v, wh, l.skip(1), es.skip(1), s);
        let t = ok_all(b_encs2(v, wh, l.skip(1))) + s;
        let e = b_enc(v, wh, l[0]);
        let z = ok_all(b_encs2(v, wh, l)) + s;
        lemma_b_shape(v, wh, l[0], t);
        assert(z =~= ok_all(e) + t);
        assert(z[0] == Some(e[0]));
        assert(z.skip(1) =~= ok_all(e).skip(1) + t);
        reveal_strlit("BLOCK"); reveal_strlit("ENDSEC"); assert("BLOCK"@.len() != "ENDSEC"@.len());
        assert(b_fits(v, wh, l[0], es[0]));
        theorem_block(v, wh, l[0], es[0], t);
        assert(b_kepts(v, wh, l, es) =~= seq![b_kept(v, wh, l[0], es[0])] + b_kepts(v, wh, l.skip(1), es.skip(1)));
    }
}
