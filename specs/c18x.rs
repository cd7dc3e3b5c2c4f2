// ---- extended data: trees, their code pairs, and reading them back ----
pub ghost enum SX {
    Str(Seq<char>), Group(Seq<SX>), Layer(Seq<char>), Bin(Seq<u8>), Handle(u64), Three(f64, f64, f64), Pos(f64, f64, f64), Disp(f64, f64, f64), Dir(f64, f64, f64),
    Real(f64), Dist(f64), Scale(f64), Int(i16), Long(i32),
}
pub open spec fn xv(x: XDataItem) -> SX
    decreases x
{
    match x {
        XDataItem::Str(s) => SX::Str(s@),
        XDataItem::ControlGroup(v) => SX::Group(xvs(v@)),
        XDataItem::LayerName(s) => SX::Layer(s@),
        XDataItem::BinaryData(b) => SX::Bin(b@),
        XDataItem::Handle(h) => SX::Handle(h.0),
        XDataItem::ThreeReals(a, b, c) => SX::Three(a, b, c),
        XDataItem::WorldSpacePosition(p) => SX::Pos(p.x, p.y, p.z),
        XDataItem::WorldSpaceDisplacement(p) => SX::Disp(p.x, p.y, p.z),
        XDataItem::WorldDirection(p) => SX::Dir(p.x, p.y, p.z),
        XDataItem::Real(f) => SX::Real(f),
        XDataItem::Distance(f) => SX::Dist(f),
        XDataItem::ScaleFactor(f) => SX::Scale(f),
        XDataItem::Integer(i) => SX::Int(i),
        XDataItem::Long(i) => SX::Long(i),
    }
}
pub open spec fn xvs(v: Seq<XDataItem>) -> Seq<SX>
    decreases v
{ if v.len() == 0 { seq![] } else { xvs(v.drop_last()).push(xv(v.last())) } }
pub proof fn lemma_xvs_push(v: Seq<XDataItem>, x: XDataItem) ensures xvs(v.push(x)) == xvs(v).push(xv(x)), { assert(v.push(x).drop_last() =~= v); }
// the code pairs of a tree, from the DXF reference: 1000 text, 1002 braces, 1003 layer, 1004 binary, 1005 handle, 1010.. points, 1040.. reals, 1070 short, 1071 long
pub open spec fn x_enc(x: SX) -> Seq<SP>
    decreases x
{
    match x {
        SX::Str(s) => seq![p_str(1000, s)],
        SX::Group(v) => seq![p_str(1002, seq!['{'])] + x_encs(v) + seq![p_str(1002, seq!['}'])],
        SX::Layer(s) => seq![p_str(1003, s)],
        SX::Bin(b) => seq![p_str(1004, hx(b))],
        SX::Handle(h) => seq![p_str(1005, hexn(h as int))],
        SX::Three(a, b, c) => seq![p_f64(1010, a), p_f64(1020, b), p_f64(1030, c)],
        SX::Pos(a, b, c) => seq![p_f64(1011, a), p_f64(1021, b), p_f64(1031, c)],
        SX::Disp(a, b, c) => seq![p_f64(1012, a), p_f64(1022, b), p_f64(1032, c)],
        SX::Dir(a, b, c) => seq![p_f64(1013, a), p_f64(1023, b), p_f64(1033, c)],
        SX::Real(a) => seq![p_f64(1040, a)],
        SX::Dist(a) => seq![p_f64(1041, a)],
        SX::Scale(a) => seq![p_f64(1042, a)],
        SX::Int(a) => seq![p_i16(1070, a)],
        SX::Long(a) => seq![p_i32(1071, a)],
    }
}
pub open spec fn x_encs(v: Seq<SX>) -> Seq<SP>
    decreases v
{ if v.len() == 0 { seq![] } else { x_encs(v.drop_last()) + x_enc(v.last()) } }
// nesting depth
pub open spec fn x_h(x: SX) -> nat
    decreases x
{ match x { SX::Group(v) => 1 + x_hs(v), _ => 0 } }
pub open spec fn x_hs(v: Seq<SX>) -> nat
    decreases v
{ if v.len() == 0 { 0 } else { let a = x_hs(v.drop_last()); let b = x_h(v.last()); if a > b { a } else { b } } }
pub type St = Seq<Option<SP>>;
pub open spec fn x_f(s: St, code: i32) -> Option<f64> { if s.len() > 0 && s[0] is Some && s[0]->Some_0.code == code { g_f64(s[0]->Some_0) } else { None } }
pub open spec fn x_3(p: SP, s: St) -> Option<(f64, f64, f64)> {
    if g_f64(p) is Some && x_f(s, (p.code + 10) as i32) is Some && s.len() > 1 && x_f(s.skip(1), (p.code + 20) as i32) is Some { Some((g_f64(p)->Some_0, x_f(s, (p.code + 10) as i32)->Some_0, x_f(s.skip(1), (p.code + 20) as i32)->Some_0)) } else { None }
}
pub open spec fn is_close(p: SP) -> bool { p.code == 1002 && g_str(p) is Some && g_str(p)->Some_0 == seq!['}'] }
pub open spec fn is_open(p: SP) -> bool { p.code == 1002 && g_str(p) is Some && g_str(p)->Some_0 == seq!['{'] }
// what well-formed pairs mean: one item whose first pair is p, followed by s
pub open spec fn x_dec(p: SP, s: St, depth: nat) -> Option<(SX, St)>
    decreases s.len(), 1nat
{
    if p.code == 1000 { if g_str(p) is Some { Some((SX::Str(g_str(p)->Some_0), s)) } else { None } }
    else if p.code == 1002 { if !is_open(p) || depth >= 128 { None } else { match x_decs(s, depth + 1) { Some((v, r)) => Some((SX::Group(v), r)), None => None } } }
    else if p.code == 1003 { if g_str(p) is Some { Some((SX::Layer(g_str(p)->Some_0), s)) } else { None } }
    else if p.code == 1004 { if g_str(p) is Some && all_hex(g_str(p)->Some_0) { Some((SX::Bin(hexs(g_str(p)->Some_0)), s)) } else { None } }
    else if p.code == 1005 { if g_str(p) is Some && all_hex(g_str(p)->Some_0) && g_str(p)->Some_0.len() <= 16 { Some((SX::Handle(be(hexs(g_str(p)->Some_0)) as u64), s)) } else { None } }
    else if p.code == 1010 { match x_3(p, s) { Some((a, b, c)) => Some((SX::Three(a, b, c), s.skip(2))), None => None } }
    else if p.code == 1011 { match x_3(p, s) { Some((a, b, c)) => Some((SX::Pos(a, b, c), s.skip(2))), None => None } }
    else if p.code == 1012 { match x_3(p, s) { Some((a, b, c)) => Some((SX::Disp(a, b, c), s.skip(2))), None => None } }
    else if p.code == 1013 { match x_3(p, s) { Some((a, b, c)) => Some((SX::Dir(a, b, c), s.skip(2))), None => None } }
    else if p.code == 1040 { match g_f64(p) { Some(a) => Some((SX::Real(a), s)), None => None } }
    else if p.code == 1041 { match g_f64(p) { Some(a) => Some((SX::Dist(a), s)), None => None } }
    else if p.code == 1042 { match g_f64(p) { Some(a) => Some((SX::Scale(a), s)), None => None } }
    else if p.code == 1070 { match g_i16(p) { Some(a) => Some((SX::Int(a), s)), None => None } }
    else if p.code == 1071 { match g_i32(p) { Some(a) => Some((SX::Long(a), s)), None => None } }
    else { None }
}
// the items up to the closing brace
pub open spec fn x_decs(s: St, depth: nat) -> Option<(Seq<SX>, St)>
    decreases s.len(), 0nat
{
    if s.len() == 0 || s[0] is None { None }
    else if is_close(s[0]->Some_0) { Some((seq![], s.skip(1))) }
    else { match x_dec(s[0]->Some_0, s.skip(1), depth) {
        Some((x, r)) => if r.len() < s.len() { match x_decs(r, depth) { Some((v, q)) => Some((seq![x] + v, q)), None => None } } else { None },
        None => None } }
}
// the items up to the end of this application's data
pub open spec fn x_stop(s: St) -> bool { s.len() == 0 || (s[0] is Some && (s[0]->Some_0.code == 1001 || s[0]->Some_0.code < 1000)) }
pub open spec fn x_top(s: St) -> Option<(Seq<SX>, St)>
    decreases s.len()
{
    if x_stop(s) { Some((seq![], s)) }
    else if s[0] is None { None }
    else { match x_dec(s[0]->Some_0, s.skip(1), 0) {
        Some((x, r)) => if r.len() < s.len() { match x_top(r) { Some((v, q)) => Some((seq![x] + v, q)), None => None } } else { None },
        None => None } }
}
pub proof fn lemma_x_enc_first(x: SX)
    ensures x_enc(x).len() > 0, x_enc(x)[0].code >= 1000, x_enc(x)[0].code != 1001, !is_close(x_enc(x)[0]),
{
    match x { SX::Group(v) => { assert(x_enc(x)[0] == p_str(1002, seq!['{'])); assert(seq!['{'][0] != seq!['}'][0]); assert(seq!['{'] != seq!['}']); } _ => {} }
}
// THEOREM: reading inverts writing, for every tree nested at most 128 deep, whatever follows
pub proof fn lemma_x_inverse(x: SX, rest: St, depth: nat)
    requires depth + x_h(x) <= 128,
    ensures x_dec(x_enc(x)[0], ok_all(x_enc(x)).skip(1) + rest, depth) == Some((x, rest)),
    decreases x,
{
    let e = x_enc(x);
    let s = ok_all(e).skip(1) + rest;
    match x {
        SX::Group(v) => {
            let close = seq![p_str(1002, seq!['}'])];
            assert(e[0] == p_str(1002, seq!['{']));
            assert(s =~= ok_all(x_encs(v)) + (ok_all(close) + rest));
            let q = ok_all(close) + rest;
            assert(q[0] == Some(p_str(1002, seq!['}'])));
            assert(q.skip(1) =~= rest);
            assert(x_decs(q, depth + 1) == Some((Seq::<SX>::empty(), rest)));
            lemma_x_inverse_group(v, q, rest, Seq::<SX>::empty(), depth + 1);
            assert(v + Seq::<SX>::empty() =~= v);
        },
        SX::Bin(b) => { lemma_hx(b); assert(s =~= rest); },
        SX::Handle(h) => { theorem_handle_text(h); assert(s =~= rest); },
        SX::Three(a, b, c) => { lemma_x3(a, b, c, e, rest, s); },
        SX::Pos(a, b, c) => { lemma_x3(a, b, c, e, rest, s); },
        SX::Disp(a, b, c) => { lemma_x3(a, b, c, e, rest, s); },
        SX::Dir(a, b, c) => { lemma_x3(a, b, c, e, rest, s); },
        _ => { assert(s =~= rest); },
    }
}
proof fn lemma_x3(a: f64, b: f64, c: f64, e: Seq<SP>, rest: St, s: St)
    requires e.len() == 3, e[0].v == SV::Double(a), e[1].v == SV::Double(b), e[2].v == SV::Double(c), 1000 <= e[0].code < 1020, e[1].code == e[0].code + 10, e[2].code == e[0].code + 20, s == ok_all(e).skip(1) + rest,
    ensures x_3(e[0], s) == Some((a, b, c)), s.skip(2) == rest,
{
    assert(s[0] == Some(e[1]));
    assert(s.skip(1)[0] == Some(e[2]));
    assert(s.skip(2) =~= rest);
}
// reading the pairs of v and then a tail that reads as w gives v + w
pub proof fn lemma_x_inverse_group(v: Seq<SX>, q: St, rest: St, w: Seq<SX>, depth: nat)
    requires depth + x_hs(v) <= 128, x_decs(q, depth) == Some((w, rest)),
    ensures x_decs(ok_all(x_encs(v)) + q, depth) == Some((v + w, rest)),
    decreases v,
{
    if v.len() == 0 { assert(ok_all(x_encs(v)) + q =~= q); assert(v + w =~= w); }
    else {
        let x = v.last();
        let e = x_enc(x);
        lemma_x_enc_first(x);
        lemma_x_inverse(x, q, depth);
        let q2 = ok_all(e) + q;
        assert(q2[0] == Some(e[0]));
        assert(q2.skip(1) =~= ok_all(e).skip(1) + q);
        assert(x_decs(q2, depth) == Some((seq![x] + w, rest)));
        lemma_x_inverse_group(v.drop_last(), q2, rest, seq![x] + w, depth);
        assert(ok_all(x_encs(v)) + q =~= ok_all(x_encs(v.drop_last())) + q2);
        assert(v.drop_last() + (seq![x] + w) =~= v + w);
    }
}
pub proof fn lemma_x_inverse_top(v: Seq<SX>, q: St, rest: St, w: Seq<SX>)
    requires x_hs(v) <= 128, x_top(q) == Some((w, rest)),
    ensures x_top(ok_all(x_encs(v)) + q) == Some((v + w, rest)),
    decreases v,
{
    if v.len() == 0 { assert(ok_all(x_encs(v)) + q =~= q); assert(v + w =~= w); }
    else {
        let x = v.last();
        let e = x_enc(x);
        lemma_x_enc_first(x);
        lemma_x_inverse(x, q, 0);
        let q2 = ok_all(e) + q;
        assert(q2[0] == Some(e[0]));
        assert(q2.skip(1) =~= ok_all(e).skip(1) + q);
        assert(x_top(q2) == Some((seq![x] + w, rest)));
        lemma_x_inverse_top(v.drop_last(), q2, rest, seq![x] + w);
        assert(ok_all(x_encs(v)) + q =~= ok_all(x_encs(v.drop_last())) + q2);
        assert(v.drop_last() + (seq![x] + w) =~= v + w);
    }
}
