// the classes of a section, up to ENDSEC
pub open spec fn c_start(v: AcadVersion, t: Seq<char>) -> SC { if r13(v) { SC { rec: t, ..c_default() } } else { c_default() } }
pub open spec fn c_list(v: AcadVersion, s: St) -> Option<(Seq<SC>, St)> decreases s.len() {
    if s.len() == 0 || s[0] is None { None }
    else if !is0(s) { c_list(v, s.skip(1)) }
    else if txt(s) is None { None }
    else if stop_sec(s) { Some((seq![], s)) }
    else { match c_fold(v, c_start(v, txt(s)->Some_0), s.skip(1)) { None => None, Some((c, s2)) => if s2.len() < s.len() { match c_list(v, s2) { None => None, Some((l, s3)) => Some((seq![c] + l, s3)) } } else { None } } }
}
pub proof fn lemma_c_len(v: AcadVersion, x: SC, s: St) ensures c_fold(v, x, s) is Some ==> c_fold(v, x, s)->Some_0.1.len() <= s.len() && is0(c_fold(v, x, s)->Some_0.1), decreases s.len(),
{ if s.len() > 0 && s[0] is Some && !is0(s) { match c_step(v, x, s[0]->Some_0, s.skip(1)) { Some((x2, s2)) => { lemma_c_len(v, x2, s2); }, None => {} } } }
// the pairs written for a class
pub open spec fn c_enc(v: AcadVersion, c: SC) -> Seq<SP> { seq![c_head(v, c)] + c_body(v, c) }
pub open spec fn c_head(v: AcadVersion, c: SC) -> SP { if r13(v) { p_str(0, c.rec) } else { p_str(0, "CLASS"@) } }
pub open spec fn c_body(v: AcadVersion, c: SC) -> Seq<SP> {
    let e = Seq::<SP>::empty();
    let a = if r13(v) { e.push(p_str(1, c.cls)).push(p_str(2, c.app)).push(p_i32(90, c.ver)) }
        else { let b = e.push(p_str(1, c.rec)).push(p_str(2, c.cls)).push(p_str(3, c.app)).push(p_i32(90, c.prox)); if vord(v) >= vord(AcadVersion::R2004) { b.push(p_i32(91, c.n as i32)) } else { b } };
    a.push(p_i16(280, if c.loaded { 0i16 } else { 1i16 })).push(p_i16(281, if c.ent { 1i16 } else { 0i16 }))
}
pub open spec fn c_encs(v: AcadVersion, l: Seq<SC>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { c_encs(v, l.drop_last()) + c_enc(v, l.last()) } }
// what the layout of the version carries of a class
pub open spec fn c_kept(v: AcadVersion, c: SC) -> SC {
    if r13(v) { SC { prox: 0, n: 0, ..c } } else { SC { ver: 0, n: if vord(v) >= vord(AcadVersion::R2004) { c.n } else { 0 }, ..c } }
}
pub open spec fn c_fits(v: AcadVersion, c: SC) -> bool { (vord(v) >= vord(AcadVersion::R2004) ==> c.n <= i32::MAX) && (r13(v) ==> c.rec != "ENDSEC"@) }
pub proof fn lemma_class(v: AcadVersion, c: SC, s: St)
    requires c_fits(v, c), is0(s),
    ensures c_fold(v, c_start(v, g_str(c_head(v, c))->Some_0), ok_all(c_body(v, c)) + s) == Some((c_kept(v, c), s)),
{
    let x = c_start(v, g_str(c_head(v, c))->Some_0);
    UNFOLD_C
    lemma_c_run(v, x, c_body(v, c), s);
    assert(c_run(v, x, c_body(v, c)) == Some(c_kept(v, c)));
}
pub proof fn lemma_classes(v: AcadVersion, l: Seq<SC>, k: nat, s: St)
    requires k <= l.len(), forall|i: int| 0 <= i < l.len() ==> c_fits(v, #[trigger] l[i]), stop_sec(s),
    ensures ({ let x = l.skip(l.len() - k); is0(ok_all(c_encs2(v, x)) + s) && c_list(v, ok_all(c_encs2(v, x)) + s) == Some((c_kepts(v, x), s)) }),
    decreases k,
{
    let x = l.skip(l.len() - k);
    if k == 0 { assert(ok_all(c_encs2(v, x)) + s =~= s); assert(c_kepts(v, x) =~= seq![]); }
    else {
        let y = l.skip(l.len() - (k - 1) as nat);
        lemma_classes(v, l, (k - 1) as nat, s);
        assert(x.skip(1) =~= y);
        let c = x[0];
        assert(c == l[l.len() - k]);
        let t = ok_all(c_encs2(v, y)) + s;
        assert(ok_all(c_encs2(v, x)) + s =~= seq![Some(c_head(v, c))] + (ok_all(c_body(v, c)) + t));
        let z = ok_all(c_encs2(v, x)) + s;
        assert(z[0] == Some(c_head(v, c)));
        assert(z.skip(1) =~= ok_all(c_body(v, c)) + t);
        reveal_strlit("CLASS"); reveal_strlit("ENDSEC"); assert("CLASS"@.len() != "ENDSEC"@.len());
        lemma_class(v, c, t);
        assert(c_kepts(v, x) =~= seq![c_kept(v, c)] + c_kepts(v, y));
    }
}
pub open spec fn c_kepts(v: AcadVersion, l: Seq<SC>) -> Seq<SC> { l.map_values(|c: SC| c_kept(v, c)) }
pub open spec fn c_encs2(v: AcadVersion, l: Seq<SC>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { c_enc(v, l[0]) + c_encs2(v, l.skip(1)) } }
pub proof fn lemma_encs2(v: AcadVersion, l: Seq<SC>) ensures c_encs(v, l) == c_encs2(v, l), decreases l.len(),
{
    if l.len() > 0 {
        lemma_encs2(v, l.drop_last());
        if l.len() == 1 { assert(l.drop_last() =~= seq![]); assert(l.skip(1) =~= seq![]); assert(c_encs(v, l) =~= c_encs2(v, l)); }
        else { lemma_encs2(v, l.skip(1)); lemma_encs2(v, l.skip(1).drop_last()); assert(l.drop_last().skip(1) =~= l.skip(1).drop_last()); assert(l.skip(1).last() == l.last()); assert(c_encs(v, l) =~= c_encs2(v, l)); }
    }
}
// THEOREM C17 (classes): the classes of a drawing, written and read again, come back once each, with every field the version carries
pub proof fn theorem_classes(v: AcadVersion, l: Seq<SC>, s: St)
    requires forall|i: int| 0 <= i < l.len() ==> c_fits(v, #[trigger] l[i]), stop_sec(s),
    ensures c_list(v, ok_all(c_encs(v, l)) + s) == Some((c_kepts(v, l), s)),
{ lemma_encs2(v, l); assert(l.skip(0) =~= l); lemma_classes(v, l, l.len(), s); /*CANARY*/ }
