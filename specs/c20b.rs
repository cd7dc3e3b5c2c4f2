// ---- (3) the objects and the entities of a section ----
pub open spec fn o_list(s: St) -> Option<(Seq<Object>, St)> decreases s.len() {
    match o_read(s) { None => None, Some((None, s2)) => Some((seq![], s2)), Some((Some(o), s2)) => if s2.len() < s.len() { match o_list(s2) { None => None, Some((l, s3)) => Some((seq![o] + l, s3)) } } else { None } }
}
pub open spec fn e_list(s: St) -> Option<(Seq<Entity>, St)> decreases s.len() {
    match e_read(s) { None => None, Some((None, s2)) => Some((seq![], s2)), Some((Some(o), s2)) => if s2.len() < s.len() { match e_list(s2) { None => None, Some((l, s3)) => Some((seq![o] + l, s3)) } } else { None } }
}
// the pairs x are one known record, whatever comes after them
pub open spec fn o_rec(x: St, o: Object) -> bool { x.len() > 0 && forall|s: St| is0(s) ==> #[trigger] o_read(x + s) == Some((Some(o), s)) }
pub open spec fn e_rec(x: St, o: Entity) -> bool { x.len() > 0 && forall|s: St| is0(s) ==> #[trigger] e_read(x + s) == Some((Some(o), s)) }
pub open spec fn o_junk(h: SP, b: St) -> bool { h.code == 0 && g_str(h) is Some && !is_end(g_str(h)->Some_0) && o_kind(g_str(h)->Some_0) is None && plain(b) }
pub open spec fn e_junk(h: SP, b: St) -> bool { h.code == 0 && g_str(h) is Some && !is_end(g_str(h)->Some_0) && g_str(h)->Some_0 != "DIMENSION"@ && e_kind(g_str(h)->Some_0) is None && plain(b) }
pub open spec fn o_recs(xs: Seq<St>, os: Seq<Object>) -> bool { xs.len() == os.len() && forall|k: int| 0 <= k < xs.len() ==> #[trigger] o_rec(xs[k], os[k]) && is0(xs[k]) }
pub open spec fn e_recs(xs: Seq<St>, os: Seq<Entity>) -> bool { xs.len() == os.len() && forall|k: int| 0 <= k < xs.len() ==> #[trigger] e_rec(xs[k], os[k]) && is0(xs[k]) }
pub open spec fn flat(xs: Seq<St>) -> St decreases xs.len() { if xs.len() == 0 { seq![] } else { xs[0] + flat(xs.skip(1)) } }
pub proof fn lemma_o_records(xs: Seq<St>, os: Seq<Object>, s: St)
    requires o_recs(xs, os), is0(s),
    ensures is0(flat(xs) + s), o_list(flat(xs) + s) == (match o_list(s) { None => None, Some((l, r)) => Some((os + l, r)) }),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(flat(xs) + s =~= s); if o_list(s) is Some { assert(os + o_list(s)->Some_0.0 =~= o_list(s)->Some_0.0); } }
    else {
        assert(o_recs(xs.skip(1), os.skip(1))) by { assert forall|k: int| 0 <= k < xs.skip(1).len() implies #[trigger] o_rec(xs.skip(1)[k], os.skip(1)[k]) && is0(xs.skip(1)[k]) by { assert(o_rec(xs[k + 1], os[k + 1])); } }
        lemma_o_records(xs.skip(1), os.skip(1), s);
        let t = flat(xs.skip(1)) + s;
        assert(flat(xs) + s =~= xs[0] + t);
        assert(o_rec(xs[0], os[0]));
        assert(o_read(xs[0] + t) == Some((Some(os[0]), t)));
        assert((xs[0] + t)[0] == xs[0][0]);
        if o_list(s) is Some { assert(os =~= seq![os[0]] + os.skip(1)); assert(seq![os[0]] + (os.skip(1) + o_list(s)->Some_0.0) =~= os + o_list(s)->Some_0.0); }
    }
}
pub proof fn lemma_e_records(xs: Seq<St>, os: Seq<Entity>, s: St)
    requires e_recs(xs, os), is0(s),
    ensures is0(flat(xs) + s), e_list(flat(xs) + s) == (match e_list(s) { None => None, Some((l, r)) => Some((os + l, r)) }),
    decreases xs.len(),
{
    if xs.len() == 0 { assert(flat(xs) + s =~= s); if e_list(s) is Some { assert(os + e_list(s)->Some_0.0 =~= e_list(s)->Some_0.0); } }
    else {
        assert(e_recs(xs.skip(1), os.skip(1))) by { assert forall|k: int| 0 <= k < xs.skip(1).len() implies #[trigger] e_rec(xs.skip(1)[k], os.skip(1)[k]) && is0(xs.skip(1)[k]) by { assert(e_rec(xs[k + 1], os[k + 1])); } }
        lemma_e_records(xs.skip(1), os.skip(1), s);
        let t = flat(xs.skip(1)) + s;
        assert(flat(xs) + s =~= xs[0] + t);
        assert(e_rec(xs[0], os[0]));
        assert(e_read(xs[0] + t) == Some((Some(os[0]), t)));
        assert((xs[0] + t)[0] == xs[0][0]);
        if e_list(s) is Some { assert(os =~= seq![os[0]] + os.skip(1)); assert(seq![os[0]] + (os.skip(1) + e_list(s)->Some_0.0) =~= os + e_list(s)->Some_0.0); }
    }
}
// THEOREM: an unknown record between any records of the section changes nothing
pub proof fn theorem_unknown_object_anywhere(xs: Seq<St>, os: Seq<Object>, h: SP, b: St, s: St)
    requires o_recs(xs, os), o_junk(h, b), is0(s),
    ensures o_list(flat(xs) + (seq![Some(h)] + b + s)) == o_list(flat(xs) + s),
{
    let j = seq![Some(h)] + b + s; assert(j[0] == Some(h)); assert(is0(j));
    theorem_unknown_Object(h, b, s); lemma_o_records(xs, os, j); lemma_o_records(xs, os, s);
    lemma_o_shorter(s);
    assert(o_list(j) == o_list(s)); /*CANARY*/
}
pub proof fn theorem_unknown_entity_anywhere(xs: Seq<St>, os: Seq<Entity>, h: SP, b: St, s: St)
    requires e_recs(xs, os), e_junk(h, b), is0(s),
    ensures e_list(flat(xs) + (seq![Some(h)] + b + s)) == e_list(flat(xs) + s),
{
    let j = seq![Some(h)] + b + s; assert(j[0] == Some(h)); assert(is0(j));
    theorem_unknown_Entity(h, b, s); lemma_e_records(xs, os, j); lemma_e_records(xs, os, s);
    lemma_e_shorter(s);
    assert(e_list(j) == e_list(s)); /*CANARY*/
}
