// ---- entities as values: the fields the code names, and one opaque value for all the others
#[verifier::external_body]
pub struct XOpaque { x: () }
pub struct AttV { pub m: MText, pub o: XOpaque }
pub struct InsV { pub has: bool, pub atts: Seq<(AttV, Handle)>, pub seqend: Handle, pub o: XOpaque }
pub struct PolyV { pub verts: Seq<(Vertex, Handle)>, pub seqend: Handle, pub o: XOpaque }
pub enum EV { Att(EntityCommon, AttV), Def(EntityCommon, AttV), Ins(EntityCommon, InsV), Poly(EntityCommon, PolyV), Vert(EntityCommon, Vertex), End(EntityCommon), Text(EntityCommon, MText), Other(EntityCommon, XOpaque) }
pub open spec fn attv(a: Attribute) -> AttV { AttV { m: a.m_text, o: a.x_other } }
pub open spec fn defv(a: AttributeDefinition) -> AttV { AttV { m: a.m_text, o: a.x_other } }
pub open spec fn attsv(s: Seq<(Attribute, Handle)>) -> Seq<(AttV, Handle)> { s.map_values(|x: (Attribute, Handle)| (attv(x.0), x.1)) }
pub open spec fn ev(e: Entity) -> EV {
    match e.specific {
        EntityType::Attribute(a) => EV::Att(e.common, attv(a)),
        EntityType::AttributeDefinition(a) => EV::Def(e.common, defv(a)),
        EntityType::Insert(i) => EV::Ins(e.common, InsV { has: i.__has_attributes, atts: attsv(i.__attributes_and_handles@), seqend: i.__seqend_handle, o: i.x_other }),
        EntityType::Polyline(p) => EV::Poly(e.common, PolyV { verts: p.__vertices_and_handles@, seqend: p.__seqend_handle, o: p.x_other }),
        EntityType::Vertex(v) => EV::Vert(e.common, v),
        EntityType::Seqend(_) => EV::End(e.common),
        EntityType::MText(m) => EV::Text(e.common, m),
        EntityType::XOther(o) => EV::Other(e.common, o),
    }
}
pub open spec fn evs(s: Seq<Entity>) -> Seq<EV> { s.map_values(|e: Entity| ev(e)) }

// ---- the iterator of entities and the one-place put-back of itertools
#[verifier::external_body]
pub struct XIter { x: () }
pub uninterp spec fn ents(i: XIter) -> Seq<EV>;
#[verifier::external_body]
pub struct PutBack { x: () }
pub uninterp spec fn left(p: PutBack) -> Seq<EV>;
pub uninterp spec fn free(p: PutBack) -> bool;
#[verifier::external_body]
pub fn x_put_back(i: &mut XIter) -> (r: PutBack) ensures left(r) == ents(*old(i)), free(r), { unimplemented!() }
impl PutBack {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Entity>)
        ensures left(*old(self)).len() == 0 ==> r is None && left(*final(self)) == left(*old(self)),
            left(*old(self)).len() > 0 ==> r is Some && ev(r->Some_0) == left(*old(self))[0] && left(*final(self)) == left(*old(self)).skip(1),
            free(*final(self)),
    { unimplemented!() }
    // a second value put back would replace the first, so the place has to be free
    #[verifier::external_body]
    pub fn put_back(&mut self, e: Entity) requires free(*old(self)) ensures left(*final(self)) == seq![ev(e)] + left(*old(self)), { unimplemented!() }
}
#[verifier::external_body]
pub fn x_dup<T>(x: &T) -> (r: T) ensures r == *x, { unimplemented!() }

// ---- which children belong to which entity
pub open spec fn ch(h: Handle) -> Handle { if h.0 == 0 { auto() } else { h } }
pub open spec fn text_at(s: Seq<EV>) -> bool { s.len() > 0 && s[0] is Text }
pub open spec fn att_text(s: Seq<EV>) -> Seq<EV> { if text_at(s) { s.skip(1) } else { s } }
pub open spec fn with_text(a: AttV, s: Seq<EV>) -> AttV { if text_at(s) { AttV { m: s[0]->Text_1, o: a.o } } else { a } }
pub open spec fn atts(s: Seq<EV>) -> Seq<(AttV, Handle)> decreases s.len() {
    if s.len() > 0 && s[0] is Att { seq![(with_text(s[0]->Att_1, s.skip(1)), ch(s[0]->Att_0.handle))] + atts(att_text(s.skip(1))) } else { seq![] }
}
pub open spec fn after_atts(s: Seq<EV>) -> Seq<EV> decreases s.len() { if s.len() > 0 && s[0] is Att { after_atts(att_text(s.skip(1))) } else { s } }
pub open spec fn verts(s: Seq<EV>) -> Seq<(Vertex, Handle)> decreases s.len() { if s.len() > 0 && s[0] is Vert { seq![(s[0]->Vert_1, ch(s[0]->Vert_0.handle))] + verts(s.skip(1)) } else { seq![] } }
pub open spec fn after_verts(s: Seq<EV>) -> Seq<EV> decreases s.len() { if s.len() > 0 && s[0] is Vert { after_verts(s.skip(1)) } else { s } }
pub open spec fn end_at(s: Seq<EV>) -> Handle { if s.len() > 0 && s[0] is End { s[0]->End_0.handle } else { Handle(0) } }
pub open spec fn after_end(s: Seq<EV>) -> Seq<EV> { if s.len() > 0 && s[0] is End { s.skip(1) } else { s } }
pub proof fn lemma_shorter(s: Seq<EV>) ensures after_atts(s).len() <= s.len(), after_verts(s).len() <= s.len() decreases s.len() {
    if s.len() > 0 && s[0] is Att { lemma_shorter(att_text(s.skip(1))); }
    if s.len() > 0 && s[0] is Vert { lemma_shorter(s.skip(1)); }
}
// the first record with its children, and what follows
pub open spec fn head(s: Seq<EV>) -> EV {
    match s[0] {
        EV::Att(c, a) => EV::Att(c, with_text(a, s.skip(1))),
        EV::Def(c, a) => EV::Def(c, with_text(a, s.skip(1))),
        EV::Ins(c, i) => if i.has { EV::Ins(c, InsV { has: true, atts: i.atts + atts(s.skip(1)), seqend: end_at(after_atts(s.skip(1))), o: i.o }) } else { s[0] },
        EV::Poly(c, p) => EV::Poly(c, PolyV { verts: p.verts + verts(s.skip(1)), seqend: end_at(after_verts(s.skip(1))), o: p.o }),
        _ => s[0],
    }
}
pub open spec fn tail_of(s: Seq<EV>) -> Seq<EV> {
    match s[0] {
        EV::Att(c, a) => att_text(s.skip(1)),
        EV::Def(c, a) => att_text(s.skip(1)),
        EV::Ins(c, i) => if i.has { after_end(after_atts(s.skip(1))) } else { s.skip(1) },
        EV::Poly(c, p) => after_end(after_verts(s.skip(1))),
        _ => s.skip(1),
    }
}
pub open spec fn gather(s: Seq<EV>) -> Seq<EV> decreases s.len() via gather_decreases { if s.len() == 0 { seq![] } else { seq![head(s)] + gather(tail_of(s)) } }
#[via_fn]
proof fn gather_decreases(s: Seq<EV>) { if s.len() > 0 { lemma_shorter(s.skip(1)); } }
pub proof fn lemma_tail(s: Seq<EV>) requires s.len() > 0 ensures tail_of(s).len() < s.len() { lemma_shorter(s.skip(1)); }

// ---- the order in which a drawing's entities stand in a file
// the entity that announces a vertex: any record with the vertex and its handle
pub open spec fn flat_verts(c: Seq<EntityCommon>, v: Seq<(Vertex, Handle)>) -> Seq<EV> { Seq::new(v.len(), |i: int| EV::Vert(c[i], v[i].0)) }
pub open spec fn flat_atts(c: Seq<EntityCommon>, d: Seq<EntityCommon>, m: Seq<MText>, v: Seq<(AttV, Handle)>) -> Seq<EV> decreases v.len() {
    if v.len() == 0 { seq![] } else { seq![EV::Att(c[0], AttV { m: m[0], o: v[0].0.o }), EV::Text(d[0], v[0].0.m)] + flat_atts(c.skip(1), d.skip(1), m.skip(1), v.skip(1)) }
}
pub proof fn lemma_verts(c: Seq<EntityCommon>, v: Seq<(Vertex, Handle)>, t: Seq<EV>)
    requires c.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1.0 != 0 && c[i].handle == v[i].1, t.len() == 0 || !(t[0] is Vert),
    ensures verts(flat_verts(c, v) + t) == v, after_verts(flat_verts(c, v) + t) == t,
    decreases v.len(),
{
    let s = flat_verts(c, v) + t;
    if v.len() == 0 { assert(s =~= t); assert(verts(s) =~= v); }
    else {
        assert(s.skip(1) =~= flat_verts(c.skip(1), v.skip(1)) + t);
        assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).1.0 != 0 && c.skip(1)[i].handle == v.skip(1)[i].1 by { assert(v.skip(1)[i] == v[i + 1]); }
        lemma_verts(c.skip(1), v.skip(1), t);
        assert(s[0] == EV::Vert(c[0], v[0].0));
        assert(v[0].1.0 != 0);
        assert(verts(s) =~= v);
    }
}
pub proof fn lemma_atts(c: Seq<EntityCommon>, d: Seq<EntityCommon>, m: Seq<MText>, v: Seq<(AttV, Handle)>, t: Seq<EV>)
    requires c.len() == v.len(), d.len() == v.len(), m.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1.0 != 0 && c[i].handle == v[i].1, t.len() == 0 || !(t[0] is Att),
    ensures atts(flat_atts(c, d, m, v) + t) == v, after_atts(flat_atts(c, d, m, v) + t) == t,
    decreases v.len(),
{
    let s = flat_atts(c, d, m, v) + t;
    if v.len() == 0 { assert(s =~= t); assert(atts(s) =~= v); }
    else {
        let u = flat_atts(c.skip(1), d.skip(1), m.skip(1), v.skip(1)) + t;
        assert(s.skip(1).skip(1) =~= u);
        assert(s.skip(1)[0] == EV::Text(d[0], v[0].0.m));
        assert forall|i: int| 0 <= i < v.skip(1).len() implies (#[trigger] v.skip(1)[i]).1.0 != 0 && c.skip(1)[i].handle == v.skip(1)[i].1 by { assert(v.skip(1)[i] == v[i + 1]); }
        lemma_atts(c.skip(1), d.skip(1), m.skip(1), v.skip(1), t);
        assert(v[0].1.0 != 0);
        assert(atts(s) =~= v);
    }
}
// one record of a file: the entity, and how it is laid out in front of the rest t
// closed by a SEQEND or, when something else follows that is no child, without
pub open spec fn poly_layout(cm: EntityCommon, p: PolyV, s: Seq<EV>, t: Seq<EV>, c: Seq<EntityCommon>, end: Seq<EV>) -> bool {
    &&& c.len() == p.verts.len()
    &&& forall|i: int| 0 <= i < p.verts.len() ==> (#[trigger] p.verts[i]).1.0 != 0 && c[i].handle == p.verts[i].1
    &&& s == seq![EV::Poly(cm, PolyV { verts: seq![], seqend: Handle(0), o: p.o })] + (flat_verts(c, p.verts) + (end + t))
    &&& (end.len() == 1 && end[0] is End && end[0]->End_0.handle == p.seqend) || (end.len() == 0 && p.seqend.0 == 0 && (t.len() == 0 || !(t[0] is Vert || t[0] is End)))
}
pub open spec fn ins_layout(cm: EntityCommon, n: InsV, s: Seq<EV>, t: Seq<EV>, c: Seq<EntityCommon>, d: Seq<EntityCommon>, m: Seq<MText>, end: Seq<EV>) -> bool {
    &&& c.len() == n.atts.len() && d.len() == c.len() && m.len() == c.len()
    &&& forall|i: int| 0 <= i < n.atts.len() ==> (#[trigger] n.atts[i]).1.0 != 0 && c[i].handle == n.atts[i].1
    &&& s == seq![EV::Ins(cm, InsV { has: true, atts: seq![], seqend: Handle(0), o: n.o })] + (flat_atts(c, d, m, n.atts) + (end + t))
    &&& (end.len() == 1 && end[0] is End && end[0]->End_0.handle == n.seqend) || (end.len() == 0 && n.seqend.0 == 0 && (t.len() == 0 || !(t[0] is Att || t[0] is End)))
}
pub open spec fn att_layout(cm: EntityCommon, a: AttV, s: Seq<EV>, t: Seq<EV>, d: EntityCommon, m: MText) -> bool { s == seq![EV::Att(cm, AttV { m, o: a.o }), EV::Text(d, a.m)] + t }
pub open spec fn def_layout(cm: EntityCommon, a: AttV, s: Seq<EV>, t: Seq<EV>, d: EntityCommon, m: MText) -> bool { s == seq![EV::Def(cm, AttV { m, o: a.o }), EV::Text(d, a.m)] + t }
pub open spec fn laid_out(e: EV, s: Seq<EV>, t: Seq<EV>) -> bool {
    match e {
        EV::Poly(cm, p) => exists|c: Seq<EntityCommon>, end: Seq<EV>| poly_layout(cm, p, s, t, c, end),
        EV::Ins(cm, n) => if !n.has { s == seq![e] + t } else { exists|c: Seq<EntityCommon>, d: Seq<EntityCommon>, m: Seq<MText>, end: Seq<EV>| ins_layout(cm, n, s, t, c, d, m, end) },
        EV::Att(cm, a) => exists|d: EntityCommon, m: MText| att_layout(cm, a, s, t, d, m),
        EV::Def(cm, a) => exists|d: EntityCommon, m: MText| def_layout(cm, a, s, t, d, m),
        _ => s == seq![e] + t,
    }
}
pub proof fn lemma_record(e: EV, s: Seq<EV>, t: Seq<EV>)
    requires laid_out(e, s, t)
    ensures s.len() > 0, head(s) == e, tail_of(s) == t,
{
    match e {
        EV::Poly(cm, p) => {
            let (c, end) = choose|c: Seq<EntityCommon>, end: Seq<EV>| poly_layout(cm, p, s, t, c, end);
            let u = end + t;
            assert(s.skip(1) =~= flat_verts(c, p.verts) + u);
            if end.len() == 0 { assert(u =~= t); } else { assert(u[0] == end[0]); assert(u.skip(1) =~= t); }
            lemma_verts(c, p.verts, u);
            assert(Seq::<(Vertex, Handle)>::empty() + p.verts =~= p.verts);
            assert(s[0] == EV::Poly(cm, PolyV { verts: seq![], seqend: Handle(0), o: p.o }));
            assert(end_at(u) == p.seqend);
        },
        EV::Ins(cm, n) => if n.has {
            let (c, d, m, end) = choose|c: Seq<EntityCommon>, d: Seq<EntityCommon>, m: Seq<MText>, end: Seq<EV>| ins_layout(cm, n, s, t, c, d, m, end);
            let u = end + t;
            assert(s.skip(1) =~= flat_atts(c, d, m, n.atts) + u);
            if end.len() == 0 { assert(u =~= t); } else { assert(u[0] == end[0]); assert(u.skip(1) =~= t); }
            lemma_atts(c, d, m, n.atts, u);
            assert(Seq::<(AttV, Handle)>::empty() + n.atts =~= n.atts);
            assert(s[0] == EV::Ins(cm, InsV { has: true, atts: seq![], seqend: Handle(0), o: n.o }));
            assert(end_at(u) == n.seqend);
        } else { assert(s.skip(1) =~= t); assert(s[0] == e); },
        EV::Att(cm, a) => {
            let (d, m) = choose|d: EntityCommon, m: MText| att_layout(cm, a, s, t, d, m);
            assert(s.skip(1)[0] == EV::Text(d, a.m)); assert(s.skip(1).skip(1) =~= t); assert(s[0] == EV::Att(cm, AttV { m, o: a.o }));
        },
        EV::Def(cm, a) => {
            let (d, m) = choose|d: EntityCommon, m: MText| def_layout(cm, a, s, t, d, m);
            assert(s.skip(1)[0] == EV::Text(d, a.m)); assert(s.skip(1).skip(1) =~= t); assert(s[0] == EV::Def(cm, AttV { m, o: a.o }));
        },
        _ => { assert(s.skip(1) =~= t); assert(s[0] == e); },
    }
}
// a whole file: its suffixes rests[0] = everything, rests[n] = nothing left, record i in between
pub open spec fn file_of(es: Seq<EV>, rests: Seq<Seq<EV>>) -> bool {
    rests.len() == es.len() + 1 && rests.last().len() == 0 && forall|i: int| 0 <= i < es.len() ==> laid_out(#[trigger] es[i], rests[i], rests[i + 1])
}
pub proof fn lemma_file(es: Seq<EV>, rests: Seq<Seq<EV>>)
    requires file_of(es, rests)
    ensures gather(rests[0]) == es
    decreases es.len(),
{
    if es.len() == 0 { assert(gather(rests[0]) =~= es); }
    else {
        lemma_record(es[0], rests[0], rests[1]);
        let (f, r) = (es.skip(1), rests.skip(1));
        assert forall|i: int| 0 <= i < f.len() implies laid_out(#[trigger] f[i], r[i], r[i + 1]) by { assert(f[i] == es[i + 1]); }
        lemma_file(f, r);
        assert(gather(rests[0]) =~= seq![es[0]] + f);
        assert(es =~= seq![es[0]] + f);
    }
}
