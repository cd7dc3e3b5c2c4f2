// ---- blocks ----
// extension groups and extended data: trees; how they are written and read is C18, how the entities are is C14 and C20
#[verifier::external_body]
pub struct SGZ { x: () }
#[verifier::external_body]
pub struct SXZ { x: () }
#[verifier::external_body]
pub struct SE { x: () }
#[verifier::external_body]
pub struct ExtensionGroup { x: () }
#[verifier::external_body]
pub struct XData { x: () }
#[verifier::external_body]
pub struct Entity { x: () }
pub uninterp spec fn gz(x: ExtensionGroup) -> SGZ;
pub uninterp spec fn xz(x: XData) -> SXZ;
pub uninterp spec fn ez(x: Entity) -> SE;
pub open spec fn gzs(s: Seq<ExtensionGroup>) -> Seq<SGZ> { s.map_values(|c: ExtensionGroup| gz(c)) }
pub open spec fn xzs(s: Seq<XData>) -> Seq<SXZ> { s.map_values(|c: XData| xz(c)) }
pub open spec fn ezs(s: Seq<Entity>) -> Seq<SE> { s.map_values(|c: Entity| ez(c)) }
pub uninterp spec fn gz_enc(x: SGZ) -> Seq<SP>;
pub uninterp spec fn xz_enc(v: AcadVersion, x: SXZ) -> Seq<SP>;
pub uninterp spec fn ez_enc(v: AcadVersion, h: bool, x: SE) -> Seq<SP>;
pub uninterp spec fn gz_take(n: Seq<char>, s: St) -> Option<(SGZ, St)>;
pub uninterp spec fn xz_take(n: Seq<char>, s: St) -> Option<(SXZ, St)>;
pub uninterp spec fn ez_take(s: St) -> Option<(Seq<SE>, St)>;
pub open spec fn gz_encs(l: Seq<SGZ>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { gz_encs(l.drop_last()) + gz_enc(l.last()) } }
pub open spec fn xz_encs(v: AcadVersion, l: Seq<SXZ>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { xz_encs(v, l.drop_last()) + xz_enc(v, l.last()) } }
pub open spec fn ez_encs(v: AcadVersion, h: bool, l: Seq<SE>) -> Seq<SP> decreases l.len() { if l.len() == 0 { seq![] } else { ez_encs(v, h, l.drop_last()) + ez_enc(v, h, l.last()) } }
impl ExtensionGroup {
#[verifier::external_body]
pub fn read_group(application_name: String, iter: &mut CodePairPutBack, offset: usize) -> (r: DxfResult<ExtensionGroup>)
    ensures ({ let x = gz_take(application_name@, stream(*old(iter))); r is Ok == (x is Some) && (r is Ok ==> (gz(r->Ok_0), stream(*final(iter))) == x->Some_0) }), stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>) ensures pvs(final(pairs)@) == pvs(old(pairs)@) + gz_enc(gz(*self)), { unimplemented!() }
}
impl XData {
#[verifier::external_body]
pub fn read_item(application_name: String, iter: &mut CodePairPutBack) -> (r: DxfResult<XData>)
    ensures ({ let x = xz_take(application_name@, stream(*old(iter))); r is Ok == (x is Some) && (r is Ok ==> (xz(r->Ok_0), stream(*final(iter))) == x->Some_0) }), stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
#[verifier::external_body]
pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion) ensures pvs(final(pairs)@) == pvs(old(pairs)@) + xz_enc(version, xz(*self)), { unimplemented!() }
}
impl Entity {
#[verifier::external_body]
pub fn add_code_pairs(&self, pairs: &mut Vec<CodePair>, version: AcadVersion, write_handles: bool) ensures pvs(final(pairs)@) == pvs(old(pairs)@) + ez_enc(version, write_handles, ez(*self)), { unimplemented!() }
}
#[verifier::external_body]
pub fn x_read_entities(iter: &mut CodePairPutBack, to: &mut Vec<Entity>) -> (r: DxfResult<()>)
    ensures ({ let x = ez_take(stream(*old(iter))); r is Ok == (x is Some) && (r is Ok ==> (ezs(final(to)@), stream(*final(iter))) == (ezs(old(to)@) + x->Some_0.0, x->Some_0.1)) }), stream(*final(iter)).len() <= stream(*old(iter)).len(),
        r is Ok ==> stream(*final(iter)).len() < stream(*old(iter)).len() || (is0(stream(*old(iter))) && txt(stream(*old(iter))) is Some && is_end(txt(stream(*old(iter)))->Some_0)),
{ unimplemented!() }
