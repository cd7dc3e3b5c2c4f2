// ---- (4) header variables ----
pub uninterp spec fn h_default() -> Header;
// one pair of a variable; None: an error.  An unknown variable changes nothing (generated set_header_value, last arm)
pub uninterp spec fn h_set(h: Header, v: Seq<char>, p: SP) -> Option<Header>;
impl Header {
#[verifier::external_body]
pub fn default() -> (r: Header) ensures r == h_default(), { unimplemented!() }
#[verifier::external_body]
pub fn set_header_value(&mut self, v: &String, p: &CodePair) -> (r: DxfResult<()>) ensures r is Ok == (h_set(*old(self), v@, pv(*p)) is Some), r is Ok ==> *final(self) == h_set(*old(self), v@, pv(*p))->Some_0, { unimplemented!() }
}
#[verifier::external_body]
pub fn x_from_2007(h: &Header) -> bool { unimplemented!() }
pub open spec fn is9(s: St) -> bool { st0(s) && s[0]->Some_0.code == 9 }
// the values of variable v, up to the next variable or 0 pair
pub open spec fn h_vals(h: Header, v: Seq<char>, s: St) -> Option<(Header, St)> decreases s.len() {
    if s.len() == 0 { Some((h, s)) } else if s[0] is None { None } else if is0(s) || is9(s) { Some((h, s)) }
    else { match h_set(h, v, s[0]->Some_0) { None => None, Some(h2) => h_vals(h2, v, s.skip(1)) } }
}
pub open spec fn h_read(h: Header, s: St) -> Option<(Header, St)> decreases s.len() {
    if s.len() == 0 { Some((h, s)) } else if s[0] is None { None } else if is0(s) { Some((h, s)) }
    else if is9(s) && txt(s) is Some { match h_vals(h, txt(s)->Some_0, s.skip(1)) { None => None, Some((h2, s2)) => if s2.len() < s.len() { h_read(h2, s2) } else { None } } }
    else { None }
}
pub proof fn lemma_h_vals(h: Header, v: Seq<char>, s: St) ensures h_vals(h, v, s) is Some ==> h_vals(h, v, s)->Some_0.1.len() <= s.len(), decreases s.len(),
{ if s.len() > 0 && s[0] is Some && !is0(s) && !is9(s) { match h_set(h, v, s[0]->Some_0) { None => {}, Some(h2) => { lemma_h_vals(h2, v, s.skip(1)); } } } }
pub proof fn lemma_h_read(h: Header, s: St) ensures h_read(h, s) is Some ==> h_read(h, s)->Some_0.1.len() <= s.len(), decreases s.len(),
{ if is9(s) && txt(s) is Some { let x = h_vals(h, txt(s)->Some_0, s.skip(1)); lemma_h_vals(h, txt(s)->Some_0, s.skip(1)); if x is Some { lemma_h_read(x->Some_0.0, x->Some_0.1); } } }
pub open spec fn plain_var(b: St) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) is Some && b[k]->Some_0.code != 0 && b[k]->Some_0.code != 9 }
pub open spec fn unknown_var(v: Seq<char>) -> bool { forall|h: Header, p: SP| #[trigger] h_set(h, v, p) == Some(h) }
pub open spec fn at_var(s: St) -> bool { s.len() == 0 || is0(s) || is9(s) }
pub proof fn lemma_unknown_vals(h: Header, v: Seq<char>, b: St, s: St)
    requires unknown_var(v), plain_var(b), at_var(s),
    ensures h_vals(h, v, b + s) == Some((h, s)),
    decreases b.len(),
{
    if b.len() == 0 { assert(b + s =~= s); }
    else { assert((b + s)[0] == b[0]); assert((b + s).skip(1) =~= b.skip(1) + s); assert(h_set(h, v, b[0]->Some_0) == Some(h)); lemma_unknown_vals(h, v, b.skip(1), s); }
}
// THEOREM: an unknown header variable with any values is as if it were not there
pub proof fn theorem_unknown_variable(h: Header, n: SP, b: St, s: St)
    requires n.code == 9, g_str(n) is Some, unknown_var(g_str(n)->Some_0), plain_var(b), at_var(s),
    ensures h_read(h, seq![Some(n)] + b + s) == h_read(h, s),
{ let x = seq![Some(n)] + b + s; assert(x[0] == Some(n)); assert(x.skip(1) =~= b + s); lemma_unknown_vals(h, g_str(n)->Some_0, b, s); assert(s.len() < x.len()); /*CANARY*/ }
// ---- (5) tables ----
pub open spec fn known_table(n: Seq<char>) -> bool { TABLES }
pub uninterp spec fn t_known(n: Seq<char>, d: Drawing, s: St) -> Option<(Drawing, St)>;
#[verifier::external_body]
pub fn x_table(d: &mut Drawing, iter: &mut CodePairPutBack, n: &str) -> (r: DxfResult<()>)
    ensures r is Ok == (t_known(n@, *old(d), stream(*old(iter))) is Some), r is Ok ==> (*final(d), stream(*final(iter))) == t_known(n@, *old(d), stream(*old(iter)))->Some_0, stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
pub open spec fn t_read(d: Drawing, s: St) -> Option<(Drawing, St)> {
    if !(st0(s) && s[0]->Some_0.code == 2 && txt(s) is Some) { None }
    else { match (if known_table(txt(s)->Some_0) { t_known(txt(s)->Some_0, d, s.skip(1)) } else { match to_tab(s.skip(1)) { None => None, Some(s2) => Some((d, s2)) } }) {
        None => None,
        Some((d2, s2)) => if is0(s2) && txt(s2) == Some("ENDTAB"@) { Some((d2, s2.skip(1))) } else { None },
    } }
}
pub uninterp spec fn b_read(d: Drawing, s: St) -> Option<(Drawing, St)>;
#[verifier::external_body]
pub fn x_block(d: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)
    ensures r is Ok == (b_read(*old(d), stream(*old(iter))) is Some), r is Ok ==> (*final(d), stream(*final(iter))) == b_read(*old(d), stream(*old(iter)))->Some_0, stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
// the items of the section TABLES or BLOCKS
pub open spec fn items(tab: bool, n: Seq<char>, d: Drawing, s: St) -> Option<(Drawing, St)> decreases s.len() {
    if !is0(s) || txt(s) is None { None } else if txt(s) == Some("ENDSEC"@) { Some((d, s)) } else if txt(s) != Some(n) { None }
    else { match (if tab { t_read(d, s.skip(1)) } else { b_read(d, s.skip(1)) }) { None => None, Some((d2, s2)) => if s2.len() < s.len() { items(tab, n, d2, s2) } else { None } } }
}
// THEOREM: a table of an unknown kind is as if it were not there
pub proof fn theorem_unknown_table(d: Drawing, n: SP, b: St, e: SP, s: St)
    requires n.code == 2, g_str(n) is Some, !known_table(g_str(n)->Some_0), plain_tab(b), e.code == 0, g_str(e) == Some("ENDTAB"@),
    ensures items(true, "TABLE"@, d, seq![Some(p_str(0, "TABLE"@)), Some(n)] + b + seq![Some(e)] + s) == items(true, "TABLE"@, d, s),
{
    reveal_strlit("TABLE"); reveal_strlit("ENDSEC"); assert("TABLE"@.len() != "ENDSEC"@.len());
    let x = seq![Some(p_str(0, "TABLE"@)), Some(n)] + b + seq![Some(e)] + s;
    let t = seq![Some(e)] + s;
    assert(x[0] == Some(p_str(0, "TABLE"@))); assert(x[1] == Some(n)); assert(x.skip(1)[0] == Some(n));
    assert(x.skip(1).skip(1) =~= b + t); assert(t[0] == Some(e)); lemma_to_tab(b, t); assert(t.skip(1) =~= s);
    assert(t_read(d, x.skip(1)) == Some((d, s)));
    assert(is0(x)); assert(txt(x) == Some("TABLE"@)); assert(s.len() < x.len()); /*CANARY*/
}
// ---- (6) the sections of a file ----
pub uninterp spec fn classes(d: Drawing, s: St) -> Option<(Drawing, St)>;
#[verifier::external_body]
pub fn x_classes(d: &mut Drawing, iter: &mut CodePairPutBack) -> (r: DxfResult<()>)
    ensures r is Ok == (classes(*old(d), stream(*old(iter))) is Some), r is Ok ==> (*final(d), stream(*final(iter))) == classes(*old(d), stream(*old(iter)))->Some_0, stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
pub uninterp spec fn thumb(s: St) -> Option<(Option<XImage>, St)>;
#[verifier::external_body]
pub fn x_thumb(iter: &mut CodePairPutBack) -> (r: DxfResult<Option<XImage>>)
    ensures r is Ok == (thumb(stream(*old(iter))) is Some), r is Ok ==> (r->Ok_0, stream(*final(iter))) == thumb(stream(*old(iter)))->Some_0, stream(*final(iter)).len() <= stream(*old(iter)).len(),
{ unimplemented!() }
pub open spec fn known_section(n: Seq<char>) -> bool { n == "HEADER"@ || n == "CLASSES"@ || n == "TABLES"@ || n == "BLOCKS"@ || n == "ENTITIES"@ || n == "OBJECTS"@ || n == "THUMBNAILIMAGE"@ }
pub open spec fn one_sec(n: Seq<char>, d: Drawing, s: St) -> Option<(Drawing, St)> {
    if n == "HEADER"@ { match h_read(h_default(), s) { None => None, Some((h, s2)) => Some((Drawing { header: h, thumbnail: d.thumbnail, x_rest: d.x_rest }, s2)) } }
    else if n == "CLASSES"@ { classes(d, s) } else if n == "TABLES"@ { items(true, "TABLE"@, d, s) } else if n == "BLOCKS"@ { items(false, "BLOCK"@, d, s) }
    else if n == "ENTITIES"@ { ents(d, s) } else if n == "OBJECTS"@ { objs(d, s) }
    else if n == "THUMBNAILIMAGE"@ { match thumb(s) { None => None, Some((i, s2)) => Some((Drawing { header: d.header, thumbnail: i, x_rest: d.x_rest }, s2)) } }
    else { match to_sec(s) { None => None, Some(s2) => Some((d, s2)) } }
}
pub open spec fn secs(d: Drawing, s: St) -> Option<(Drawing, St)> decreases s.len() {
    if s.len() == 0 { Some((d, s)) } else if !is0(s) || txt(s) is None { None } else if txt(s) == Some("EOF"@) { Some((d, s)) } else if txt(s) != Some("SECTION"@) { None }
    else { let s1 = s.skip(1);
        if !(st0(s1) && s1[0]->Some_0.code == 2 && txt(s1) is Some) { None }
        else { match one_sec(txt(s1)->Some_0, d, s1.skip(1)) { None => None, Some((d2, s2)) => if is0(s2) && txt(s2) == Some("ENDSEC"@) && s2.len() < s.len() { secs(d2, s2.skip(1)) } else { None } } }
    }
}
// THEOREM: a section of an unknown kind is as if it were not there
pub proof fn theorem_unknown_section(d: Drawing, n: SP, b: St, e: SP, s: St)
    requires n.code == 2, g_str(n) is Some, !known_section(g_str(n)->Some_0), plain_sec(b), e.code == 0, g_str(e) == Some("ENDSEC"@),
    ensures secs(d, seq![Some(p_str(0, "SECTION"@)), Some(n)] + b + seq![Some(e)] + s) == secs(d, s),
{
    reveal_strlit("SECTION"); reveal_strlit("EOF"); assert("SECTION"@.len() != "EOF"@.len());
    let x = seq![Some(p_str(0, "SECTION"@)), Some(n)] + b + seq![Some(e)] + s;
    let t = seq![Some(e)] + s;
    assert(x[0] == Some(p_str(0, "SECTION"@))); assert(x.skip(1)[0] == Some(n));
    assert(x.skip(1).skip(1) =~= b + t); assert(t[0] == Some(e)); lemma_to_sec(b, t); assert(t.skip(1) =~= s); /*CANARY*/
}
