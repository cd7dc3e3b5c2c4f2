pub type St = Seq<Option<SP>>;
pub open spec fn st0(s: St) -> bool { s.len() > 0 && s[0] is Some }
pub open spec fn is0(s: St) -> bool { st0(s) && s[0]->Some_0.code == 0 }
pub open spec fn txt(s: St) -> Option<Seq<char>> { if st0(s) { g_str(s[0]->Some_0) } else { None } }
// ---- (1) comments ----
// THEOREM: two sources that differ only in 999 comments deliver the same pairs to every reader
pub proof fn theorem_comments(a: CodePairPutBack, b: CodePairPutBack)
    requires a.top@.len() == 0, b.top@.len() == 0, no_comments(src(a.iter)) == no_comments(src(b.iter)),
    ensures stream(a) == stream(b),
{ assert(top_view(a.top@) =~= seq![]); assert(top_view(b.top@) =~= seq![]); /*CANARY*/ }
pub proof fn lemma_comment_anywhere(x: Seq<DxfResult<CodePair>>, c: DxfResult<CodePair>, y: Seq<DxfResult<CodePair>>)
    requires is_comment(c),
    ensures no_comments(x + seq![c] + y) == no_comments(x + y),
    decreases x.len(),
{
    let s = x + seq![c] + y;
    if x.len() == 0 { assert(s.skip(1) =~= x + y); assert(s[0] == c); }
    else { assert(s.skip(1) =~= x.skip(1) + seq![c] + y); assert((x + y).skip(1) =~= x.skip(1) + y); assert(s[0] == x[0]); assert((x + y)[0] == x[0]); lemma_comment_anywhere(x.skip(1), c, y); }
}
// ---- (2) skipping whole sections, tables and records ----
// the stream from the first 0 pair with one of the names on
pub open spec fn stop_sec(s: St) -> bool { is0(s) && txt(s) == Some("ENDSEC"@) }
pub open spec fn stop_tab(s: St) -> bool { is0(s) && (txt(s) == Some("TABLE"@) || txt(s) == Some("ENDSEC"@) || txt(s) == Some("ENDTAB"@)) }
pub open spec fn to_sec(s: St) -> Option<St> decreases s.len() { if s.len() == 0 { Some(s) } else if s[0] is None { None } else if is0(s) && txt(s) is None { None } else if stop_sec(s) { Some(s) } else { to_sec(s.skip(1)) } }
pub open spec fn to_tab(s: St) -> Option<St> decreases s.len() { if s.len() == 0 { None } else if s[0] is None { None } else if is0(s) && txt(s) is None { None } else if stop_tab(s) { Some(s) } else { to_tab(s.skip(1)) } }
pub open spec fn to_0(s: St) -> Option<St> decreases s.len() { if s.len() == 0 { None } else if s[0] is None { None } else if is0(s) { Some(s) } else { to_0(s.skip(1)) } }
pub open spec fn plain(b: St) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) is Some && b[k]->Some_0.code != 0 }
pub open spec fn plain_sec(b: St) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) is Some && (b[k]->Some_0.code == 0 ==> g_str(b[k]->Some_0) is Some && g_str(b[k]->Some_0) != Some("ENDSEC"@)) }
pub open spec fn plain_tab(b: St) -> bool { forall|k: int| 0 <= k < b.len() ==> (#[trigger] b[k]) is Some && (b[k]->Some_0.code == 0 ==> g_str(b[k]->Some_0) is Some && g_str(b[k]->Some_0) != Some("ENDSEC"@) && g_str(b[k]->Some_0) != Some("TABLE"@) && g_str(b[k]->Some_0) != Some("ENDTAB"@)) }
pub proof fn lemma_to_0(b: St, s: St) requires plain(b), is0(s), ensures to_0(b + s) == Some(s), decreases b.len(),
{ if b.len() == 0 { assert(b + s =~= s); } else { assert((b + s)[0] == b[0]); assert((b + s).skip(1) =~= b.skip(1) + s); lemma_to_0(b.skip(1), s); } }
pub proof fn lemma_to_sec(b: St, s: St) requires plain_sec(b), stop_sec(s), ensures to_sec(b + s) == Some(s), decreases b.len(),
{ if b.len() == 0 { assert(b + s =~= s); } else { assert((b + s)[0] == b[0]); assert((b + s).skip(1) =~= b.skip(1) + s); lemma_to_sec(b.skip(1), s); } }
pub proof fn lemma_to_tab(b: St, s: St) requires plain_tab(b), stop_tab(s), ensures to_tab(b + s) == Some(s), decreases b.len(),
{ if b.len() == 0 { assert(b + s =~= s); } else { assert((b + s)[0] == b[0]); assert((b + s).skip(1) =~= b.skip(1) + s); lemma_to_tab(b.skip(1), s); } }
pub proof fn lemma_len_0(s: St) ensures to_0(s) is Some ==> to_0(s)->Some_0.len() <= s.len() && is0(to_0(s)->Some_0), to_sec(s) is Some ==> to_sec(s)->Some_0.len() <= s.len(), to_tab(s) is Some ==> to_tab(s)->Some_0.len() <= s.len(), decreases s.len(),
{ if s.len() > 0 { lemma_len_0(s.skip(1)); } }
#[verifier::external_body]
pub fn x_is(p: &CodePair, code: i32, t: &str) -> (r: bool) ensures r == (p.code == code && g_str(pv(*p)) == Some(t@)), { unimplemented!() }
pub open spec fn is_end(t: Seq<char>) -> bool { t == "ENDSEC"@ || t == "ENDBLK"@ }
