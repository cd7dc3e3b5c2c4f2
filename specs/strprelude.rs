// ---- assumed contracts on the standard library (str slicing by byte offset, &str pattern search) ----
// `bdry(s, b, k)`: byte offset b of the text s is the boundary before its k-th character.
pub uninterp spec fn bdry(s: Seq<char>, b: usize, k: int) -> bool;
#[verifier::external_body]
fn x_find<F: Fn(char) -> bool>(val: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| #[trigger] f.requires((c,)),
    ensures
        match r {
            Some(b) => exists|k: int| #[trigger] bdry(val@, b, k) && 0 <= k < val@.len() && f.ensures((val@[k],), true)
                && forall|j: int| 0 <= j < k ==> f.ensures((#[trigger] val@[j],), false),
            None => forall|j: int| 0 <= j < val@.len() ==> f.ensures((#[trigger] val@[j],), false),
        },
{ val.find(f) }
#[verifier::external_body]
fn x_slice_to<'a>(val: &'a str, b: usize) -> (r: &'a str)
    requires exists|k: int| #[trigger] bdry(val@, b, k) && 0 <= k <= val@.len(),
    ensures forall|k: int| #[trigger] bdry(val@, b, k) ==> r@ == val@.take(k),
{ &val[0..b] }
#[verifier::external_body]
fn x_slice_from<'a>(val: &'a str, b: usize) -> (r: &'a str)
    requires exists|k: int| #[trigger] bdry(val@, b, k) && 0 <= k <= val@.len(),
    ensures forall|k: int| #[trigger] bdry(val@, b, k) ==> r@ == val@.skip(k),
{ &val[b..] }
#[verifier::external_body]
fn x_reserve(s: &mut String, val: &str, b: usize)
    ensures final(s)@ == old(s)@,
{ s.reserve(val.len() - b) }
#[verifier::external_body]
fn x_string_into(s: String) -> (r: String) ensures r@ == s@, { s }
#[verifier::external_body]
fn x_str_into(s: &str) -> (r: String) ensures r@ == s@, { String::from(s) }
pub open spec fn is_scalar(n: u32) -> bool { n < 0xD800 || (0xE000 <= n && n <= 0x10FFFF) }
pub assume_specification [std::char::from_u32] (n: u32) -> (r: std::option::Option<char>)
    ensures match r { Some(c) => is_scalar(n) && c as u32 == n, None => !is_scalar(n) };
#[verifier::external_body]
fn x_string_from(s: &str) -> (r: String) ensures r@ == s@, { String::from(s) }
