// File names and versions, and facts about them (nothing here is assumed).
pub mod names {
use vstd::prelude::*;
use crate::base::*;
use crate::std_::path::simple;
/// what a version may be
pub open spec fn valid_version(s: Seq<char>) -> bool { !occurs(s, seq!['-', '-', '-']) && !occurs(s, seq!['/']) }
pub open spec fn tar_zst() -> Seq<char> { seq!['.', 't', 'a', 'r', '.', 'z', 's', 't'] }
pub open spec fn d_tar() -> Seq<char> { seq!['.', 't', 'a', 'r'] }
pub open spec fn d_patch() -> Seq<char> { seq!['.', 'p', 'a', 't', 'c', 'h'] }
pub open spec fn d_zst() -> Seq<char> { seq!['.', 'z', 's', 't'] }
/// the name in a file name: without its extension and one `.tar` or `.patch`
pub open spec fn base_name(n: Seq<char>) -> Seq<char> {
    let s = crate::std_::path::stem(n);
    if ends(s, d_tar()) { s.take(s.len() - 4) } else if ends(s, d_patch()) { s.take(s.len() - 6) } else { s } }
/// file name of the build of a version
pub open spec fn build_name(v: Seq<char>) -> Seq<char> { v + tar_zst() }
pub open spec fn dashes() -> Seq<char> { seq!['-', '-', '-'] }
pub open spec fn patch_stem(a: Seq<char>, b: Seq<char>) -> Seq<char> {
    if occurs(a, seq!['-']) || occurs(b, seq!['-']) { a + dashes() + b } else { a + seq!['-'] + b } }
/// file name of the patch from `a` to `b`
pub open spec fn patch_name(a: Seq<char>, b: Seq<char>) -> Seq<char> { patch_stem(a, b) + d_patch() + d_zst() }
/// the versions that a name stands for
pub open spec fn parse_stem(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let p = split_seq(s, seq!['-']); let q = split_seq(s, dashes());
    let v = if p.len() == 2 { Some((p[0], p[1])) } else if q.len() == 2 { Some((q[0], q[1])) } else { None };
    if v is Some && valid_version((v->0).0) && valid_version((v->0).1) { v } else { None } }
}
pub mod names_lemmas {
use vstd::prelude::*;
use crate::base::*;
use crate::text::*;
use crate::std_::path::simple;
pub proof fn lemma_C01_roundtrip(v: Seq<char>)
    requires valid_version(v)
    ensures base_name(build_name(v)) == v, simple(build_name(v))
{   let n = v + d_tar(); let e = seq!['z', 's', 't'];
    assert(build_name(v) =~= n + seq!['.'] + e);
    lemma_stem(n, e); lemma_ends_append(v, d_tar());
    let b = build_name(v); assert(b.len() == v.len() + 8);
    assert forall|i: int| 0 <= i < b.len() implies b[i] != '/' by {
        if i < v.len() { lemma_at_char(v, '/', i); assert(b[i] == v[i]); } }
}
/// what ends like a build file is one
pub proof fn lemma_build_file(n: Seq<char>)
    requires ends(n, tar_zst())
    ensures n == build_name(base_name(n))
{   let k = n.len() - 8; let v = n.take(k); assert(n =~= v + n.subrange(k, n.len() as int)); assert(n == v + tar_zst());
    let m = v + d_tar(); let e = seq!['z', 's', 't']; assert(n =~= m + seq!['.'] + e); lemma_stem(m, e); lemma_ends_append(v, d_tar()); }
/// different versions have different build files
pub proof fn lemma_C01_injective(a: Seq<char>, b: Seq<char>)
    requires valid_version(a), valid_version(b), build_name(a) == build_name(b)
    ensures a == b
{   lemma_C01_roundtrip(a); lemma_C01_roundtrip(b); }
pub proof fn lemma_patch_name_simple(a: Seq<char>, b: Seq<char>)
    requires valid_version(a), valid_version(b)
    ensures simple(patch_name(a, b))
{
    let b2 = patch_name(a, b); assert(b2.len() >= 11);
    assert forall|i: int| 0 <= i < b2.len() implies b2[i] != '/' by {
        if i < a.len() { lemma_at_char(a, '/', i); assert(b2[i] == a[i]); }
        else { let d = if occurs(a, seq!['-']) || occurs(b, seq!['-']) { 3int } else { 1int };
          if i < a.len() + d { assert(b2[i] == '-'); }
          else if i < a.len() + d + b.len() { lemma_at_char(b, '/', i - a.len() - d); assert(b2[i] == b[i - a.len() - d]); } } }
}
pub proof fn lemma_C02_roundtrip(a: Seq<char>, b: Seq<char>)
    requires valid_version(a), valid_version(b), a.len() == 0 || a.last() != '-'
    ensures parse_stem(base_name(patch_name(a, b))) == Some((a, b)), simple(patch_name(a, b))
{
    let s = patch_stem(a, b); let n = s + d_patch(); let e = seq!['z', 's', 't'];
    assert(patch_name(a, b) =~= n + seq!['.'] + e);
    lemma_stem(n, e); lemma_ends_append(s, d_patch());
    assert(n.len() >= 6 && n[n.len() - 1] == 'h');
    assert(!ends(n, d_tar())) by { if ends(n, d_tar()) { assert(n.subrange(n.len() - 4, n.len() as int)[3] == 'r'); } }
    assert(base_name(patch_name(a, b)) == s);
    if occurs(a, seq!['-']) || occurs(b, seq!['-']) {
        let k = a.len() as int;
        assert(s[k] == '-' && s[k + 1] == '-');
        lemma_split_len3(s, '-', k, k + 1);
        assert(s.subrange(k, k + 3) =~= dashes());
        assert forall|j: int| 0 <= j < k implies !at(s, dashes(), j) by {
            if at(s, dashes(), j) {
                if j + 3 <= k { assert(a.subrange(j, j + 3) =~= s.subrange(j, j + 3)); assert(at(a, dashes(), j)); }
                else { assert(s.subrange(j, j + 3)[k - 1 - j] == s[k - 1]); assert(s[k - 1] == a.last()); assert(dashes()[k - 1 - j] == '-'); } } }
        assert(s.subrange(k + 3, s.len() as int) =~= b);
        lemma_split_one(s, dashes(), k);
        assert(s.subrange(0, k) =~= a);
    } else {
        let k = a.len() as int; let p = seq!['-'];
        assert(s[k] == '-'); lemma_at_char(s, '-', k);
        assert forall|j: int| 0 <= j < k implies !at(s, p, j) by { lemma_at_char(s, '-', j); lemma_at_char(a, '-', j); assert(s[j] == a[j]); }
        assert(s.subrange(k + 1, s.len() as int) =~= b);
        lemma_split_one(s, p, k);
        assert(s.subrange(0, k) =~= a);
    }
    lemma_patch_name_simple(a, b);
}

}
