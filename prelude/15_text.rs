// Proved facts about texts (nothing here is assumed).
pub mod text {
use vstd::prelude::*;
use crate::base::*;

pub proof fn lemma_find_none(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i, forall|j: int| i <= j ==> !at(s, p, j)
    ensures find_from(s, p, i) == -1
    decreases s.len() - i + 1
{ if i + p.len() <= s.len() { lemma_find_none(s, p, i + 1); } }

pub proof fn lemma_find_at(s: Seq<char>, p: Seq<char>, i: int, k: int)
    requires 0 <= i <= k, at(s, p, k), forall|j: int| i <= j < k ==> !at(s, p, j)
    ensures find_from(s, p, i) == k
    decreases k - i
{ if i < k { lemma_find_at(s, p, i + 1, k); } }

/// what `find_from` finds
pub proof fn lemma_find(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i
    ensures ({ let k = find_from(s, p, i); (k == -1 && forall|j: int| i <= j ==> !at(s, p, j)) || (k >= i && at(s, p, k) && forall|j: int| i <= j < k ==> !at(s, p, j)) })
    decreases s.len() - i + 1
{ if i + p.len() <= s.len() && !at(s, p, i) { lemma_find(s, p, i + 1); } }

pub proof fn lemma_rfind_at(s: Seq<char>, p: Seq<char>, i: int, k: int)
    requires 0 <= k <= i, at(s, p, k), forall|j: int| k < j <= i ==> !at(s, p, j)
    ensures rfind_from(s, p, i) == k
    decreases i - k
{ if k < i { lemma_rfind_at(s, p, i - 1, k); } }

pub proof fn lemma_at_char(s: Seq<char>, c: char, i: int)
    ensures at(s, seq![c], i) <==> (0 <= i < s.len() && s[i] == c)
{ if 0 <= i < s.len() { assert(s.subrange(i, i + 1) =~= seq![s[i]]); if s[i] == c { assert(seq![s[i]] =~= seq![c]); } else { assert(seq![s[i]][0] != seq![c][0]); } } }

/// a pattern that does not occur: one piece
pub proof fn lemma_split_none(s: Seq<char>, p: Seq<char>)
    requires !occurs(s, p)
    ensures split_seq(s, p) == seq![s]
{ lemma_find_none(s, p, 0); }

/// one occurrence, at `k`: two pieces
pub proof fn lemma_split_one(s: Seq<char>, p: Seq<char>, k: int)
    requires p.len() > 0, at(s, p, k), forall|j: int| 0 <= j < k ==> !at(s, p, j), !occurs(s.subrange(k + p.len(), s.len() as int), p)
    ensures split_seq(s, p) == seq![s.subrange(0, k), s.subrange(k + p.len(), s.len() as int)]
{ lemma_find_at(s, p, 0, k); lemma_split_none(s.subrange(k + p.len(), s.len() as int), p);
  assert(split_seq(s, p) =~= seq![s.subrange(0, k), s.subrange(k + p.len(), s.len() as int)]); }

/// splitting at a character gives one piece more than there are such characters: at least
pub proof fn lemma_split_len3(s: Seq<char>, c: char, i: int, j: int)
    requires 0 <= i < j < s.len(), s[i] == c, s[j] == c
    ensures split_seq(s, seq![c]).len() >= 3
{ let p = seq![c]; lemma_find(s, p, 0); lemma_at_char(s, c, i); let k = find_from(s, p, 0); lemma_at_char(s, c, k);
  let t = s.subrange(k + 1, s.len() as int);
  assert(t[j - k - 1] == c); lemma_at_char(t, c, j - k - 1); lemma_find(t, p, 0); lemma_at_char(t, c, find_from(t, p, 0));
  assert(split_seq(s, p) == seq![s.subrange(0, k)] + split_seq(t, p));
  let k2 = find_from(t, p, 0); let t2 = t.subrange(k2 + 1, t.len() as int);
  assert(split_seq(t, p) == seq![t.subrange(0, k2)] + split_seq(t2, p)); assert(split_seq(t2, p).len() >= 1); }

/// the stem of `s` + "." + ext, where ext has no dot
pub proof fn lemma_stem(s: Seq<char>, e: Seq<char>)
    requires forall|i: int| 0 <= i < e.len() ==> e[i] != '.', s.len() > 0
    ensures crate::std_::path::stem(s + seq!['.'] + e) == s
{ let n = s + seq!['.'] + e; let k = s.len() as int; assert(n[k] == '.'); lemma_at_char(n, '.', k);
  assert forall|j: int| k < j <= n.len() - 1 implies !at(n, seq!['.'], j) by { lemma_at_char(n, '.', j); assert(n[j] == e[j - k - 1]); }
  lemma_rfind_at(n, seq!['.'], n.len() - 1, k); assert(n.take(k) =~= s); }

pub proof fn lemma_ends_append(s: Seq<char>, e: Seq<char>)
    ensures ends(s + e, e), (s + e).take((s + e).len() - e.len()) == s
{ let n = s + e; assert(n.subrange(s.len() as int, n.len() as int) =~= e); assert(n.take(n.len() - e.len()) =~= s); }
/// from the characters
/// an ending without slashes is one of the last part
pub proof fn lemma_ends_tail(d: Seq<char>, n: Seq<char>, t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] != '/', d.len() == 0 || d.last() == '/'
    ensures ends(d + n, t) <==> ends(n, t)
{   let s = d + n; let k = s.len() - t.len();
    if ends(s, t) { assert(n.len() >= t.len()) by { if n.len() < t.len() { let i = d.len() - 1; if k <= i { assert(s.subrange(k, s.len() as int)[i - k] == s[i]); assert(s[i] == d.last()); } } }
        assert(n.subrange(n.len() - t.len(), n.len() as int) =~= s.subrange(k, s.len() as int)); }
    if ends(n, t) { assert(n.subrange(n.len() - t.len(), n.len() as int) =~= s.subrange(k, s.len() as int)); } }
/// the last part
pub proof fn lemma_last_part(d: Seq<char>, n: Seq<char>)
    requires forall|i: int| 0 <= i < n.len() ==> n[i] != '/', d.len() == 0 || d.last() == '/'
    ensures split_seq(d + n, seq!['/']).len() >= 1, split_seq(d + n, seq!['/']).last() == n
    decreases d.len()
{   let s = d + n; let p = seq!['/']; lemma_find(s, p, 0); let k = find_from(s, p, 0);
    if d.len() == 0 { if k >= 0 { lemma_at_char(s, '/', k); assert(s[k] == n[k]); } assert(s =~= n); }
    else { lemma_at_char(s, '/', d.len() - 1); assert(s[d.len() - 1] == '/'); assert(0 <= k); lemma_at_char(s, '/', k);
        if k >= d.len() { assert(s[k] == n[k - d.len()]); }
        let e = d.skip(k + 1); assert(s.subrange(k + 1, s.len() as int) =~= e + n); if e.len() > 0 { assert(e.last() == d.last()); }
        lemma_last_part(e, n); assert(split_seq(s, p) == seq![s.subrange(0, k)] + split_seq(e + n, p)); assert(split_seq(s, p).last() == split_seq(e + n, p).last()); } }
pub proof fn lemma_name_of_path()
    ensures forall|d: Seq<char>, n: Seq<char>| simple(n) ==> split_seq(#[trigger] pjoin(d, n), seq!['/']).len() >= 1 && split_seq(pjoin(d, n), seq!['/']).last() == n
{   assert forall|d: Seq<char>, n: Seq<char>| simple(n) implies split_seq(#[trigger] pjoin(d, n), seq!['/']).len() >= 1 && split_seq(pjoin(d, n), seq!['/']).last() == n by {
        assert forall|i: int| 0 <= i < n.len() implies n[i] != '/' by { assert(n.contains(n[i])); }
        crate::std_::path::axiom_join_text(d, n); if d.len() == 0 || d.last() == '/' { lemma_last_part(d, n); } else { lemma_last_part(d + seq!['/'], n); } } }
pub proof fn lemma_at_ext(s: Seq<char>, p: Seq<char>, i: int)
    requires 0 <= i, i + p.len() <= s.len(), forall|j: int| 0 <= j < p.len() ==> s[i + j] == p[j]
    ensures at(s, p, i)
{ assert(s.subrange(i, i + p.len()) =~= p); }
/// names of temporary files, by their characters
pub open spec fn temp_chars(n: Seq<char>) -> bool { n.len() >= 22 && n[0] == '.' && n[1] == '_' && n[2] == 'a' && n[3] == 'r' && n[4] == 't' && n[5] == 'e' && n[6] == 'f' && n[7] == 'a' && n[8] == 'c' && n[9] == 't' && n[10] == 'a' && n[11] == '-' && n[12] == 't' && n[13] == 'e' && n[14] == 'm' && n[15] == 'p' && n[16] == '-'
    && n[n.len() - 5] == '.' && n[n.len() - 4] == 'p' && n[n.len() - 3] == 'a' && n[n.len() - 2] == 'r' && n[n.len() - 1] == 't' }
pub proof fn lemma_temp_chars()
    ensures forall|n: Seq<char>| #![trigger is_temp(n)] temp_chars(n) ==> is_temp(n)
{   reveal_strlit("._artefacta-temp-"); let p = temp_prefix(); let e = seq!['.', 'p', 'a', 'r', 't'];
    assert forall|n: Seq<char>| #![trigger is_temp(n)] temp_chars(n) implies is_temp(n) by {
        assert(n.subrange(0, 17) =~= p); assert(n.subrange(n.len() - 5, n.len() as int) =~= e); } }
}
