# ------------------------------------------------------------------ tags
mod git
  items:
    /// where tags are split
    pub open spec fn sep() -> spec_fn(char) -> bool { |c: char| c == '.' || c == '-' }
    /// the parts of a tag
    pub open spec fn parts(s: Seq<char>) -> Seq<Seq<char>> { split_fn(lower(s), sep()) }
    pub open spec fn texts(s: Seq<Str>) -> Seq<Seq<char>> { s.map_values(|x: Str| x.view()) }
    pub proof fn lemma_texts()
        ensures forall|a: Seq<Str>, b: Seq<Str>| #[trigger] texts(a) == #[trigger] texts(b) ==> a == b
    {   assert forall|a: Seq<Str>, b: Seq<Str>| #[trigger] texts(a) == #[trigger] texts(b) implies a == b by {
            assert(a.len() == texts(a).len() && b.len() == texts(b).len());
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { assert(texts(a)[i] == a[i].view()); assert(texts(b)[i] == b[i].view()); }
            assert(a =~= b); } }
    // ---- the tags of a repository
    pub open spec fn is_tag() -> spec_fn(crate::git2::RefData) -> bool { |d: crate::git2::RefData| d.tag }
    /// the names of all tags
    pub open spec fn tag_names(r: &crate::git2::Repository) -> Seq<Seq<char>> { names(sel(opts(r.refs()), is_tag())) }
    pub open spec fn names(s: Seq<crate::git2::RefData>) -> Seq<Seq<char>> { s.map_values(|d: crate::git2::RefData| d.name()) }
    pub open spec fn tag_texts(s: Seq<Tag>) -> Seq<Seq<char>> { s.map_values(|t: Tag| t.name.view()) }
    pub open spec fn datas(s: Seq<crate::git2::Reference>) -> Seq<crate::git2::RefData> { s.map_values(|x: crate::git2::Reference| x.data()) }
    pub open spec fn read_as(k: Seq<Option<crate::git2::Reference>>, m: Seq<Option<crate::git2::RefData>>) -> bool {
        k.len() == m.len() && forall|i: int| #![trigger k[i]] #![trigger m[i]] 0 <= i < k.len() ==> (k[i] is Some <==> m[i] is Some) && (k[i] is Some ==> k[i]->0.data() == m[i]->0) }
    pub proof fn lemma_read(k: Seq<Option<crate::git2::Reference>>, m: Seq<Option<crate::git2::RefData>>)
        requires read_as(k, m)
        ensures datas(opts(k)) == opts(m)
        decreases k.len()
    {   if k.len() > 0 { let a = k.drop_last(); let b = m.drop_last(); assert(read_as(a, b)) by { assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies (a[i] is Some <==> b[i] is Some) && (a[i] is Some ==> a[i]->0.data() == b[i]->0) by { assert(k[i] is Some <==> m[i] is Some); } } lemma_read(a, b); assert(k[k.len() - 1] is Some <==> m[k.len() - 1] is Some); }
        assert(datas(opts(k)) =~= opts(m)); }
    pub open spec fn flagged(s: Seq<crate::git2::Reference>, k: Seq<bool>) -> bool { k.len() == s.len() && forall|i: int| #![trigger k[i]] #![trigger s[i]] 0 <= i < k.len() ==> k[i] == s[i].data().tag }
    pub proof fn lemma_flagged(s: Seq<crate::git2::Reference>, k: Seq<bool>)
        requires flagged(s, k)
        ensures datas(picked(s, k)) == sel(datas(s), is_tag())
        decreases s.len()
    {   if s.len() > 0 { let a = s.drop_last(); let b = k.drop_last(); assert(flagged(a, b)) by { assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies b[i] == a[i].data().tag by { assert(k[i] == s[i].data().tag); } } lemma_flagged(a, b); assert(datas(s).drop_last() =~= datas(a)); assert(k[k.len() - 1] == s[k.len() - 1].data().tag); }
        assert(datas(picked(s, k)) =~= sel(datas(s), is_tag())); }
    /// a number in a tag (`'0'` and its value), or another character (and 0)
    pub type Tok = (char, nat);
    /// what a tag consists of: everything but the number at its end, and that number
    pub open spec fn scan(s: Seq<char>) -> (Seq<Tok>, Option<nat>) decreases s.len() {
        if s.len() == 0 { (seq![], None) } else { let (k, n) = scan(s.drop_last()); let c = s.last();
            if digit(c) { (k, Some((if n is Some { n->0 } else { 0 }) * 10 + (c as nat - '0' as nat) as nat)) } else { (num(k, n).push((c, 0)), None) } } }
    pub open spec fn num(k: Seq<Tok>, n: Option<nat>) -> Seq<Tok> { if n is Some { k.push(('0', n->0)) } else { k } }
    pub open spec fn toks(s: Seq<char>) -> Seq<Tok> { num(scan(s).0, scan(s).1) }
    pub open spec fn tok_cmp(a: Tok, b: Tok) -> Ordering { then(int_cmp(a.0 as int, b.0 as int), int_cmp(a.1 as int, b.1 as int)) }
    pub open spec fn toks_cmp(a: Seq<Tok>, b: Seq<Tok>) -> Ordering decreases a.len() {
        if a.len() == 0 || b.len() == 0 { int_cmp(a.len() as int, b.len() as int) } else { then(tok_cmp(a[0], b[0]), toks_cmp(a.skip(1), b.skip(1))) } }
    /// natural order: numbers by their value, the rest by characters; by text where that makes no difference
    pub open spec fn nat_cmp(a: Seq<char>, b: Seq<char>) -> Ordering { then(toks_cmp(toks(a), toks(b)), seq_cmp(a, b)) }
    // ---- the key
    pub open spec fn val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + (s.last() as nat - '0' as nat) as nat } }
    /// digits without leading zeros
    pub open spec fn canonical(s: Seq<char>) -> bool { (forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i])) && (s.len() > 0 ==> s[0] != '0') }
    pub open spec fn rep1(x: (char, usize, Str), t: Tok) -> bool {
        x.0 == t.0 && canonical(x.2.view()) && val(x.2.view()) == t.1 && x.1 == x.2.view().len() && (x.0 != '0' ==> x.2.view().len() == 0) }
    pub open spec fn rep(x: Seq<(char, usize, Str)>, t: Seq<Tok>) -> bool { x.len() == t.len() && forall|i: int| 0 <= i < x.len() ==> rep1(#[trigger] x[i], t[i]) }
    pub open spec fn p10(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * p10((n - 1) as nat) } }
    pub proof fn lemma_bounds(s: Seq<char>)
        requires forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i])
        ensures val(s) < p10(s.len()), s.len() > 0 && s[0] != '0' ==> val(s) >= p10((s.len() - 1) as nat), val(s) == 0 && canonical(s) ==> s.len() == 0, p10(s.len()) > 0
        decreases s.len()
    {   if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies digit(#[trigger] t[i]) by { assert(t[i] == s[i]); } lemma_bounds(t); assert(digit(s[s.len() - 1]));
            if t.len() > 0 { assert(t[0] == s[0]); } } }
    pub proof fn lemma_p10(a: nat, b: nat)
        requires a <= b
        ensures p10(a) <= p10(b), p10(a) > 0
        decreases b
    {   if a < b { lemma_p10(a, (b - 1) as nat); } else if a > 0 { lemma_p10((a - 1) as nat, (b - 1) as nat); } }
    /// the first digit
    pub proof fn lemma_first(s: Seq<char>)
        requires s.len() > 0
        ensures val(s) == (s[0] as nat - '0' as nat) as nat * p10((s.len() - 1) as nat) + val(s.skip(1))
        decreases s.len()
    {   let d = (s[0] as nat - '0' as nat) as nat;
        if s.len() == 1 { assert(s.drop_last() =~= seq![]); assert(s.skip(1) =~= seq![]); assert(val(seq![]) == 0); assert(p10(0) == 1); }
        else { let t = s.drop_last(); lemma_first(t); assert(t.skip(1) =~= s.skip(1).drop_last()); assert(s.skip(1).last() == s.last());
            let p = p10((s.len() - 2) as nat); assert(p10((s.len() - 1) as nat) == 10 * p); assert((d * p) * 10 == d * (10 * p)) by (nonlinear_arith); } }
    /// digits of the same length compare like numbers
    pub proof fn lemma_same_len(a: Seq<char>, b: Seq<char>)
        requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> digit(#[trigger] a[i]) && digit(b[i])
        ensures seq_cmp(a, b) == int_cmp(val(a) as int, val(b) as int)
        decreases a.len()
    {   if a.len() > 0 {
            let x = a.skip(1); let y = b.skip(1); lemma_first(a); lemma_first(b);
            assert forall|i: int| 0 <= i < x.len() implies digit(#[trigger] x[i]) && digit(y[i]) by { assert(x[i] == a[i + 1]); assert(y[i] == b[i + 1]); assert(digit(a[i + 1])); }
            assert forall|i: int| 0 <= i < y.len() implies digit(#[trigger] y[i]) by { assert(digit(x[i])); }
            assert(digit(a[0])); lemma_same_len(x, y); lemma_bounds(x); lemma_bounds(y);
            let p = p10(x.len()); let d = (a[0] as nat - '0' as nat) as nat; let e = (b[0] as nat - '0' as nat) as nat;
            if d < e { assert(d * p + p <= e * p) by (nonlinear_arith) requires d < e, p > 0; }
            if e < d { assert(e * p + p <= d * p) by (nonlinear_arith) requires e < d, p > 0; } } }
    pub proof fn lemma_rep1(x: (char, usize, Str), t: Tok, y: (char, usize, Str), u: Tok)
        requires rep1(x, t), rep1(y, u)
        ensures x.vcmp(&y) == tok_cmp(t, u)
    {   let a = x.2.view(); let b = y.2.view(); lemma_bounds(a); lemma_bounds(b);
        if a.len() < b.len() { lemma_p10(a.len(), (b.len() - 1) as nat); } else if b.len() < a.len() { lemma_p10(b.len(), (a.len() - 1) as nat); }
        else { assert forall|i: int| 0 <= i < a.len() implies digit(#[trigger] a[i]) && digit(b[i]) by {} lemma_same_len(a, b); } }
    pub proof fn lemma_rep(x: Seq<(char, usize, Str)>, t: Seq<Tok>, y: Seq<(char, usize, Str)>, u: Seq<Tok>)
        requires rep(x, t), rep(y, u)
        ensures seq_cmp(x, y) == toks_cmp(t, u)
        decreases x.len()
    {   if x.len() > 0 && y.len() > 0 { lemma_rep1(x[0], t[0], y[0], u[0]);
            assert forall|i: int| 0 <= i < x.skip(1).len() implies rep1(#[trigger] x.skip(1)[i], t.skip(1)[i]) by { assert(rep1(x[i + 1], t[i + 1])); }
            assert forall|i: int| 0 <= i < y.skip(1).len() implies rep1(#[trigger] y.skip(1)[i], u.skip(1)[i]) by { assert(rep1(y[i + 1], u[i + 1])); }
            lemma_rep(x.skip(1), t.skip(1), y.skip(1), u.skip(1)); } }
    // ---- it is an order
    pub proof fn lemma_toks_order(a: Seq<Tok>, b: Seq<Tok>, c: Seq<Tok>)
        ensures toks_cmp(b, a) == flip(toks_cmp(a, b)), toks_cmp(a, b) is Equal ==> a == b, !(toks_cmp(a, b) is Greater) && !(toks_cmp(b, c) is Greater) ==> !(toks_cmp(a, c) is Greater), a == b ==> toks_cmp(a, b) is Equal
        decreases a.len() + b.len() + c.len()
    {   if a.len() > 0 && b.len() > 0 { lemma_toks_order(a.skip(1), b.skip(1), if c.len() > 0 { c.skip(1) } else { c }); if toks_cmp(a, b) is Equal { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
        else if toks_cmp(a, b) is Equal { assert(a =~= b); } }
    pub proof fn lemma_text_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
        ensures seq_cmp(b, a) == flip(seq_cmp(a, b)), seq_cmp(a, b) is Equal ==> a == b, !(seq_cmp(a, b) is Greater) && !(seq_cmp(b, c) is Greater) ==> !(seq_cmp(a, c) is Greater), a == b ==> seq_cmp(a, b) is Equal
        decreases a.len() + b.len() + c.len()
    {   if a.len() > 0 && b.len() > 0 { lemma_text_order(a.skip(1), b.skip(1), if c.len() > 0 { c.skip(1) } else { c }); if seq_cmp(a, b) is Equal { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
        else if seq_cmp(a, b) is Equal { assert(a =~= b); } }
    /// natural order is a total order of texts
    pub proof fn lemma_C13_order(a: Seq<char>, b: Seq<char>, c: Seq<char>)
        ensures nat_cmp(b, a) == flip(nat_cmp(a, b)), nat_cmp(a, b) is Equal <==> a == b, !(nat_cmp(a, b) is Greater) && !(nat_cmp(b, c) is Greater) ==> !(nat_cmp(a, c) is Greater)
    {   lemma_toks_order(toks(a), toks(b), toks(c)); lemma_toks_order(toks(b), toks(c), toks(a)); lemma_toks_order(toks(a), toks(c), toks(b)); lemma_text_order(a, b, c); lemma_text_order(b, c, a); }
    // ---- which tags are picked
    pub open spec fn dec_of(x: Seq<char>) -> Option<Seq<char>> { if parse_u64(x) is Some && parse_u64(x)->0 > 0 { Some(((parse_u64(x)->0 - 1) as u64).disp()) } else { None } }
    /// what tags have to start with that are picked for this position
    pub open spec fn want(cur: Seq<Seq<char>>, pos: int) -> Option<Seq<Seq<char>>> { if dec_of(cur[pos]) is Some { Some(cur.take(pos).push(dec_of(cur[pos])->0)) } else { None } }
    pub open spec fn fits(t: Seq<char>, q: Seq<Seq<char>>) -> bool { parts(t).len() >= q.len() && parts(t).take(q.len() as int) == q }
    pub open spec fn best(tags: Seq<Str>, q: Seq<Seq<char>>, t: Str) -> bool { tags.contains(t) && fits(t.view(), q) && forall|u: Str| #[trigger] tags.contains(u) && fits(u.view(), q) ==> !(nat_cmp(u.view(), t.view()) is Greater) }
    pub open spec fn pick(tags: Seq<Str>, cur: Seq<Seq<char>>, pos: int, r: Option<Str>) -> bool {
        match r { Some(t) => want(cur, pos) is Some && best(tags, want(cur, pos)->0, t), None => want(cur, pos) is Some ==> forall|u: Str| #[trigger] tags.contains(u) ==> !fits(u.view(), want(cur, pos)->0) } }
    pub open spec fn same_start(v: Seq<Str>, p: Seq<Str>, n: int) -> bool { v.len() >= n && forall|i: int| 0 <= i < n ==> #[trigger] v[i] == p[i] }
    pub open spec fn ordered(s: Seq<Str>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> !(nat_cmp(s[i].view(), s[j].view()) is Greater) }
    pub open spec fn split_tags(s: Seq<Str>, p: Seq<Vec<Str>>) -> bool { s.len() == p.len() && forall|i: int| 0 <= i < s.len() ==> texts((#[trigger] p[i])@) == parts(s[i].view()) }
    /// which tags match
    pub open spec fn flags(p: Seq<Vec<Str>>, prev: Seq<Str>, n: int, en: Seq<(usize, &Vec<Str>)>, k: Seq<bool>) -> bool {
        en.len() == p.len() && k.len() == p.len() && forall|i: int| #![trigger en[i]] #![trigger k[i]] 0 <= i < p.len() ==> en[i].0 == i && *en[i].1 == p[i] && k[i] == same_start(p[i]@, prev, n) }
    pub proof fn lemma_pick(tags: Seq<Str>, s: Seq<Str>, p: Seq<Vec<Str>>, cur: Seq<Str>, pos: int, x: Str, en: Seq<(usize, &Vec<Str>)>, k: Seq<bool>)
        requires ordered(s), split_tags(s, p), forall|u: Str| #![trigger tags.contains(u)] #![trigger s.contains(u)] tags.contains(u) <==> s.contains(u), 0 <= pos < cur.len(),
            dec_of(texts(cur)[pos]) is Some && dec_of(texts(cur)[pos])->0 == x.view(), flags(p, cur.update(pos, x), pos + 1, en, k)
        ensures pick(tags, texts(cur), pos, if picked(en, k).len() == 0 { None } else { Some(s[picked(en, k).last().0 as int]) })
    {   let prev = cur.update(pos, x); let c = texts(cur); let q = want(c, pos)->0; let n = pos + 1; assert(q == c.take(pos).push(x.view())); lemma_picked_last(en, k);
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] k[i] == fits(s[i].view(), q) by {
            let v = p[i]@; assert(texts(v) == parts(s[i].view())); assert(texts(v).len() == v.len());
            if k[i] { assert forall|j: int| 0 <= j < n implies #[trigger] texts(v).take(n)[j] == q[j] by { assert(v[j] == prev[j]); assert(texts(v)[j] == v[j].view()); assert(c[j] == cur[j].view()); } assert(texts(v).take(n) =~= q); }
            if fits(s[i].view(), q) { assert forall|j: int| 0 <= j < n implies #[trigger] v[j] == prev[j] by { assert(texts(v).take(n)[j] == q[j]); assert(texts(v)[j] == v[j].view()); assert(c[j] == cur[j].view()); assert(v[j].view() == prev[j].view()); } } }
        if picked(en, k).len() == 0 {
            assert forall|u: Str| #[trigger] tags.contains(u) implies !fits(u.view(), q) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == u; assert(!k[i]); }
        } else {
            let i = choose|i: int| 0 <= i < k.len() && #[trigger] k[i] && picked(en, k).last() == en[i] && forall|j: int| i < j < k.len() ==> !#[trigger] k[j];
            assert(s.contains(s[i]));
            assert forall|u: Str| #[trigger] tags.contains(u) && fits(u.view(), q) implies !(nat_cmp(u.view(), s[i].view()) is Greater) by {
                let j = choose|j: int| 0 <= j < s.len() && s[j] == u; assert(k[j]); if i == j { lemma_C13_order(u.view(), u.view(), u.view()); } }
            assert(best(tags, q, s[i])); } }
    /// the picked tags, the last position first
    pub open spec fn picks(tags: Seq<Str>, cur: Seq<Seq<char>>, r: Seq<Str>) -> bool {
        exists|k: Seq<Option<Str>>| k.len() == cur.len() && r == #[trigger] opts(k) && forall|i: int| 0 <= i < k.len() ==> pick(tags, cur, cur.len() - 1 - i, #[trigger] k[i]) }

fn git::get_tags(repo)
  ensures: r is Ok ==> tag_texts(r->Ok_0@) == tag_names(repo)
  proof: assert forall|k: Seq<Option<crate::git2::Reference>>| read_as(k, repo.refs()) implies datas(#[trigger] opts(k)) == opts(repo.refs()) by { lemma_read(k, repo.refs()); }
    assert forall|s: Seq<crate::git2::Reference>, k: Seq<bool>| flagged(s, k) implies datas(#[trigger] picked(s, k)) == sel(datas(s), is_tag()) by { lemma_flagged(s, k); }
    assert forall|s: Seq<Tag>, d: Seq<crate::git2::RefData>| s.len() == d.len() && (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name.view() == d[i].name()) implies #[trigger] tag_texts(s) == #[trigger] names(d) by { assert(tag_texts(s) =~= names(d)); }
  closure 2 returns: Result<Tag>
  closure 2 ensures: r is Ok ==> r->Ok_0.name.view() == reference.data().name()
  closure 3 returns: Str
  closure 3 ensures: r.view() == lossy(reference.data().bytes)

fn git::tag_to_slice(tag)
  ensures: texts(r@) == parts(tag.view())

fn git::natural_key(tag)
  ensures: rep(r@, toks(tag.view()))
  loop 0 invariant: it0_all == tag.view(), rep(key@, scan(tag.view().take(it0_n)).0), number is Some <==> scan(tag.view().take(it0_n)).1 is Some, number is Some ==> canonical(number->0.view()) && val(number->0.view()) == scan(tag.view().take(it0_n)).1->0
  loop 0 proof: assert(tag.view().take(it0_n).drop_last() =~= tag.view().take(it0_n - 1));
    assert forall|d: Seq<char>| #![trigger d.push(c)] canonical(d) && digit(c) && (c != '0' || d.len() > 0) implies canonical(d.push(c)) && val(d.push(c)) == val(d) * 10 + (c as nat - '0' as nat) as nat by { assert(d.push(c).drop_last() =~= d); }
    assert(val(Seq::<char>::empty()) == 0);

fn git::natural_cmp(a, b)
  ensures: r == nat_cmp(a.view(), b.view())
  proof: assert forall|x: Seq<(char, usize, Str)>, y: Seq<(char, usize, Str)>| rep(x, toks(a.view())) && rep(y, toks(b.view())) implies #[trigger] seq_cmp(x, y) == toks_cmp(toks(a.view()), toks(b.view())) by { lemma_rep(x, toks(a.view()), y, toks(b.view())); }
  closure 0 returns: Ordering
  closure 0 ensures: r == seq_cmp(a.view(), b.view())

fn git::find_tags_to_patch::dec(x)
  ensures: r is Some <==> dec_of(x.view()) is Some,
    r is Some ==> r->0.view() == dec_of(x.view())->0

fn git::find_tags_to_patch(current, tags)
  ensures: r is Ok,
    picks(tags@, parts(current.view()), r->Ok_0@)
  ghost: let ghost tags0 = tags@; let ghost cur0 = parts(current.view());
  proof: assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>| #![trigger nat_cmp(a, b), nat_cmp(b, c)] nat_cmp(b, a) == flip(nat_cmp(a, b)) && (!(nat_cmp(a, b) is Greater) && !(nat_cmp(b, c) is Greater) ==> !(nat_cmp(a, c) is Greater)) && (a == b ==> nat_cmp(a, b) is Equal) by { lemma_C13_order(a, b, c); }
  closure 0 returns: Ordering
  closure 0 ensures: r == nat_cmp(a.view(), b.view())
  closure 1 returns: Vec<SmolStr>
  closure 1 ensures: texts(r@) == parts(tag.view())
  closure 2 returns: Option<Str>
  closure 2 requires: pos_from_end < cur0.len()
  closure 2 ensures: pick(tags0, cur0, cur0.len() - 1 - pos_from_end, r)
  closure 3 returns: bool
  closure 2 proof: let ghost pos_ = current@.len() - 1 - pos_from_end;
    assert(ordered(tags@)); assert(split_tags(tags@, parsed_tags@)); assert(texts(current@) == cur0); assert(forall|u: Str| #![trigger tags0.contains(u)] #![trigger tags@.contains(u)] tags0.contains(u) <==> tags@.contains(u));
    assert forall|x: Str, en: Seq<(usize, &Vec<Str>)>, k: Seq<bool>| #![trigger picked(en, k), current@.update(pos_, x)]
        dec_of(texts(current@)[pos_]) is Some && dec_of(texts(current@)[pos_])->0 == x.view() && flags(parsed_tags@, current@.update(pos_, x), pos_ + 1, en, k)
        implies pick(tags0, texts(current@), pos_, if picked(en, k).len() == 0 { None } else { Some(tags@[picked(en, k).last().0 as int]) }) by { lemma_pick(tags0, tags@, parsed_tags@, current@, pos_, x, en, k); }
  closure 3 returns: bool
  closure 3 ensures: r == same_start(c0.1@, prev@, pos + 1)
