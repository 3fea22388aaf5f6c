// Trusted model of the environment, part 1: text, iterators, conversions.
// `Str` stands for `str`, `String` and `SmolStr`: a value is its sequence of characters.
pub mod base {
use vstd::prelude::*;
pub open spec fn eqs<T>(a: T, b: T) -> bool { a == b }

pub open spec fn opt_ref<T>(o: Option<T>) -> Option<&'static T> { match o { Some(x) => Some(&x), None => None } }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn unsupported<T>() -> T requires false { unimplemented!() }

// ---------------------------------------------------------------- text
#[verifier::external_body]
pub struct Str { s: std::string::String }
impl View for Str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }

/// Two texts with the same characters are the same value.
pub broadcast axiom fn axiom_str_ext(a: Str, b: Str)
    ensures #[trigger] a.view() == #[trigger] b.view() ==> a == b;
/// The text with given characters.
pub uninterp spec fn mk(s: Seq<char>) -> Str;
pub broadcast axiom fn axiom_mk(s: Seq<char>) ensures (#[trigger] mk(s)).view() == s;
pub broadcast axiom fn axiom_mk_inv(a: Str) ensures mk(#[trigger] a.view()) == a;

#[verifier::external_body]
pub fn lit(s: &'static str) -> (r: &'static Str) ensures r.view() == s.view() { unimplemented!() }
pub open spec fn slit(s: &'static str) -> &'static Str { &mk(s.view()) }

pub open spec fn at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn occurs(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| at(s, p, i) }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, 0) }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { at(s, p, s.len() - p.len()) }
/// first occurrence at or after `i`, or -1
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, i: int) -> int decreases s.len() - i + 1 {
    if i < 0 || i + p.len() > s.len() { -1 } else if at(s, p, i) { i } else { find_from(s, p, i + 1) } }
/// last occurrence at or before `i`, or -1
pub open spec fn rfind_from(s: Seq<char>, p: Seq<char>, i: int) -> int decreases i + 1 {
    if i < 0 { -1 } else if at(s, p, i) { i } else { rfind_from(s, p, i - 1) } }
/// `str::split` with a non-empty pattern
pub open spec fn split_seq(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let i = find_from(s, p, 0);
    if p.len() == 0 || i < 0 || i + p.len() > s.len() { seq![s] } else { seq![s.subrange(0, i)] + split_seq(s.subrange(i + p.len(), s.len() as int), p) } }
/// `str::split` with a predicate
pub open spec fn split_fn(s: Seq<char>, f: spec_fn(char) -> bool) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![s] } else if f(s[0]) { seq![Seq::<char>::empty()] + split_fn(s.skip(1), f) }
    else { let r = split_fn(s.skip(1), f); seq![seq![s[0]] + r[0]] + r.skip(1) } }
/// `str::splitn(2, p)`
pub open spec fn split2_seq(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> {
    let i = find_from(s, p, 0);
    if p.len() == 0 || i < 0 || i + p.len() > s.len() { seq![s] } else { seq![s.subrange(0, i), s.subrange(i + p.len(), s.len() as int)] } }
pub open spec fn trim_start(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && starts(s, p) { trim_start(s.skip(p.len() as int), p) } else { s } }
pub open spec fn trim_end(s: Seq<char>, p: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() > 0 && ends(s, p) { trim_end(s.take(s.len() - p.len()), p) } else { s } }
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn lossy(s: Seq<u8>) -> Seq<char>;
pub uninterp spec fn hex(s: Seq<u8>) -> Seq<char>;

pub trait Pat: Sized { spec fn txt(self) -> Seq<char>; }
impl Pat for char { open spec fn txt(self) -> Seq<char> { seq![self] } }
impl<'a> Pat for &'a Str { open spec fn txt(self) -> Seq<char> { self.view() } }
impl<'a, 'b> Pat for &'b &'a Str { open spec fn txt(self) -> Seq<char> { (**self).view() } }

pub trait VDisplay { spec fn disp(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(f).view() == old(f).view() + self.disp(); }
impl VDisplay for Str { open spec fn disp(&self) -> Seq<char> { self.view() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl<'a, T: VDisplay> VDisplay for &'a T { open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
pub uninterp spec fn dec_u32(n: u32) -> Seq<char>;
impl VDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec_u32(*self) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
impl VDisplay for u16 { uninterp spec fn disp(&self) -> Seq<char>;
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
pub uninterp spec fn dec_u64(n: u64) -> Seq<char>;
pub broadcast axiom fn axiom_dec_u64(n: u64) ensures (#[trigger] dec_u64(n)).len() > 0, !dec_u64(n).contains('/');
impl VDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec_u64(*self) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
/// something that is displayed as hexadecimal text
pub trait VHex { spec fn bytes(&self) -> Seq<u8>; }
impl<'a, T: VHex> VHex for &'a T { open spec fn bytes(&self) -> Seq<u8> { (**self).bytes() } }

#[verifier::external_body]
pub struct Formatter { x: u8 }
impl View for Formatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
pub struct FmtError;
impl Formatter {
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &Str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).view() == old(self).view() + s.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_disp<T: VDisplay>(&mut self, s: &T) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).view() == old(self).view() + s.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn write_any<T>(&mut self, s: &T) -> (r: Result<(), FmtError>) { unimplemented!() }
}

impl Str {
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r.view() == Seq::<char>::empty() { unimplemented!() }
    pub fn as_str(&self) -> (r: &Str) ensures r == self { self }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Str) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self).view() == old(self).view() + o.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, o: char) ensures final(self).view() == old(self).view().push(o) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_disp<T: VDisplay>(&mut self, o: &T) ensures final(self).view() == old(self).view() + o.disp() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_hex<T: VHex>(&mut self, o: &T) ensures final(self).view() == old(self).view() + hex(o.bytes()) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_any<T>(&mut self, o: &T) { unimplemented!() }
    pub open spec fn sp_contains<P: Pat>(&self, p: P) -> bool { occurs(self.view(), p.txt()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_contains)]
    pub fn contains<P: Pat>(&self, p: P) -> (r: bool) ensures r == occurs(self.view(), p.txt()) { unimplemented!() }
    pub open spec fn sp_starts_with<P: Pat>(&self, p: P) -> bool { starts(self.view(), p.txt()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_starts_with)]
    pub fn starts_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == starts(self.view(), p.txt()) { unimplemented!() }
    pub open spec fn sp_ends_with<P: Pat>(&self, p: P) -> bool { ends(self.view(), p.txt()) }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_ends_with)]
    pub fn ends_with<P: Pat>(&self, p: P) -> (r: bool) ensures r == ends(self.view(), p.txt()) { unimplemented!() }
    pub open spec fn sp_strip_suffix<P: Pat>(&self, p: P) -> Option<&Str> { if ends(self.view(), p.txt()) { Some(&mk(self.view().take(self.view().len() - p.txt().len()))) } else { None } }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_strip_suffix)]
    pub fn strip_suffix<P: Pat>(&self, p: P) -> (r: Option<&Str>) ensures r == self.sp_strip_suffix(p) { unimplemented!() }
    pub open spec fn sp_strip_prefix<P: Pat>(&self, p: P) -> Option<&Str> { if starts(self.view(), p.txt()) { Some(&mk(self.view().skip(p.txt().len() as int))) } else { None } }
    #[verifier::external_body] #[verifier::when_used_as_spec(sp_strip_prefix)]
    pub fn strip_prefix<P: Pat>(&self, p: P) -> (r: Option<&Str>) ensures r == self.sp_strip_prefix(p) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_start_matches<P: Pat>(&self, p: P) -> (r: &Str) ensures r.view() == trim_start(self.view(), p.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_end_matches<P: Pat>(&self, p: P) -> (r: &Str) ensures r.view() == trim_end(self.view(), p.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn trim_matches(&self, p: char) -> (r: &Str) ensures r.view() == trim_end(trim_start(self.view(), seq![p]), seq![p]) { unimplemented!() }
    #[verifier::external_body]
    pub fn split<P: SplitPat>(&self, p: P) -> (r: It<&Str>)
        requires p.pat_ok(),
        ensures p.split_post(self.view(), views(r.view())) { unimplemented!() }
    #[verifier::external_body]
    pub fn rsplit<P: Pat>(&self, p: P) -> (r: It<&Str>)
        requires p.txt().len() > 0,
        ensures p.txt().len() == 1 ==> ({ let k = split_seq(self.view(), p.txt()); r.view().len() == k.len() && forall|i: int| 0 <= i < k.len() ==> (#[trigger] r.view()[i]).view() == k[k.len() - 1 - i] }) { unimplemented!() }
    #[verifier::external_body]
    pub fn splitn<P: Pat>(&self, n: usize, p: P) -> (r: It<&Str>)
        requires p.txt().len() > 0,
        ensures n == 2 ==> views(r.view()) == split2_seq(self.view(), p.txt()) && r.view().len() == split2_seq(self.view(), p.txt()).len() && forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i]).view() == split2_seq(self.view(), p.txt())[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn split_once<P: Pat>(&self, p: P) -> (r: Option<(&Str, &Str)>)
        requires p.txt().len() > 0,
        ensures r is Some <==> occurs(self.view(), p.txt()),
            r is Some ==> ({ let t = r->0; seq![t.0.view(), t.1.view()] }) == split2_seq(self.view(), p.txt()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: Str) ensures r.view() == lower(self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_uppercase(&self) -> (r: Str) ensures r.view() == upper(self.view()) { unimplemented!() }
    pub fn parse<T: FromStr>(&self) -> (r: Result<T, T::Err>) ensures T::from_str_post(self, r) { T::from_str(self) }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.view().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_add_str(self, o: &Str) -> (r: Str) ensures r.view() == self.view() + o.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8_lossy<B: crate::std_::io::Bytes>(b: B) -> (r: Str) ensures r.view() == lossy(b.bytes_of()) { unimplemented!() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: It<char>) ensures r.view() == self.view() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == utf8_len(self.view()) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_boxed_str(self) -> (r: Str) ensures r == self { unimplemented!() }
}
impl Clone for Str { #[verifier::external_body] fn clone(&self) -> (r: Str) ensures r == *self { unimplemented!() } }
impl PartialEq for Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() } }
impl Eq for Str {}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { *self == *o } }

#[verifier::external] impl std::fmt::Debug for Str { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
impl<'a> PartialEq<Str> for &'a Str { #[verifier::external_body] fn eq(&self, o: &Str) -> (r: bool) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<Str> for &'a Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Str) -> bool { **self == *o } }
impl<'a> PartialEq<&'a Str> for Str { #[verifier::external_body] fn eq(&self, o: &&'a Str) -> (r: bool) { unimplemented!() } }
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<&'a Str> for Str {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &&'a Str) -> bool { *self == **o } }
pub open spec fn views(s: Seq<&Str>) -> Seq<Seq<char>> { s.map_values(|x: &Str| x.view()) }
/// patterns of `split`
pub trait SplitPat: Sized { spec fn pat_ok(self) -> bool; spec fn split_post(self, s: Seq<char>, r: Seq<Seq<char>>) -> bool; }
impl SplitPat for char {
    open spec fn pat_ok(self) -> bool { true }
    open spec fn split_post(self, s: Seq<char>, r: Seq<Seq<char>>) -> bool { r == split_seq(s, seq![self]) } }
impl<'a> SplitPat for &'a Str {
    open spec fn pat_ok(self) -> bool { self.view().len() > 0 }
    open spec fn split_post(self, s: Seq<char>, r: Seq<Seq<char>>) -> bool { r == split_seq(s, self.view()) } }
impl<F: Fn(char) -> bool> SplitPat for F {
    open spec fn pat_ok(self) -> bool { forall|c: char| call_requires(self, (c,)) }
    open spec fn split_post(self, s: Seq<char>, r: Seq<Seq<char>>) -> bool {
        forall|p: spec_fn(char) -> bool| (forall|c: char, b: bool| #[trigger] call_ensures(self, (c,), b) ==> b == p(c)) ==> r == #[trigger] split_fn(s, p) } }

pub trait FromStr: Sized { type Err;
    spec fn from_str_post(s: &Str, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &Str) -> (r: Result<Self, Self::Err>) ensures Self::from_str_post(s, r); }
pub trait TryFrom<T>: Sized { type Error;
    spec fn try_from_post(t: T, r: Result<Self, Self::Error>) -> bool;
    fn v_try_from(t: T) -> (r: Result<Self, Self::Error>) ensures Self::try_from_post(t, r); }
pub trait TryInto<T>: Sized { type Error;
    spec fn try_into_post(self, r: Result<T, Self::Error>) -> bool;
    fn v_try_into(self) -> (r: Result<T, Self::Error>) ensures self.try_into_post(r); }
impl<S, T: TryFrom<S>> TryInto<T> for S { type Error = T::Error;
    open spec fn try_into_post(self, r: Result<T, T::Error>) -> bool { T::try_from_post(self, r) }
    fn v_try_into(self) -> (r: Result<T, T::Error>) { T::v_try_from(self) } }
pub trait VToString { spec fn ts(&self) -> Seq<char>; fn v_to_string(&self) -> (r: Str) ensures r.view() == self.ts(); }
impl<T: VDisplay> VToString for T { open spec fn ts(&self) -> Seq<char> { self.disp() }
    #[verifier::external_body] fn v_to_string(&self) -> (r: Str) { unimplemented!() } }
pub trait From<T>: Sized { spec fn from_spec(t: T) -> Self; fn v_from(t: T) -> (r: Self) ensures r == Self::from_spec(t); }
impl<'a> From<&'a Str> for Str { open spec fn from_spec(t: &'a Str) -> Str { *t } #[verifier::external_body] fn v_from(t: &'a Str) -> (r: Str) { unimplemented!() } }
/// `Into`, for the conversions between text, path and error types that are used
pub trait Into<T>: Sized { spec fn into_spec(self) -> T; fn v_into(self) -> (r: T) ensures r == self.into_spec(); }
impl<S, T: From<S>> Into<T> for S { open spec fn into_spec(self) -> T { T::from_spec(self) } fn v_into(self) -> (r: T) { T::v_from(self) } }
impl From<Str> for Str { open spec fn from_spec(t: Str) -> Str { t } fn v_from(t: Str) -> (r: Str) { t } }
pub trait AsRef<T> { spec fn as_ref_spec(&self) -> &T; fn as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec(); }
impl<'a, T, U: AsRef<T>> AsRef<T> for &'a U { open spec fn as_ref_spec(&self) -> &T { (**self).as_ref_spec() } fn as_ref(&self) -> (r: &T) { (**self).as_ref() } }

/// what `clone` gives
pub trait SpClone: Sized { spec fn sp_clone(&self) -> Self; }
impl<T: Clone> SpClone for T { open spec fn sp_clone(&self) -> T { *self } }
pub trait VDefault: Sized { spec fn is_default(&self) -> bool; fn v_default() -> (r: Self) ensures r.is_default(); }
impl VDefault for bool { open spec fn is_default(&self) -> bool { !*self } fn v_default() -> (r: bool) { false } }
impl VDefault for usize { open spec fn is_default(&self) -> bool { *self == 0 } fn v_default() -> (r: usize) { 0 } }
impl VDefault for u64 { open spec fn is_default(&self) -> bool { *self == 0 } fn v_default() -> (r: u64) { 0 } }
impl VDefault for i64 { open spec fn is_default(&self) -> bool { *self == 0 } fn v_default() -> (r: i64) { 0 } }
impl<T> VDefault for Option<T> { open spec fn is_default(&self) -> bool { *self is None } fn v_default() -> (r: Option<T>) { None } }
impl<T> VDefault for Vec<T> { open spec fn is_default(&self) -> bool { self.view().len() == 0 } fn v_default() -> (r: Vec<T>) { Vec::new() } }
impl VDefault for Str { open spec fn is_default(&self) -> bool { self.view().len() == 0 } fn v_default() -> (r: Str) { Str::new() } }
pub trait VUnwrapOrDefault<T>: Sized { spec fn uod(self, r: T) -> bool; fn v_unwrap_or_default(self) -> (r: T) ensures self.uod(r); }
impl<T: VDefault> VUnwrapOrDefault<T> for Option<T> { open spec fn uod(self, r: T) -> bool { match self { Some(x) => r == x, None => r.is_default() } }
    fn v_unwrap_or_default(self) -> (r: T) { match self { Some(x) => x, None => T::v_default() } } }
impl<T: VDefault, E> VUnwrapOrDefault<T> for Result<T, E> { open spec fn uod(self, r: T) -> bool { match self { Ok(x) => r == x, Err(_) => r.is_default() } }
    fn v_unwrap_or_default(self) -> (r: T) { match self { Ok(x) => x, Err(_) => T::v_default() } } }
/// `a[i]`
pub trait VIndex<I> { type Out; spec fn vi_ok(&self, i: I) -> bool; spec fn vi(&self, i: I) -> Self::Out;
    fn v_index(&self, i: I) -> (r: &Self::Out) requires self.vi_ok(i), ensures *r == self.vi(i); }
impl<T> VIndex<usize> for Vec<T> { type Out = T;
    open spec fn vi_ok(&self, i: usize) -> bool { i < self.view().len() } open spec fn vi(&self, i: usize) -> T { self.view()[i as int] }
    #[verifier::external_body] fn v_index(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<T> VIndex<usize> for [T] { type Out = T;
    open spec fn vi_ok(&self, i: usize) -> bool { i < self.view().len() } open spec fn vi(&self, i: usize) -> T { self.view()[i as int] }
    #[verifier::external_body] fn v_index(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<'a, I, C: VIndex<I> + ?Sized> VIndex<I> for &'a C { type Out = C::Out;
    open spec fn vi_ok(&self, i: I) -> bool { (**self).vi_ok(i) } open spec fn vi(&self, i: I) -> C::Out { (**self).vi(i) }
    #[verifier::external_body] fn v_index(&self, i: I) -> (r: &C::Out) { unimplemented!() } }
/// conversions that touch the environment
pub trait TryFromW<T>: Sized { type Error;
    spec fn try_from_post(t: T, w: World, r: Result<Self, Self::Error>) -> bool;
    fn v_try_from(t: T, w: &World) -> (r: Result<Self, Self::Error>) ensures Self::try_from_post(t, *w, r); }
pub trait FromStrW: Sized { type Err;
    spec fn from_str_post(s: &Str, w: World, r: Result<Self, Self::Err>) -> bool;
    fn from_str(s: &Str, w: &World) -> (r: Result<Self, Self::Err>) ensures Self::from_str_post(s, *w, r); }
/// the number that a text is
pub uninterp spec fn parse_u32(s: Seq<char>) -> Option<u32>;
pub uninterp spec fn parse_i32(s: Seq<char>) -> Option<i32>;
pub struct ParseIntError;
impl FromStr for u32 { type Err = ParseIntError;
    open spec fn from_str_post(s: &Str, r: Result<u32, ParseIntError>) -> bool { (r is Ok <==> parse_u32(s.view()) is Some) && (r is Ok ==> Some(r->Ok_0) == parse_u32(s.view())) }
    #[verifier::external_body] fn from_str(s: &Str) -> (r: Result<u32, ParseIntError>) { unimplemented!() } }
pub uninterp spec fn parse_u64(s: Seq<char>) -> Option<u64>;
impl FromStr for u64 { type Err = ParseIntError;
    open spec fn from_str_post(s: &Str, r: Result<u64, ParseIntError>) -> bool { (r is Ok <==> parse_u64(s.view()) is Some) && (r is Ok ==> Some(r->Ok_0) == parse_u64(s.view())) }
    #[verifier::external_body] fn from_str(s: &Str) -> (r: Result<u64, ParseIntError>) { unimplemented!() } }
impl FromStr for i32 { type Err = ParseIntError;
    open spec fn from_str_post(s: &Str, r: Result<i32, ParseIntError>) -> bool { (r is Ok <==> parse_i32(s.view()) is Some) && (r is Ok ==> Some(r->Ok_0) == parse_i32(s.view())) }
    #[verifier::external_body] fn from_str(s: &Str) -> (r: Result<i32, ParseIntError>) { unimplemented!() } }
impl VDisplay for ParseIntError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) { unimplemented!() } }
// ---------------------------------------------------------------- orders
pub use std::cmp::Ordering;
pub open spec fn int_cmp(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
pub open spec fn then(a: Ordering, b: Ordering) -> Ordering { if a is Equal { b } else { a } }
pub open spec fn flip(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Greater => Ordering::Less, Ordering::Equal => Ordering::Equal } }
pub open spec fn seq_cmp<T: VOrd>(a: Seq<T>, b: Seq<T>) -> Ordering decreases a.len() {
    if a.len() == 0 || b.len() == 0 { int_cmp(a.len() as int, b.len() as int) } else { then(a[0].vcmp(&b[0]), seq_cmp(a.skip(1), b.skip(1))) } }
/// `Ord`
pub trait VOrd: Sized { spec fn vcmp(&self, o: &Self) -> Ordering; fn v_cmp(&self, o: &Self) -> (r: Ordering) ensures r == self.vcmp(o); }
impl VOrd for char { open spec fn vcmp(&self, o: &char) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn v_cmp(&self, o: &char) -> (r: Ordering) { unimplemented!() } }
impl VOrd for usize { open spec fn vcmp(&self, o: &usize) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn v_cmp(&self, o: &usize) -> (r: Ordering) { unimplemented!() } }
impl VOrd for u64 { open spec fn vcmp(&self, o: &u64) -> Ordering { int_cmp(*self as int, *o as int) } #[verifier::external_body] fn v_cmp(&self, o: &u64) -> (r: Ordering) { unimplemented!() } }
/// the order of texts is that of their bytes, which is that of their characters
impl VOrd for Str { open spec fn vcmp(&self, o: &Str) -> Ordering { seq_cmp(self.view(), o.view()) } #[verifier::external_body] fn v_cmp(&self, o: &Str) -> (r: Ordering) { unimplemented!() } }
impl<T: VOrd> VOrd for Vec<T> { open spec fn vcmp(&self, o: &Vec<T>) -> Ordering { seq_cmp(self.view(), o.view()) } #[verifier::external_body] fn v_cmp(&self, o: &Vec<T>) -> (r: Ordering) { unimplemented!() } }
impl<A: VOrd, B: VOrd> VOrd for (A, B) { open spec fn vcmp(&self, o: &(A, B)) -> Ordering { then(self.0.vcmp(&o.0), self.1.vcmp(&o.1)) } #[verifier::external_body] fn v_cmp(&self, o: &(A, B)) -> (r: Ordering) { unimplemented!() } }
impl<A: VOrd, B: VOrd, C: VOrd> VOrd for (A, B, C) { open spec fn vcmp(&self, o: &(A, B, C)) -> Ordering { then(self.0.vcmp(&o.0), then(self.1.vcmp(&o.1), self.2.vcmp(&o.2))) } #[verifier::external_body] fn v_cmp(&self, o: &(A, B, C)) -> (r: Ordering) { unimplemented!() } }
impl<'a, T: VOrd> VOrd for &'a T { open spec fn vcmp(&self, o: &&'a T) -> Ordering { (**self).vcmp(*o) } #[verifier::external_body] fn v_cmp(&self, o: &&'a T) -> (r: Ordering) { unimplemented!() } }
impl VOrd for crate::std_::path::Path { open spec fn vcmp(&self, o: &Self) -> Ordering { crate::std_::path::pcmp(self.view(), o.view()) } #[verifier::external_body] fn v_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub assume_specification [std::cmp::Ordering::then] (a: Ordering, b: Ordering) -> (r: Ordering) ensures r == then(a, b);
pub assume_specification<F> [std::cmp::Ordering::then_with] (a: Ordering, f: F) -> (r: Ordering)
    where F: std::ops::FnOnce() -> Ordering + std::marker::Destruct
    requires a is Equal ==> call_requires(f, ()),
    ensures a is Equal ==> call_ensures(f, (), r), !(a is Equal) ==> r == a;
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == digit(*c);
/// length in bytes
pub uninterp spec fn utf8_len(s: Seq<char>) -> usize;
pub broadcast axiom fn axiom_utf8_len(s: Seq<char>) ensures (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < 128 as char) ==> #[trigger] utf8_len(s) == s.len();
// ---------------------------------------------------------------- combinators missing from vstd
pub assume_specification<T, F> [std::option::Option::<T>::or_else] (a: Option<T>, f: F) -> (r: Option<T>)
    where F: std::ops::FnOnce() -> Option<T> + std::marker::Destruct, T: std::marker::Destruct
    requires a is None ==> call_requires(f, ()),
    ensures a is Some ==> r == a, a is None ==> call_ensures(f, (), r);
pub assume_specification<T, U, F> [std::option::Option::<T>::map_or] (a: Option<T>, d: U, f: F) -> (r: U)
    where F: std::ops::FnOnce(T,) -> U + std::marker::Destruct, U: std::marker::Destruct
    requires a is Some ==> call_requires(f, (a->0,)),
    ensures a is None ==> r == d, a is Some ==> call_ensures(f, (a->0,), r);
pub assume_specification<T, P> [std::option::Option::<T>::filter] (a: Option<T>, f: P) -> (r: Option<T>)
    where P: std::ops::FnOnce(&T,) -> bool + std::marker::Destruct, T: std::marker::Destruct
    requires a is Some ==> call_requires(f, (&a->0,)),
    ensures a is None ==> r is None, r is Some ==> r == a && call_ensures(f, (&a->0,), true), a is Some && r is None ==> call_ensures(f, (&a->0,), false);
pub assume_specification<T> [std::option::Option::<T>::or] (a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct ensures r == (if a is Some { a } else { b });
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct ensures r == (if a is Ok { a->Ok_0 } else { d });
pub assume_specification<T, E, U, F> [std::result::Result::<T, E>::and_then] (a: Result<T, E>, f: F) -> (r: Result<U, E>)
    where F: std::ops::FnOnce(T,) -> Result<U, E> + std::marker::Destruct
    requires a is Ok ==> call_requires(f, (a->Ok_0,)),
    ensures a is Err ==> r is Err && r->Err_0 == a->Err_0, a is Ok ==> call_ensures(f, (a->Ok_0,), r);
pub assume_specification<T, A> [<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref] (a: &std::sync::Arc<T, A>) -> (r: &T)
    where A: std::alloc::Allocator, T: std::marker::MetaSized + ?Sized ensures r == &**a;

// ---------------------------------------------------------------- iterators
/// Stands for every iterator: the items still to come. Adaptors are evaluated at once; their closures
/// have no effects, so only the order of evaluation differs.
#[verifier::reject_recursive_types(T)]
pub struct It<T> { pub v: Vec<T>, pub n: usize }
impl<T> View for It<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v.view().skip(self.n as int) } }

pub open spec fn opts<U>(s: Seq<Option<U>>) -> Seq<U> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.last() is Some { opts(s.drop_last()).push(s.last()->0) } else { opts(s.drop_last()) } }
/// says that a term is of interest: always true
pub open spec fn hint<T>(t: T) -> bool { true }
pub open spec fn drefs<T>(s: Seq<&T>) -> Seq<T> { s.map_values(|x: &T| *x) }
pub broadcast proof fn lemma_drefs<T>(s: Seq<&T>, x: T)
    ensures #[trigger] drefs(s).contains(x) <==> s.contains(&x)
{ if s.contains(&x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == &x; assert(drefs(s)[i] == x); }
  if drefs(s).contains(x) { let i = choose|i: int| 0 <= i < s.len() && drefs(s)[i] == x; assert(s[i] == &x); } }
/// `a` are the items of `b` with a property
pub open spec fn kept<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool) -> bool { forall|x: T| #![trigger a.contains(x)] #![trigger b.contains(x)] a.contains(x) <==> b.contains(x) && p(x) }
/// the items with a property, in their order
pub open spec fn sel<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { s } else if p(s.last()) { sel(s.drop_last(), p).push(s.last()) } else { sel(s.drop_last(), p) } }
pub broadcast proof fn lemma_sel<T>(s: Seq<T>, p: spec_fn(T) -> bool, x: T)
    ensures #[trigger] sel(s, p).contains(x) <==> s.contains(x) && p(x)
    decreases s.len()
{   if s.len() > 0 { let t = s.drop_last(); lemma_sel(t, p, x);
        if sel(s, p).contains(x) { let i = choose|i: int| 0 <= i < sel(s, p).len() && sel(s, p)[i] == x; if i < sel(t, p).len() { assert(sel(t, p)[i] == x); assert(sel(t, p).contains(x)); let j = choose|j: int| 0 <= j < t.len() && t[j] == x; assert(s[j] == x); } else { assert(s[s.len() - 1] == x); } }
        if s.contains(x) && p(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < t.len() { assert(t[i] == x); assert(t.contains(x)); let j = choose|j: int| 0 <= j < sel(t, p).len() && sel(t, p)[j] == x; assert(sel(s, p)[j] == x); } else { assert(sel(s, p)[sel(s, p).len() - 1] == x); } } } }
pub proof fn lemma_kept<T>(a: Seq<T>, b: Seq<T>, p: spec_fn(T) -> bool)
    requires kept(a, b, p)
    ensures forall|x: T| #![trigger a.contains(x)] #![trigger sel(b, p).contains(x)] a.contains(x) <==> sel(b, p).contains(x)
{ broadcast use lemma_sel; }
/// the items of `s` whose flag is set
pub open spec fn picked<T>(s: Seq<T>, k: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || k.len() != s.len() { seq![] } else if k.last() { picked(s.drop_last(), k.drop_last()).push(s.last()) } else { picked(s.drop_last(), k.drop_last()) } }

/// what is in the filtered sequence
pub broadcast proof fn lemma_picked<T>(s: Seq<T>, k: Seq<bool>, x: T)
    requires s.len() == k.len()
    ensures #[trigger] picked(s, k).contains(x) <==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && k[i]
    decreases s.len()
{   if s.len() > 0 {
        let s1 = s.drop_last(); let k1 = k.drop_last(); lemma_picked(s1, k1, x); let p1 = picked(s1, k1); let p = picked(s, k);
        if p.contains(x) { let j = choose|j: int| 0 <= j < p.len() && p[j] == x;
            if j < p1.len() { assert(p1[j] == x); assert(p1.contains(x)); let i = choose|i: int| 0 <= i < s1.len() && #[trigger] s1[i] == x && k1[i]; assert(s[i] == x && k[i]); }
            else { assert(s[s.len() - 1] == x && k[s.len() - 1]); } }
        if exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && k[i] { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x && k[i];
            if i < s1.len() { assert(s1[i] == x && k1[i]); assert(p1.contains(x)); let j = choose|j: int| 0 <= j < p1.len() && p1[j] == x; assert(p[j] == x); }
            else { assert(p[p.len() - 1] == x); } } } }

/// the last item of the filtered sequence
pub proof fn lemma_picked_last<T>(s: Seq<T>, k: Seq<bool>)
    requires s.len() == k.len()
    ensures picked(s, k).len() == 0 ==> forall|i: int| 0 <= i < k.len() ==> !#[trigger] k[i],
        picked(s, k).len() > 0 ==> exists|i: int| 0 <= i < k.len() && #[trigger] k[i] && picked(s, k).last() == s[i] && forall|j: int| i < j < k.len() ==> !#[trigger] k[j]
    decreases s.len()
{   if s.len() > 0 { let s1 = s.drop_last(); let k1 = k.drop_last(); lemma_picked_last(s1, k1); let n = k.len() - 1;
        if k.last() { assert(k[n]); assert(picked(s, k).last() == s[n]); }
        else if picked(s1, k1).len() == 0 { assert forall|i: int| 0 <= i < k.len() implies !#[trigger] k[i] by { if i < n { assert(!k1[i]); } } }
        else { let i = choose|i: int| 0 <= i < k1.len() && #[trigger] k1[i] && picked(s1, k1).last() == s1[i] && forall|j: int| i < j < k1.len() ==> !#[trigger] k1[j];
            assert(k[i]); assert forall|j: int| i < j < k.len() implies !#[trigger] k[j] by { if j < n { assert(!k1[j]); } } } } }
impl<T> It<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures old(self).view().len() == 0 ==> r is None && final(self).view() == old(self).view(),
            old(self).view().len() > 0 ==> r == Some(old(self).view()[0]) && final(self).view() == old(self).view().skip(1) { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.view().len() ==> call_requires(f, (#[trigger] self.view()[i],)),
        ensures r.view().len() == self.view().len(), forall|i: int| #![trigger r.view()[i]] #![trigger self.view()[i]] 0 <= i < r.view().len() ==> call_ensures(f, (self.view()[i],), r.view()[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.view().len() ==> call_requires(f, (#[trigger] &self.view()[i],)),
        ensures exists|k: Seq<bool>| k.len() == self.view().len() && r.view() == #[trigger] picked(self.view(), k)
            && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (&self.view()[i],), #[trigger] k[i]),
            forall|x: T| #[trigger] r.view().contains(x) ==> self.view().contains(x) && call_ensures(f, (&x,), true),
            forall|x: T| #[trigger] self.view().contains(x) ==> r.view().contains(x) || call_ensures(f, (&x,), false),
            forall|i: int| 0 <= i < r.view().len() ==> self.view().contains(#[trigger] r.view()[i]) && call_ensures(f, (&r.view()[i],), true),
            forall|i: int| 0 <= i < self.view().len() ==> r.view().contains(#[trigger] self.view()[i]) || call_ensures(f, (&self.view()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn filter_map<U, F: Fn(T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < self.view().len() ==> call_requires(f, (#[trigger] self.view()[i],)),
        ensures exists|k: Seq<Option<U>>| k.len() == self.view().len() && r.view() == #[trigger] opts(k)
            && forall|i: int| 0 <= i < k.len() ==> call_ensures(f, (self.view()[i],), #[trigger] k[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn skip_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.view().len() ==> call_requires(f, (#[trigger] &self.view()[i],)),
        ensures exists|n: int| 0 <= n <= self.view().len() && r.view() == #[trigger] self.view().skip(n)
            && (forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] self.view()[i],), true))
            && (n < self.view().len() ==> call_ensures(f, (&self.view()[n],), false)) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_while<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires forall|i: int| 0 <= i < self.view().len() ==> call_requires(f, (#[trigger] &self.view()[i],)),
        ensures exists|n: int| 0 <= n <= self.view().len() && r.view() == #[trigger] self.view().take(n)
            && (forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] self.view()[i],), true))
            && (n < self.view().len() ==> call_ensures(f, (&self.view()[n],), false)) { unimplemented!() }
    #[verifier::external_body]
    pub fn find<F: Fn(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|i: int| 0 <= i < old(self).view().len() ==> call_requires(f, (#[trigger] &old(self).view()[i],)),
        ensures r is Some ==> exists|n: int| 0 <= n < old(self).view().len() && r == Some(#[trigger] old(self).view()[n]) && call_ensures(f, (&old(self).view()[n],), true)
                && forall|i: int| 0 <= i < n ==> call_ensures(f, (&#[trigger] old(self).view()[i],), false),
            r is None ==> forall|i: int| 0 <= i < old(self).view().len() ==> call_ensures(f, (&#[trigger] old(self).view()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).view().len() ==> call_requires(f, (#[trigger] old(self).view()[i],)),
        ensures r ==> exists|i: int| 0 <= i < old(self).view().len() && call_ensures(f, (#[trigger] old(self).view()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).view().len() ==> call_ensures(f, (#[trigger] old(self).view()[i],), false) { unimplemented!() }
    #[verifier::external_body]
    pub fn all<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).view().len() ==> call_requires(f, (#[trigger] old(self).view()[i],)),
        ensures !r ==> exists|i: int| 0 <= i < old(self).view().len() && call_ensures(f, (#[trigger] old(self).view()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).view().len() ==> call_ensures(f, (#[trigger] old(self).view()[i],), true) { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures r.view().len() == self.view().len(), forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i]).0 == i && r.view()[i].1 == self.view()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U, I: IntoIt<U>>(self, o: I) -> (r: It<(T, U)>)
        ensures r.view().len() == (if self.view().len() <= o.items().len() { self.view().len() } else { o.items().len() }),
            forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i]).0 == self.view()[i] && r.view()[i].1 == o.items()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn chain<I: IntoIt<T>>(self, o: I) -> (r: It<T>) ensures r.view() == self.view() + o.items(), forall|i: int| 0 <= i < self.view().len() ==> #[trigger] self.view()[i] == r.view()[i], forall|i: int| 0 <= i < o.items().len() ==> #[trigger] o.items()[i] == r.view()[self.view().len() + i] { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: It<T>) ensures r.view() == self.view().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: It<T>) ensures r.view() == self.view().skip(if n <= self.view().len() { n as int } else { self.view().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: It<T>) ensures r.view() == self.view().take(if n <= self.view().len() { n as int } else { self.view().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures n < old(self).view().len() ==> r == Some(old(self).view()[n as int]), n >= old(self).view().len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures self.view().len() > 0 ==> r == Some(self.view().last()), self.view().len() == 0 ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.view().len() { unimplemented!() }
    pub fn v_into_iter(self) -> (r: It<T>) ensures r == self { self }
    pub fn v_iter(self) -> (r: It<T>) ensures r == self { self }
    pub fn collect<C: FromIt<T>>(self) -> (r: C) ensures C::collected(self.view(), r) { C::from_it(self) }
}
impl<'a, T> It<&'a T> {
    #[verifier::external_body]
    pub fn cloned(self) -> (r: It<T>) ensures r.view().len() == self.view().len(), forall|i: int| 0 <= i < r.view().len() ==> #[trigger] r.view()[i] == *self.view()[i],
        forall|x: T| #![trigger r.view().contains(x)] #![trigger self.view().contains(&x)] r.view().contains(x) <==> self.view().contains(&x) { unimplemented!() }
}
pub trait FromIt<T>: Sized { spec fn collected(s: Seq<T>, r: Self) -> bool; fn from_it(i: It<T>) -> (r: Self) ensures Self::collected(i.view(), r); }
impl<T> FromIt<T> for Vec<T> {
    open spec fn collected(s: Seq<T>, r: Vec<T>) -> bool { r.view() == s }
    #[verifier::external_body] fn from_it(i: It<T>) -> (r: Vec<T>) { unimplemented!() } }
impl<T, E> FromIt<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn collected(s: Seq<Result<T, E>>, r: Result<Vec<T>, E>) -> bool {
        &&& r is Ok ==> r->Ok_0.view().len() == s.len() && forall|i: int| #![trigger s[i]] #![trigger r->Ok_0.view()[i]] 0 <= i < s.len() ==> s[i] == Ok::<T, E>(r->Ok_0.view()[i])
        &&& r is Err ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] is Err }
    #[verifier::external_body] fn from_it(i: It<Result<T, E>>) -> (r: Result<Vec<T>, E>) { unimplemented!() } }

pub trait IntoIt<T>: Sized { spec fn items(self) -> Seq<T>; fn into_it(self) -> (r: It<T>) ensures r.view() == self.items();
    fn v_into_iter(self) -> (r: It<T>) ensures r.view() == self.items(); }
impl<T> IntoIt<T> for It<T> { open spec fn items(self) -> Seq<T> { self.view() } fn into_it(self) -> (r: It<T>) { self } fn v_into_iter(self) -> (r: It<T>) { self } }
impl<T> IntoIt<T> for Vec<T> { open spec fn items(self) -> Seq<T> { self.view() }
    #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl<'a, T> IntoIt<&'a T> for &'a Vec<T> { open spec fn items(self) -> Seq<&'a T> { Seq::new(self.view().len(), |i: int| &self.view()[i]) }
    #[verifier::external_body] fn into_it(self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<'a, T> IntoIt<&'a T> for &'a [T] { open spec fn items(self) -> Seq<&'a T> { Seq::new(self.view().len(), |i: int| &self.view()[i]) }
    #[verifier::external_body] fn into_it(self) -> (r: It<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<&'a T>) { unimplemented!() } }
impl<T, E> IntoIt<T> for Result<T, E> { open spec fn items(self) -> Seq<T> { if self is Ok { seq![self->Ok_0] } else { seq![] } }
    #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl<T> IntoIt<T> for Option<T> { open spec fn items(self) -> Seq<T> { if self is Some { seq![self->0] } else { seq![] } }
    #[verifier::external_body] fn into_it(self) -> (r: It<T>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<T>) { unimplemented!() } }
impl IntoIt<usize> for std::ops::Range<usize> { open spec fn items(self) -> Seq<usize> { Seq::new(if self.end >= self.start { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as usize) }
    #[verifier::external_body] fn into_it(self) -> (r: It<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_into_iter(self) -> (r: It<usize>) { unimplemented!() } }
/// methods of slices and vectors
pub trait VSlice<T> { spec fn sv(&self) -> Seq<T>;
    fn v_iter(&self) -> (r: It<&T>) ensures r.view() == Seq::new(self.sv().len(), |i: int| &self.sv()[i]),
        forall|i: int| #![trigger self.sv()[i]] #![trigger r.view()[i]] 0 <= i < self.sv().len() ==> r.view()[i] == &self.sv()[i],
        forall|x: T| #![trigger self.sv().contains(x)] #![trigger r.view().contains(&x)] r.view().contains(&x) <==> self.sv().contains(x);
    fn v_windows(&self, n: usize) -> (r: It<&[T]>) requires n > 0,
        ensures r.view().len() == (if self.sv().len() >= n { self.sv().len() - n + 1 } else { 0 }),
            forall|i: int| 0 <= i < r.view().len() ==> (#[trigger] r.view()[i]).view() == self.sv().subrange(i, i + n);
    fn v_to_vec(&self) -> (r: Vec<T>) ensures r.view() == self.sv();
    /// `[a..b]`
    fn v_range(&self, a: usize, b: usize) -> (r: &[T]) requires a <= b <= self.sv().len(), ensures r.view() == self.sv().subrange(a as int, b as int);
    fn v_range_from(&self, a: usize) -> (r: &[T]) requires a <= self.sv().len(), ensures r.view() == self.sv().subrange(a as int, self.sv().len() as int);
    fn v_range_to(&self, b: usize) -> (r: &[T]) requires b <= self.sv().len(), ensures r.view() == self.sv().take(b as int);
    fn v_range_to_incl(&self, b: usize) -> (r: &[T]) requires b < self.sv().len(), ensures r.view() == self.sv().take(b + 1); }
impl<T> VSlice<T> for Vec<T> { open spec fn sv(&self) -> Seq<T> { self.view() }
    #[verifier::external_body] fn v_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_windows(&self, n: usize) -> (r: It<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_to_incl(&self, b: usize) -> (r: &[T]) { unimplemented!() } }
impl<T> VSlice<T> for [T] { open spec fn sv(&self) -> Seq<T> { self.view() }
    #[verifier::external_body] fn v_iter(&self) -> (r: It<&T>) { unimplemented!() }
    #[verifier::external_body] fn v_windows(&self, n: usize) -> (r: It<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn v_range(&self, a: usize, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_from(&self, a: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn v_range_to_incl(&self, b: usize) -> (r: &[T]) { unimplemented!() } }
/// `s` sorted by a comparison: the same items, each once, in an order in which none is greater than the next, equal ones as before
pub open spec fn sorted_by<T, F: Fn(&T, &T) -> std::cmp::Ordering>(f: F, s: Seq<T>, r: Seq<T>) -> bool {
    exists|p: Seq<int>| #[trigger] perm(p, s.len()) && r == permuted(s, p)
        && forall|i: int, j: int| #![trigger r[i], r[j]] 0 <= i < j < r.len() ==> exists|o: std::cmp::Ordering| #[trigger] call_ensures(f, (&r[i], &r[j]), o) && !(o is Greater) && (o is Equal ==> p[i] < p[j]) }
pub open spec fn perm(p: Seq<int>, n: nat) -> bool { p.len() == n && p.no_duplicates() && forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n }
pub open spec fn permuted<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(p.len(), |i: int| s[p[i]]) }
pub trait VVec<T>: Sized {
    spec fn vv(&self) -> Seq<T>;
    fn v_sort(&mut self) ensures final(self).vv().to_multiset() == old(self).vv().to_multiset();
    /// Panics, or sorts in any order, if the comparison is not an order.
    fn v_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F)
        requires forall|a: T, b: T| call_requires(f, (&a, &b)),
            forall|a: T, b: T, o: Ordering, p: Ordering| #[trigger] call_ensures(f, (&a, &b), o) && #[trigger] call_ensures(f, (&b, &a), p) ==> p == flip(o),
            forall|a: T, b: T, c: T, o: Ordering, p: Ordering, q: Ordering| #[trigger] call_ensures(f, (&a, &b), o) && #[trigger] call_ensures(f, (&b, &c), p) && #[trigger] call_ensures(f, (&a, &c), q)
                && !(o is Greater) && !(p is Greater) ==> !(q is Greater),
        ensures sorted_by(f, old(self).vv(), final(self).vv()), forall|x: T| #![trigger old(self).vv().contains(x)] #![trigger final(self).vv().contains(x)] old(self).vv().contains(x) <==> final(self).vv().contains(x);
    fn v_set(&mut self, i: usize, x: T) requires i < old(self).vv().len(), ensures final(self).vv() == old(self).vv().update(i as int, x);
    fn v_into_boxed_slice(self) -> (r: Box<[T]>) ensures r.view() == self.vv();
    fn v_extend<I: IntoIt<T>>(&mut self, i: I) ensures final(self).vv() == old(self).vv() + i.items(); }
impl<T> VVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self.view() }
    #[verifier::external_body] fn v_sort(&mut self) { unimplemented!() }
    #[verifier::external_body] fn v_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body] fn v_set(&mut self, i: usize, x: T) { unimplemented!() }
    #[verifier::external_body] fn v_into_boxed_slice(self) -> (r: Box<[T]>) { unimplemented!() }
    #[verifier::external_body] fn v_extend<I: IntoIt<T>>(&mut self, i: I) { unimplemented!() } }
impl From<Box<[u8]>> for std::sync::Arc<[u8]> { uninterp spec fn from_spec(t: Box<[u8]>) -> std::sync::Arc<[u8]>; #[verifier::external_body] fn v_from(t: Box<[u8]>) -> (r: std::sync::Arc<[u8]>) { unimplemented!() } }
pub broadcast axiom fn axiom_arc_box(t: Box<[u8]>) ensures (#[trigger] <std::sync::Arc<[u8]> as From<Box<[u8]>>>::from_spec(t)).view() == t.view();
impl From<Vec<u8>> for std::sync::Arc<[u8]> { uninterp spec fn from_spec(t: Vec<u8>) -> std::sync::Arc<[u8]>; #[verifier::external_body] fn v_from(t: Vec<u8>) -> (r: std::sync::Arc<[u8]>) { unimplemented!() } }
pub broadcast axiom fn axiom_arc_vec(t: Vec<u8>) ensures (#[trigger] <std::sync::Arc<[u8]> as From<Vec<u8>>>::from_spec(t)).view() == t.view();

pub fn ok_unit() -> (r: Result<(), crate::erreur::Report>) ensures r is Ok { Ok(()) }
/// the items of a stream of results, for a loop that stops at the first error
pub fn try_items<T>(i: It<Result<T, crate::erreur::Report>>) -> (r: Result<It<T>, crate::erreur::Report>)
    ensures r is Ok ==> r->Ok_0.view().len() == i.view().len() && forall|k: int| #![trigger i.view()[k]] #![trigger r->Ok_0.view()[k]] 0 <= k < i.view().len() ==> i.view()[k] == Ok::<T, crate::erreur::Report>(r->Ok_0.view()[k]),
        (forall|k: int| 0 <= k < i.view().len() ==> #[trigger] i.view()[k] is Ok) ==> r is Ok
{ let c: Result<Vec<T>, crate::erreur::Report> = i.collect(); match c { Ok(v) => Ok(IntoIt::into_it(v)), Err(e) => Err(e) } }

pub use crate::world::*;
pub use crate::names::*;
pub use crate::std_::path::{pname, pjoin, pwith, pabs, simple};
pub broadcast group axioms { lemma_picked, lemma_drefs, lemma_sel, axiom_str_ext, axiom_mk, axiom_mk_inv, crate::std_::path::axiom_path_ext, crate::std_::path::axiom_pname_simple, crate::std_::path::axiom_pname, crate::std_::path::axiom_join_name, crate::std_::path::axiom_join_abs,
    crate::std_::path::axiom_strip, crate::std_::path::axiom_join_text, crate::std_::path::axiom_pname_key, crate::std_::path::axiom_name_utf8, axiom_dec_u64, crate::std_::path::axiom_simple_rel, crate::std_::path::axiom_mkp, crate::std_::ffi::axiom_mko, crate::std_::ffi::axiom_os_ext,
    axiom_cdir, axiom_join_dir, axiom_with_dir, axiom_dirof_canon, axiom_deref, axiom_deref_link, crate::std_::fs::axiom_node_len, crate::std_::fs::axiom_ftype, 
    crate::petgraph::graph::axiom_node_ix, crate::petgraph::graph::axiom_edge_ix, crate::md5::axiom_md5, crate::md5::axiom_hex, crate::rusoto_s3::axiom_body, crate::rusoto_s3::axiom_keys, axiom_utf8_len, axiom_arc_box, axiom_arc_vec }
}
