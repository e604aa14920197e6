// Prelude: the standard library and idata operations the extracted code uses,
// with their contracts. Everything marked external_body / axiom is trusted.
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, non_camel_case_types, non_snake_case, unreachable_code, unused_assignments, unused_labels, path_statements)]
use vstd::prelude::*;
use std::collections::HashMap;
use std::str::Chars;
verus! {


// ------------------------------------------------------------------ idata
// idata::tc::TailCall, and the loop of idata::tc::tail_call is inlined
pub enum TailCall<A, R> { Call(A), Return(R) }
pub enum VxFlow<G, R> { Go(G), Ret(R) }

pub fn vx_unreachable<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
pub fn vx_panic<T>() -> (r: T) requires false { vstd::pervasive::unreached() }
pub fn vx_assert(b: bool) requires b { }

// idata::cont::IVec: the three methods, with their bodies
pub trait VxIVec<T>: Sized {
    spec fn ivv(&self) -> Seq<T>;
    fn ipush(self, t: T) -> (r: Self) ensures r.ivv() == self.ivv().push(t);
    fn iappend(self, v: Self) -> (r: Self) ensures r.ivv() == self.ivv() + v.ivv();
    fn ipop(self) -> (r: (Option<T>, Self))
        ensures
            self.ivv().len() == 0 ==> r.0.is_none() && r.1.ivv() == self.ivv(),
            self.ivv().len() > 0 ==> r.0 == Some(self.ivv().last()) && r.1.ivv() == self.ivv().drop_last();
}
impl<T> VxIVec<T> for Vec<T> {
    open spec fn ivv(&self) -> Seq<T> { self@ }
    fn ipush(self, t: T) -> (r: Self) { let mut s = self; s.push(t); s }
    fn iappend(self, v: Self) -> (r: Self) {
        let mut s = self;
        let mut v = v;
        s.append(&mut v);
        proof { assert(s@ =~= self@ + v@ || true); }
        s
    }
    fn ipop(self) -> (r: (Option<T>, Self)) { let mut s = self; let l = s.pop(); (l, s) }
}

// ------------------------------------------------------------------ conversions
pub trait VxFrom<A>: Sized {
    spec fn vx_from_ok(a: A, r: Self) -> bool;
    fn vx_from_(a: A) -> (r: Self) ensures Self::vx_from_ok(a, r);
}
impl<A> VxFrom<A> for A {
    open spec fn vx_from_ok(a: A, r: A) -> bool { a == r }
    fn vx_from_(a: A) -> (r: A) { a }
}
impl VxFrom<u8> for char { open spec fn vx_from_ok(a: u8, r: char) -> bool { r == a as char } fn vx_from_(a: u8) -> (r: char) { a as char } }
impl VxFrom<u8> for u32 { open spec fn vx_from_ok(a: u8, r: u32) -> bool { r == a } fn vx_from_(a: u8) -> (r: u32) { a as u32 } }
impl VxFrom<u8> for usize { open spec fn vx_from_ok(a: u8, r: usize) -> bool { r == a } fn vx_from_(a: u8) -> (r: usize) { a as usize } }
impl VxFrom<char> for u32 { open spec fn vx_from_ok(a: char, r: u32) -> bool { r == a as u32 } fn vx_from_(a: char) -> (r: u32) { a as u32 } }
pub fn vx_from<A, B: VxFrom<A>>(a: A) -> (r: B) ensures B::vx_from_ok(a, r) { B::vx_from_(a) }

// ------------------------------------------------------------------ clone
// trusted: cloning a String, a Vec or a Chars gives an equal value
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl VxClone for String { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl<'a> VxClone for Chars<'a> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { self.clone() } }
impl<T: VxClone> VxClone for Vec<T> { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }
impl<T: VxClone> VxClone for Option<T> { fn vx_clone(&self) -> (r: Self) { match self { Some(x) => Some(x.vx_clone()), None => None } } }
impl<T: ?Sized> VxClone for &T { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for usize { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for u8 { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for bool { fn vx_clone(&self) -> (r: Self) { *self } }
impl VxClone for char { fn vx_clone(&self) -> (r: Self) { *self } }
impl<A: VxClone, B: VxClone> VxClone for (A, B) { fn vx_clone(&self) -> (r: Self) { (self.0.vx_clone(), self.1.vx_clone()) } }

pub trait VxCloned<T>: Sized { spec fn cdv(self) -> Option<T>; fn vx_cloned(self) -> (r: Option<T>) ensures r == self.cdv(); }
impl<'a, T: VxClone> VxCloned<T> for Option<&'a T> { open spec fn cdv(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn vx_cloned(self) -> (r: Option<T>) { match self { Some(x) => Some(x.vx_clone()), None => None } } }

// ------------------------------------------------------------------ == and <
// trusted: == of the standard types and of field-less enums compares the values
pub trait VxVal { type V; spec fn vv(&self) -> Self::V; }
impl VxVal for String { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
impl VxVal for str { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
impl VxVal for char { type V = char; open spec fn vv(&self) -> char { *self } }
impl VxVal for usize { type V = usize; open spec fn vv(&self) -> usize { *self } }
impl VxVal for u8 { type V = u8; open spec fn vv(&self) -> u8 { *self } }
impl VxVal for bool { type V = bool; open spec fn vv(&self) -> bool { *self } }
impl<T: VxVal + ?Sized> VxVal for &T { type V = T::V; open spec fn vv(&self) -> T::V { (**self).vv() } }
#[verifier::external_body]
pub fn vx_eq<A: VxVal + ?Sized, B: VxVal<V = A::V> + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.vv() == b.vv()) { unimplemented!() }

pub trait VxOrd { spec fn ov(&self) -> int; fn vx_lt_(&self, o: &Self) -> (r: bool) ensures r == (self.ov() < o.ov()); }
impl VxOrd for char { open spec fn ov(&self) -> int { *self as int } fn vx_lt_(&self, o: &Self) -> (r: bool) { (*self as u32) < (*o as u32) } }
impl VxOrd for usize { open spec fn ov(&self) -> int { *self as int } fn vx_lt_(&self, o: &Self) -> (r: bool) { *self < *o } }
impl<T: VxOrd> VxOrd for &T { open spec fn ov(&self) -> int { (**self).ov() } fn vx_lt_(&self, o: &Self) -> (r: bool) { (**self).vx_lt_(*o) } }
pub fn vx_lt<A: VxOrd>(a: &A, b: &A) -> (r: bool) ensures r == (a.ov() < b.ov()) { a.vx_lt_(b) }
pub fn vx_max<A: VxOrd>(a: A, b: A) -> (r: A) ensures r == (if b.ov() < a.ov() { a } else { b }) { if vx_lt(&b, &a) { a } else { b } }
pub fn vx_min<A: VxOrd>(a: A, b: A) -> (r: A) ensures r == (if b.ov() < a.ov() { b } else { a }) { if vx_lt(&b, &a) { b } else { a } }

pub trait VxAdd<B>: Sized {
    type Out;
    spec fn add_req(self, b: B) -> bool;
    spec fn add_ens(self, b: B, r: Self::Out) -> bool;
    fn vx_add_(self, b: B) -> (r: Self::Out) requires self.add_req(b) ensures self.add_ens(b, r);
}
impl VxAdd<usize> for usize {
    type Out = usize;
    open spec fn add_req(self, b: usize) -> bool { self + b <= usize::MAX }
    open spec fn add_ens(self, b: usize, r: usize) -> bool { r == self + b }
    fn vx_add_(self, b: usize) -> (r: usize) { self + b }
}
impl<'a> VxAdd<&'a str> for String {
    type Out = String;
    open spec fn add_req(self, b: &'a str) -> bool { true }
    open spec fn add_ens(self, b: &'a str, r: String) -> bool { r@ == self@ + b@ }
    #[verifier::external_body]
    fn vx_add_(self, b: &'a str) -> (r: String) { self + b }
}
impl<'a> VxAdd<&'a String> for String {
    type Out = String;
    open spec fn add_req(self, b: &'a String) -> bool { true }
    open spec fn add_ens(self, b: &'a String, r: String) -> bool { r@ == self@ + b@ }
    #[verifier::external_body]
    fn vx_add_(self, b: &'a String) -> (r: String) { self + b }
}
pub fn vx_add<A: VxAdd<B>, B>(a: A, b: B) -> (r: A::Out) requires a.add_req(b) ensures a.add_ens(b, r) { a.vx_add_(b) }

// ------------------------------------------------------------------ strings
/// the characters a Chars has still to give
pub uninterp spec fn crem(c: Chars) -> Seq<char>;
pub trait VxNext: Sized { type Item; spec fn nxv(&self) -> Seq<Self::Item>;
    fn vx_next(&mut self) -> (r: Option<Self::Item>)
        ensures match r {
            Some(x) => old(self).nxv().len() > 0 && x == old(self).nxv()[0] && final(self).nxv() == old(self).nxv().skip(1),
            None => old(self).nxv().len() == 0 && *final(self) == *old(self) }; }
impl<'a> VxNext for Chars<'a> { type Item = char; open spec fn nxv(&self) -> Seq<char> { crem(*self) }
    #[verifier::external_body] fn vx_next(&mut self) -> (r: Option<char>) { self.next() } }
pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// length in bytes (UTF-8)
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
/// i is a character boundary
pub open spec fn bok(s: Seq<char>, i: nat) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == i }
pub open spec fn bidx(s: Seq<char>, i: nat) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] blen(s.take(k)) == i }

pub proof fn lemma_blen_mono(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len(),
    ensures blen(s.take(a)) + (b - a) <= blen(s.take(b)),
    decreases b - a,
{
    if a < b {
        lemma_blen_mono(s, a, b - 1);
        assert(s.take(b).drop_last() =~= s.take(b - 1));
    }
}
pub proof fn lemma_bidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures bok(s, blen(s.take(k))), bidx(s, blen(s.take(k))) == k,
{
    let j = bidx(s, blen(s.take(k)));
    assert(blen(s.take(k)) == blen(s.take(k)));
    if j < k { lemma_blen_mono(s, j, k); } else if k < j { lemma_blen_mono(s, k, j); }
}
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_blen_add(a, b.drop_last());
    }
}

pub trait VxToString { spec fn tsv(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.tsv(); }
impl VxToString for str { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for String { open spec fn tsv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.clone() } }
impl VxToString for char { open spec fn tsv(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl VxToString for usize { open spec fn tsv(&self) -> Seq<char> { usize_str(*self) } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { self.to_string() } }
impl<T: VxToString + ?Sized> VxToString for &T { open spec fn tsv(&self) -> Seq<char> { (**self).tsv() } fn vx_to_string(&self) -> (r: String) { (**self).vx_to_string() } }

pub trait VxAsRef { type R: ?Sized; spec fn ar_ok(&self, r: &Self::R) -> bool; fn vx_as_ref(&self) -> (r: &Self::R) ensures self.ar_ok(r); }
impl VxAsRef for String { type R = str; open spec fn ar_ok(&self, r: &str) -> bool { r@ == self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { self.as_str() } }
impl VxAsRef for str { type R = str; open spec fn ar_ok(&self, r: &str) -> bool { r@ == self@ } fn vx_as_ref(&self) -> (r: &str) { self } }
impl<T> VxAsRef for Vec<T> { type R = [T]; open spec fn ar_ok(&self, r: &[T]) -> bool { r@ == self@ } fn vx_as_ref(&self) -> (r: &[T]) { self.as_slice() } }

/// e as &str
pub trait VxStrOf { spec fn sov(&self) -> Seq<char>; fn vx_str_of(&self) -> (r: &str) ensures r@ == self.sov(); }
impl VxStrOf for str { open spec fn sov(&self) -> Seq<char> { self@ } fn vx_str_of(&self) -> (r: &str) { self } }
impl VxStrOf for String { open spec fn sov(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str_of(&self) -> (r: &str) { self.as_str() } }
impl<T: VxStrOf + ?Sized> VxStrOf for &T { open spec fn sov(&self) -> Seq<char> { (**self).sov() } fn vx_str_of(&self) -> (r: &str) { (**self).vx_str_of() } }

#[verifier::external_body]
pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }

pub trait VxAsStr { spec fn asv(&self) -> Seq<char>; fn vx_as_str(&self) -> (r: &str) ensures r@ == self.asv(); }
impl VxAsStr for String { open spec fn asv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } }
impl<'a> VxAsStr for Chars<'a> { open spec fn asv(&self) -> Seq<char> { crem(*self) } #[verifier::external_body] fn vx_as_str(&self) -> (r: &str) { self.as_str() } }

pub trait VxChars { spec fn chv(&self) -> Seq<char>; fn vx_chars<'b>(&'b self) -> (r: Chars<'b>) ensures crem(r) == self.chv(); }
impl VxChars for str { open spec fn chv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars<'b>(&'b self) -> (r: Chars<'b>) { self.chars() } }
impl VxChars for String { open spec fn chv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_chars<'b>(&'b self) -> (r: Chars<'b>) { self.chars() } }

pub trait VxLen { spec fn vlen(&self) -> nat; spec fn vempty(&self) -> bool; fn vx_len(&self) -> (r: usize) ensures r == self.vlen(); fn vx_is_empty(&self) -> (r: bool) ensures r == self.vempty(); }
impl VxLen for str { open spec fn vlen(&self) -> nat { blen(self@) } open spec fn vempty(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl VxLen for String { open spec fn vlen(&self) -> nat { blen(self@) } open spec fn vempty(&self) -> bool { self@.len() == 0 }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { self.len() } #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { self.is_empty() } }
impl<T> VxLen for [T] { open spec fn vlen(&self) -> nat { self@.len() } open spec fn vempty(&self) -> bool { self@.len() == 0 }
    fn vx_len(&self) -> (r: usize) { self.len() } fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 } }
impl<T> VxLen for Vec<T> { open spec fn vlen(&self) -> nat { self@.len() } open spec fn vempty(&self) -> bool { self@.len() == 0 }
    fn vx_len(&self) -> (r: usize) { self.len() } fn vx_is_empty(&self) -> (r: bool) { self.len() == 0 } }

/// str::find / rfind with a char
pub trait VxFind { spec fn fv(&self) -> Seq<char>;
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures match r {
            Some(i) => exists|k: int| 0 <= k < self.fv().len() && self.fv()[k] == c && i == #[trigger] blen(self.fv().take(k)) && !self.fv().take(k).contains(c),
            None => !self.fv().contains(c) };
    fn vx_rfind(&self, c: char) -> (r: Option<usize>)
        ensures match r {
            Some(i) => exists|k: int| 0 <= k < self.fv().len() && self.fv()[k] == c && i == #[trigger] blen(self.fv().take(k)) && !self.fv().skip(k + 1).contains(c),
            None => !self.fv().contains(c) };
}
impl VxFind for str { open spec fn fv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.rfind(c) } }
impl VxFind for String { open spec fn fv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find(&self, c: char) -> (r: Option<usize>) { self.find(c) }
    #[verifier::external_body] fn vx_rfind(&self, c: char) -> (r: Option<usize>) { self.rfind(c) } }

/// str::replace: the leftmost occurrences that do not overlap
pub open spec fn repl(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || p.len() == 0 || s.len() < p.len() { s }
    else if s.take(p.len() as int) == p { t + repl(s.skip(p.len() as int), p, t) }
    else { seq![s[0]] + repl(s.skip(1), p, t) }
}
pub trait VxPat { spec fn patv(&self) -> Seq<char>; }
impl VxPat for char { open spec fn patv(&self) -> Seq<char> { seq![*self] } }
impl VxPat for str { open spec fn patv(&self) -> Seq<char> { self@ } }
impl VxPat for String { open spec fn patv(&self) -> Seq<char> { self@ } }
impl<T: VxPat + ?Sized> VxPat for &T { open spec fn patv(&self) -> Seq<char> { (**self).patv() } }
pub trait VxReplace { spec fn rpv(&self) -> Seq<char>; fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) ensures p.patv().len() > 0 ==> r@ == repl(self.rpv(), p.patv(), t@); }
impl VxReplace for str { open spec fn rpv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() } }
impl VxReplace for String { open spec fn rpv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) { unimplemented!() } }

/// s occurs in t
pub open spec fn occurs(t: Seq<char>, s: Seq<char>) -> bool { exists|i: int| 0 <= i && i + s.len() <= t.len() && #[trigger] t.subrange(i, i + s.len()) == s }
pub trait VxContains<P> { spec fn ctv(&self, p: P) -> bool; fn vx_contains(&self, p: P) -> (r: bool) ensures r == self.ctv(p); }
impl VxContains<char> for str { open spec fn ctv(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn vx_contains(&self, p: char) -> (r: bool) { self.contains(p) } }
impl VxContains<char> for String { open spec fn ctv(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn vx_contains(&self, p: char) -> (r: bool) { self.contains(p) } }
impl<'a> VxContains<&'a str> for str { open spec fn ctv(&self, p: &'a str) -> bool { occurs(self@, p@) } #[verifier::external_body] fn vx_contains(&self, p: &'a str) -> (r: bool) { self.contains(p) } }
impl<'a> VxContains<&'a str> for String { open spec fn ctv(&self, p: &'a str) -> bool { occurs(self@, p@) } #[verifier::external_body] fn vx_contains(&self, p: &'a str) -> (r: bool) { self.contains(p) } }
impl<'a, T: VxVal> VxContains<&'a T> for [T] { open spec fn ctv(&self, p: &'a T) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).vv() == p.vv() }
    #[verifier::external_body] fn vx_contains(&self, p: &'a T) -> (r: bool) { unimplemented!() } }
impl<'a, T: VxVal> VxContains<&'a T> for Vec<T> { open spec fn ctv(&self, p: &'a T) -> bool { exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i]).vv() == p.vv() }
    #[verifier::external_body] fn vx_contains(&self, p: &'a T) -> (r: bool) { unimplemented!() } }
pub trait VxEnds { spec fn env(&self) -> Seq<char>;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == (p.patv().len() <= self.env().len() && self.env().take(p.patv().len() as int) == p.patv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == (p.patv().len() <= self.env().len() && self.env().skip(self.env().len() - p.patv().len()) == p.patv()); }
impl VxEnds for str { open spec fn env(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } }
impl VxEnds for String { open spec fn env(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() } }
pub trait VxPushStr { spec fn psv(&self) -> Seq<char>; fn vx_push_str(&mut self, s: &str) ensures final(self).psv() == old(self).psv() + s@; }
impl VxPushStr for String { open spec fn psv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { self.push_str(s) } }
/// a += b
pub trait VxAddAssign<B>: Sized { spec fn aa_req(a: Self, b: B) -> bool; spec fn aa_ens(a: Self, b: B, r: Self) -> bool;
    fn vx_add_assign_(&mut self, b: B) requires Self::aa_req(*old(self), b) ensures Self::aa_ens(*old(self), b, *final(self)); }
impl VxAddAssign<usize> for usize { open spec fn aa_req(a: usize, b: usize) -> bool { a + b <= usize::MAX } open spec fn aa_ens(a: usize, b: usize, r: usize) -> bool { r == a + b }
    fn vx_add_assign_(&mut self, b: usize) { *self = *self + b; } }
impl VxAddAssign<u8> for u8 { open spec fn aa_req(a: u8, b: u8) -> bool { a + b <= u8::MAX } open spec fn aa_ens(a: u8, b: u8, r: u8) -> bool { r == a + b }
    fn vx_add_assign_(&mut self, b: u8) { *self = *self + b; } }
impl<'a> VxAddAssign<&'a str> for String { open spec fn aa_req(a: String, b: &'a str) -> bool { true } open spec fn aa_ens(a: String, b: &'a str, r: String) -> bool { r@ == a@ + b@ }
    #[verifier::external_body] fn vx_add_assign_(&mut self, b: &'a str) { *self += b; } }
impl<'a> VxAddAssign<&'a String> for String { open spec fn aa_req(a: String, b: &'a String) -> bool { true } open spec fn aa_ens(a: String, b: &'a String, r: String) -> bool { r@ == a@ + b@ }
    #[verifier::external_body] fn vx_add_assign_(&mut self, b: &'a String) { *self += b; } }

// ------------------------------------------------------------------ slices
pub trait VxSlice {
    type S: ?Sized;
    type SV;
    spec fn from_req(&self, i: nat) -> bool;
    spec fn to_req(&self, i: nat) -> bool;
    spec fn from_ens(&self, i: nat, r: &Self::S) -> bool;
    spec fn to_ens(&self, i: nat, r: &Self::S) -> bool;
    spec fn both_ens(&self, i: nat, j: nat, r: &Self::S) -> bool;
    fn vx_slice_from(&self, i: usize) -> (r: &Self::S) requires self.from_req(i as nat) ensures self.from_ens(i as nat, r);
    fn vx_slice_to(&self, i: usize) -> (r: &Self::S) requires self.to_req(i as nat) ensures self.to_ens(i as nat, r);
    fn vx_slice(&self, i: usize, j: usize) -> (r: &Self::S) requires self.from_req(i as nat), self.to_req(j as nat), i <= j ensures self.both_ens(i as nat, j as nat, r);
}
impl<T> VxSlice for [T] {
    type S = [T]; type SV = Seq<T>;
    open spec fn from_req(&self, i: nat) -> bool { i <= self@.len() }
    open spec fn to_req(&self, i: nat) -> bool { i <= self@.len() }
    open spec fn from_ens(&self, i: nat, r: &[T]) -> bool { r@ == self@.skip(i as int) }
    open spec fn to_ens(&self, i: nat, r: &[T]) -> bool { r@ == self@.take(i as int) }
    open spec fn both_ens(&self, i: nat, j: nat, r: &[T]) -> bool { r@ == self@.subrange(i as int, j as int) }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { &self[i..] }
    #[verifier::external_body] fn vx_slice_to(&self, i: usize) -> (r: &[T]) { &self[..i] }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &[T]) { &self[i..j] }
}
impl<T> VxSlice for Vec<T> {
    type S = [T]; type SV = Seq<T>;
    open spec fn from_req(&self, i: nat) -> bool { i <= self@.len() }
    open spec fn to_req(&self, i: nat) -> bool { i <= self@.len() }
    open spec fn from_ens(&self, i: nat, r: &[T]) -> bool { r@ == self@.skip(i as int) }
    open spec fn to_ens(&self, i: nat, r: &[T]) -> bool { r@ == self@.take(i as int) }
    open spec fn both_ens(&self, i: nat, j: nat, r: &[T]) -> bool { r@ == self@.subrange(i as int, j as int) }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &[T]) { &self[i..] }
    #[verifier::external_body] fn vx_slice_to(&self, i: usize) -> (r: &[T]) { &self[..i] }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &[T]) { &self[i..j] }
}
impl VxSlice for str {
    type S = str; type SV = Seq<char>;
    open spec fn from_req(&self, i: nat) -> bool { bok(self@, i) }
    open spec fn to_req(&self, i: nat) -> bool { bok(self@, i) }
    open spec fn from_ens(&self, i: nat, r: &str) -> bool { r@ == self@.skip(bidx(self@, i)) }
    open spec fn to_ens(&self, i: nat, r: &str) -> bool { r@ == self@.take(bidx(self@, i)) }
    open spec fn both_ens(&self, i: nat, j: nat, r: &str) -> bool { r@ == self@.subrange(bidx(self@, i), bidx(self@, j)) }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &str) { &self[i..] }
    #[verifier::external_body] fn vx_slice_to(&self, i: usize) -> (r: &str) { &self[..i] }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &str) { &self[i..j] }
}
impl VxSlice for String {
    type S = str; type SV = Seq<char>;
    open spec fn from_req(&self, i: nat) -> bool { bok(self@, i) }
    open spec fn to_req(&self, i: nat) -> bool { bok(self@, i) }
    open spec fn from_ens(&self, i: nat, r: &str) -> bool { r@ == self@.skip(bidx(self@, i)) }
    open spec fn to_ens(&self, i: nat, r: &str) -> bool { r@ == self@.take(bidx(self@, i)) }
    open spec fn both_ens(&self, i: nat, j: nat, r: &str) -> bool { r@ == self@.subrange(bidx(self@, i), bidx(self@, j)) }
    #[verifier::external_body] fn vx_slice_from(&self, i: usize) -> (r: &str) { &self[i..] }
    #[verifier::external_body] fn vx_slice_to(&self, i: usize) -> (r: &str) { &self[..i] }
    #[verifier::external_body] fn vx_slice(&self, i: usize, j: usize) -> (r: &str) { &self[i..j] }
}
/// the same where a panic is not excluded: nothing is said of a call that panics (it does not return)
pub trait VxSliceP: VxSlice {
    fn vx_slice_from_p(&self, i: usize) -> (r: &Self::S) ensures self.from_req(i as nat) && self.from_ens(i as nat, r);
    fn vx_slice_to_p(&self, i: usize) -> (r: &Self::S) ensures self.to_req(i as nat) && self.to_ens(i as nat, r);
    fn vx_slice_p(&self, i: usize, j: usize) -> (r: &Self::S) ensures self.from_req(i as nat) && self.to_req(j as nat) && i <= j && self.both_ens(i as nat, j as nat, r);
}
impl<T: VxSlice + ?Sized> VxSliceP for T {
    #[verifier::external_body] fn vx_slice_from_p(&self, i: usize) -> (r: &Self::S) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_to_p(&self, i: usize) -> (r: &Self::S) { unimplemented!() }
    #[verifier::external_body] fn vx_slice_p(&self, i: usize, j: usize) -> (r: &Self::S) { unimplemented!() }
}
pub trait VxSeqOps<T> {
    spec fn sv(&self) -> Seq<T>;
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sv().len() > 0 && *x == self.sv()[0], None => self.sv().len() == 0 };
    fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sv().len() > 0 && *x == self.sv().last(), None => self.sv().len() == 0 };
    fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) ensures match r { Some((x, y)) => self.sv().len() > 0 && *x == self.sv()[0] && y@ == self.sv().skip(1), None => self.sv().len() == 0 };
    fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) ensures match r { Some((x, y)) => self.sv().len() > 0 && *x == self.sv().last() && y@ == self.sv().drop_last(), None => self.sv().len() == 0 };
    fn vx_nth_ref(&self, i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < self.sv().len() && *x == self.sv()[i as int], None => i >= self.sv().len() };
    fn vx_as_slice(&self) -> (r: &[T]) ensures r@ == self.sv();
}
impl<T> VxSeqOps<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn vx_first(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
    fn vx_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { if self.len() == 0 { None } else { Some((&self[0], self.vx_slice_from(1))) } }
    fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) { if self.len() == 0 { None } else { let n = self.len() - 1; let x = self.vx_slice_to(n); proof { assert(x@ =~= self@.drop_last()); } Some((&self[n], x)) } }
    fn vx_nth_ref(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn vx_as_slice(&self) -> (r: &[T]) { self }
}
impl<T> VxSeqOps<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    fn vx_first(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
    fn vx_last(&self) -> (r: Option<&T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { if self.len() == 0 { None } else { Some((&self[0], self.vx_slice_from(1))) } }
    fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) { if self.len() == 0 { None } else { let n = self.len() - 1; let x = self.vx_slice_to(n); proof { assert(x@ =~= self@.drop_last()); } Some((&self[n], x)) } }
    fn vx_nth_ref(&self, i: usize) -> (r: Option<&T>) { if i < self.len() { Some(&self[i]) } else { None } }
    fn vx_as_slice(&self) -> (r: &[T]) { self.as_slice() }
}

// ------------------------------------------------------------------ iteration: the items of an iterator, in order
pub trait VxIterRef<T> { spec fn itv(&self) -> Seq<T>; fn vx_iter<'b>(&'b self) -> (r: Vec<&'b T>)
    ensures r@.len() == self.itv().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.itv()[i]; }
impl<T> VxIterRef<T> for [T] { open spec fn itv(&self) -> Seq<T> { self@ }
    fn vx_iter<'b>(&'b self) -> (r: Vec<&'b T>) {
        let mut r: Vec<&'b T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == self@[j],
            decreases self@.len() - i,
        { r.push(&self[i]); i = i + 1; }
        r
    }
}
impl<T> VxIterRef<T> for Vec<T> { open spec fn itv(&self) -> Seq<T> { self@ }
    fn vx_iter<'b>(&'b self) -> (r: Vec<&'b T>) {
        let mut r: Vec<&'b T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|j: int| 0 <= j < i ==> *(#[trigger] r@[j]) == self@[j],
            decreases self@.len() - i,
        { r.push(&self[i]); i = i + 1; }
        r
    }
}
pub trait VxIterVal: Sized { type Item; spec fn ivs(&self) -> Seq<Self::Item>; fn vx_iter(self) -> (r: Vec<Self::Item>) ensures r@ == self.ivs(); }
impl<'a> VxIterVal for Chars<'a> { type Item = char; open spec fn ivs(&self) -> Seq<char> { crem(*self) }
    #[verifier::external_body] fn vx_iter(self) -> (r: Vec<char>) { self.collect() } }

/// what collect() makes of the items
pub trait VxCollect<T>: Sized { spec fn vcv(&self) -> Seq<T>; fn vx_collect_(v: Vec<T>) -> (r: Self) ensures r.vcv() == v@; }
impl<T> VxCollect<T> for Vec<T> { open spec fn vcv(&self) -> Seq<T> { self@ } fn vx_collect_(v: Vec<T>) -> (r: Self) { v } }
impl VxCollect<char> for String { open spec fn vcv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_collect_(v: Vec<char>) -> (r: Self) { v.into_iter().collect() } }
pub fn vx_collect_vec<T, C: VxCollect<T>>(v: Vec<T>) -> (r: C) ensures r.vcv() == v@ { C::vx_collect_(v) }

// rev, skip, take and enumerate of the items
pub trait VxItems<T>: Sized { spec fn imsv(&self) -> Seq<T>;
    fn vx_rev(self) -> (r: Vec<T>) ensures r@ == self.imsv().reverse();
    fn vx_skip(self, n: usize) -> (r: Vec<T>) ensures r@ == self.imsv().skip(if n as int <= self.imsv().len() { n as int } else { self.imsv().len() as int });
    fn vx_take(self, n: usize) -> (r: Vec<T>) ensures r@ == self.imsv().take(if n as int <= self.imsv().len() { n as int } else { self.imsv().len() as int });
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) ensures r@.len() == self.imsv().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.imsv()[i]; }
impl<T> VxItems<T> for Vec<T> { open spec fn imsv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_rev(self) -> (r: Vec<T>) { self.into_iter().rev().collect() }
    #[verifier::external_body] fn vx_skip(self, n: usize) -> (r: Vec<T>) { self.into_iter().skip(n).collect() }
    #[verifier::external_body] fn vx_take(self, n: usize) -> (r: Vec<T>) { self.into_iter().take(n).collect() }
    #[verifier::external_body] fn vx_enumerate(self) -> (r: Vec<(usize, T)>) { self.into_iter().enumerate().collect() } }
pub trait VxCount: Sized { spec fn cnv(&self) -> nat; fn vx_count(self) -> (r: usize) ensures r == self.cnv(); }
impl<'a> VxCount for Chars<'a> { open spec fn cnv(&self) -> nat { crem(*self).len() } #[verifier::external_body] fn vx_count(self) -> (r: usize) { self.count() } }

// Option and Result
pub trait VxUnwrapOr<T>: Sized { spec fn uov(self, d: T) -> T; fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == self.uov(d); }
impl<T> VxUnwrapOr<T> for Option<T> { open spec fn uov(self, d: T) -> T { match self { Some(x) => x, None => d } } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Some(x) => x, None => d } } }
impl<T, E> VxUnwrapOr<T> for Result<T, E> { open spec fn uov(self, d: T) -> T { match self { Ok(x) => x, Err(_) => d } } fn vx_unwrap_or(self, d: T) -> (r: T) { match self { Ok(x) => x, Err(_) => d } } }

// idata::consume_char, with its body
pub fn idata_consume_char(c: Chars) -> (r: Option<(char, Chars)>)
    ensures match r { Some((x, d)) => crem(c).len() > 0 && x == crem(c)[0] && crem(d) == crem(c).skip(1), None => crem(c).len() == 0 }
{ let mut c = c; match c.vx_next() { Some(ch) => Some((ch, c)), None => None } }

// numbers from text
pub struct VxParseIntError;
pub open spec fn hexany(c: char) -> Option<int> {
    if '0' <= c && c <= '9' { Some(c as int - '0' as int) } else if 'A' <= c && c <= 'F' { Some(c as int - 'A' as int + 10) } else if 'a' <= c && c <= 'f' { Some(c as int - 'a' as int + 10) } else { None }
}
/// of u8::from_str_radix: two hexadecimal digits
#[verifier::external_body]
pub fn vx_u8_from_str_radix(s: &str, radix: u32) -> (r: Result<u8, VxParseIntError>)
    ensures radix == 16 && s@.len() == 2 ==> match (hexany(s@[0]), hexany(s@[1])) { (Some(a), Some(b)) => (r matches Ok(v) && v == 16 * a + b), _ => true }
{ u8::from_str_radix(s, radix).map_err(|_| VxParseIntError) }

// ------------------------------------------------------------------ format!
/// decimal digits
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![((48 + n) as u8) as char] } else { dec(n / 10) + seq![((48 + n % 10) as u8) as char] } }
#[verifier::opaque]
pub open spec fn usize_str(n: usize) -> Seq<char> { dec(n as nat) }
pub uninterp spec fn vx_dbg<T: ?Sized>(x: &T) -> Seq<char>;
pub trait VxDisp { spec fn dispv(&self) -> Seq<char>; }
impl VxDisp for String { open spec fn dispv(&self) -> Seq<char> { self@ } }
impl VxDisp for str { open spec fn dispv(&self) -> Seq<char> { self@ } }
impl VxDisp for char { open spec fn dispv(&self) -> Seq<char> { seq![*self] } }
impl VxDisp for usize { open spec fn dispv(&self) -> Seq<char> { usize_str(*self) } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn dispv(&self) -> Seq<char> { (**self).dispv() } }
#[verifier::external_body]
pub fn vx_fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn vx_fmt_lit(a: String, l: &str) -> (r: String) ensures r@ == a@ + l@, a@.len() == 0 ==> r@ == l@ { a + l }
#[verifier::external_body]
pub fn vx_fmt_disp<T: VxDisp + ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + x.dispv(), a@.len() == 0 ==> r@ == x.dispv() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmt_dbg<T: ?Sized>(a: String, x: &T) -> (r: String) ensures r@ == a@ + vx_dbg(x), a@.len() == 0 ==> r@ == vx_dbg(x) { unimplemented!() }

// ------------------------------------------------------------------ HashMap<String, V> as a map from names
pub uninterp spec fn hm<V>(m: HashMap<String, V>) -> Map<Seq<char>, V>;
#[verifier::external_body]
pub fn vx_hm_new<V>() -> (r: HashMap<String, V>) ensures hm(r) == Map::<Seq<char>, V>::empty() { HashMap::new() }
pub trait VxMapOps<V>: Sized {
    spec fn mv(&self) -> Map<Seq<char>, V>;
    fn vx_get(&self, k: &str) -> (r: Option<&V>)
        ensures match r { Some(v) => self.mv().dom().contains(k@) && *v == self.mv()[k@], None => !self.mv().dom().contains(k@) };
    fn vx_contains_key(&self, k: &str) -> (r: bool) ensures r == self.mv().dom().contains(k@);
    fn vx_insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).mv() == old(self).mv().insert(k@, v);
}
impl<V> VxMapOps<V> for HashMap<String, V> {
    open spec fn mv(&self) -> Map<Seq<char>, V> { hm(*self) }
    #[verifier::external_body] fn vx_get(&self, k: &str) -> (r: Option<&V>) { self.get(k) }
    #[verifier::external_body] fn vx_contains_key(&self, k: &str) -> (r: bool) { self.contains_key(k) }
    #[verifier::external_body] fn vx_insert(&mut self, k: String, v: V) -> (r: Option<V>) { self.insert(k, v) }
}

/// the entries of a map, each once, in some order
pub open spec fn map_items<V>(m: Map<Seq<char>, V>, v: Seq<(&String, &V)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).0@) && *v[i].1 == m[v[i].0@]
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0@ != (#[trigger] v[j]).0@
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0@ == k
}
pub trait VxIterMap<V> { spec fn imv(&self) -> Map<Seq<char>, V>; fn vx_iter<'b>(&'b self) -> (r: Vec<(&'b String, &'b V)>) ensures map_items(self.imv(), r@); }
impl<V> VxIterMap<V> for HashMap<String, V> { open spec fn imv(&self) -> Map<Seq<char>, V> { hm(*self) }
    #[verifier::external_body] fn vx_iter<'b>(&'b self) -> (r: Vec<(&'b String, &'b V)>) { self.iter().collect() } }

// the pairs of a map in some order, and what collecting pairs into a map gives
pub open spec fn pairs_map<V>(s: Seq<(String, V)>) -> Map<Seq<char>, V> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0@, s.last().1) }
}
pub proof fn lemma_pairs_add<V>(a: Seq<(String, V)>, b: Seq<(String, V)>)
    ensures pairs_map(a + b) == pairs_map(a).union_prefer_right(pairs_map(b)),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(pairs_map(a).union_prefer_right(pairs_map(b)) =~= pairs_map(a)); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_pairs_add(a, b.drop_last());
        assert(pairs_map(a + b) =~= pairs_map(a).union_prefer_right(pairs_map(b)));
    }
}
pub trait VxExtend<O> { spec fn ext_ok(a: &Self, o: O, r: &Self) -> bool; fn vx_extend(&mut self, o: O) ensures Self::ext_ok(old(self), o, final(self)); }
impl<V> VxExtend<HashMap<String, V>> for HashMap<String, V> { open spec fn ext_ok(a: &HashMap<String, V>, o: HashMap<String, V>, r: &HashMap<String, V>) -> bool { hm(*r) == hm(*a).union_prefer_right(hm(o)) }
    #[verifier::external_body] fn vx_extend(&mut self, o: HashMap<String, V>) { self.extend(o) } }
impl<V> VxExtend<VxPairs<V>> for HashMap<String, V> { open spec fn ext_ok(a: &HashMap<String, V>, o: VxPairs<V>, r: &HashMap<String, V>) -> bool { hm(*r) == hm(*a).union_prefer_right(pairs_map(o.v@)) }
    #[verifier::external_body] fn vx_extend(&mut self, o: VxPairs<V>) { self.extend(o.v) } }
impl<T> VxExtend<Vec<T>> for Vec<T> { open spec fn ext_ok(a: &Vec<T>, o: Vec<T>, r: &Vec<T>) -> bool { r@ == a@ + o@ } fn vx_extend(&mut self, o: Vec<T>) { let mut o = o; self.append(&mut o) } }
pub trait VxAppend { spec fn apv(&self) -> Seq<Self::It>; type It; fn vx_append(&mut self, o: &mut Self) ensures final(self).apv() == old(self).apv() + old(o).apv(), final(o).apv() == Seq::<Self::It>::empty(); }
impl<T> VxAppend for Vec<T> { type It = T; open spec fn apv(&self) -> Seq<T> { self@ } fn vx_append(&mut self, o: &mut Vec<T>) { self.append(o) } }
pub struct VxPairs<V> { pub v: Vec<(String, V)> }
pub trait VxIntoPairs<V>: Sized { spec fn ipv(self) -> Map<Seq<char>, V>; fn vx_into_iter(self) -> (r: VxPairs<V>) ensures pairs_map(r.v@) == self.ipv(); }
impl<V> VxIntoPairs<V> for HashMap<String, V> { open spec fn ipv(self) -> Map<Seq<char>, V> { hm(self) }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VxPairs<V>) { VxPairs { v: self.into_iter().collect() } } }
impl<V> VxIntoPairs<V> for VxPairs<V> { open spec fn ipv(self) -> Map<Seq<char>, V> { pairs_map(self.v@) } fn vx_into_iter(self) -> (r: VxPairs<V>) { self } }
impl<V> VxPairs<V> {
    pub fn vx_chain<I: VxIntoPairs<V>>(self, o: I) -> (r: VxPairs<V>) ensures pairs_map(r.v@) == pairs_map(self.v@).union_prefer_right(o.ipv())
    { let o = o.vx_into_iter(); let mut a = self.v; let mut b = o.v; proof { lemma_pairs_add(self.v@, o.v@); } a.append(&mut b); VxPairs { v: a } }
    #[verifier::external_body]
    pub fn vx_collect(self) -> (r: HashMap<String, V>) ensures hm(r) == pairs_map(self.v@) { self.v.into_iter().collect() }
}

} // verus!
