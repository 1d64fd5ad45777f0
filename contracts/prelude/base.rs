// Models of library types that need no global state. Everything `external_body` here is an assumption (listed in DESIGN.md).
//@trait VxIntoIter

// ---------- strings
pub broadcast axiom fn ax_string_eq(a: String, b: String)
    ensures #![trigger PartialEqSpec::eq_spec(&a, &b)] <String as PartialEqSpec<String>>::obeys_eq_spec(), PartialEqSpec::eq_spec(&a, &b) == (a@ == b@), (a@ == b@) == (a == b);
pub broadcast axiom fn ax_string_inj(a: String, b: String)
    ensures #![trigger a@, b@] (a@ == b@) ==> (a == b);
pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_obeys2() ensures #[trigger] <String as PartialEqSpec<str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq2(a: String, b: &str) ensures #![trigger PartialEqSpec::eq_spec(&a, b)] PartialEqSpec::eq_spec(&a, b) == (a@ == b@);
pub broadcast axiom fn ax_string_obeys3() ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn ax_string_eq3(a: String, b: &&str) ensures #![trigger PartialEqSpec::eq_spec(&a, b)] PartialEqSpec::eq_spec(&a, b) == (a@ == b@);
pub uninterp spec fn vstr(s: Seq<char>) -> String;
pub broadcast axiom fn ax_vstr(s: Seq<char>) ensures #[trigger] vstr(s)@ == s;
#[verifier::external_body]
pub fn vx_format() -> (r: String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_no_panic() -> ! requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_panic() -> ! ensures false { unimplemented!() }
#[verifier::external_body]
pub fn vx_handle<T>(t: &T) -> (r: &'static T) ensures *r == *t { unimplemented!() }

pub trait VxToOwned { type O; spec fn own_ok(&self, o: Self::O) -> bool; fn vx_to_owned(&self) -> (r: Self::O) ensures self.own_ok(r); }
impl<T: Clone> VxToOwned for T { type O = T; open spec fn own_ok(&self, o: T) -> bool { o == *self } #[verifier::external_body] fn vx_to_owned(&self) -> (r: T) { unimplemented!() } }
impl VxToOwned for str { type O = String; open spec fn own_ok(&self, o: String) -> bool { o@ == self@ } #[verifier::external_body] fn vx_to_owned(&self) -> (r: String) { unimplemented!() } }
/// the text `to_string` makes
pub trait VxText { spec fn shown(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shown(); }
impl VxText for str { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxText for String { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxText for CowStr { open spec fn shown(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxText for SocketAddr { uninterp spec fn shown(&self) -> Seq<char>; #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub assume_specification[ <String as core::convert::AsRef<str>>::as_ref ](s: &String) -> (r: &str) ensures r@ == s@;
pub trait VxClone: Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
impl<T: Clone> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: T) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_mem_take<T: VxDefault>(t: &mut T) -> (r: T) ensures r == *old(t), T::vdef(*final(t)) { unimplemented!() }
impl From<CowStr> for String { #[verifier::external_body] fn from(c: CowStr) -> (r: String) ensures r@ == c@ { unimplemented!() } }
// ---------- Cow<'static, str>
pub enum CowStr { Borrowed(&'static str), Owned(String) }
impl View for CowStr { type V = Seq<char>; open spec fn view(&self) -> Seq<char> { match *self { CowStr::Borrowed(s) => s@, CowStr::Owned(s) => s@ } } }
impl Clone for CowStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl PartialEqSpecImpl for CowStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CowStr) -> bool { self@ == o@ } }
impl PartialEq for CowStr { #[verifier::external_body] fn eq(&self, o: &CowStr) -> bool { unimplemented!() } }
impl FromSpecImpl<&'static str> for CowStr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: &'static str) -> Self { CowStr::Borrowed(v) } }
impl From<&'static str> for CowStr { fn from(v: &'static str) -> (r: Self) { CowStr::Borrowed(v) } }
impl FromSpecImpl<String> for CowStr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: String) -> Self { CowStr::Owned(v) } }
impl From<String> for CowStr { fn from(v: String) -> (r: Self) { CowStr::Owned(v) } }
impl<'a> PartialEqSpecImpl<CowStr> for &'a str { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &CowStr) -> bool { o@ == (*self)@ } }
impl<'a> PartialEq<CowStr> for &'a str { #[verifier::external_body] fn eq(&self, o: &CowStr) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a str> for CowStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a str) -> bool { self@ == (*o)@ } }
impl<'a> PartialEq<&'a str> for CowStr { #[verifier::external_body] fn eq(&self, o: &&'a str) -> bool { unimplemented!() } }
impl CowStr {
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref<'a>(&'a self) -> (r: &'a str) ensures r@ == self@ { unimplemented!() }
}

// ---------- NonZeroU64
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct NonZeroU64 { x: u64 }
impl View for NonZeroU64 { type V = u64; uninterp spec fn view(&self) -> u64; }
pub uninterp spec fn nz(n: u64) -> NonZeroU64;
pub proof fn lm_nz(n: u64) requires n != 0 ensures nz(n)@ == n { ax_nz2(n); }
pub broadcast axiom fn ax_nz(n: NonZeroU64) ensures #![trigger n@] n@ != 0, nz(n@) == n;
pub broadcast axiom fn ax_nz2(n: u64) ensures #![trigger nz(n)] n != 0 ==> nz(n)@ == n;
impl NonZeroU64 {
    #[verifier::external_body]
    pub fn new(n: u64) -> (r: Option<NonZeroU64>) ensures r is Some <==> n != 0, r is Some ==> r->0@ == n && r->0 == nz(n) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(self) -> (r: u64) ensures r == self@ { unimplemented!() }
}
impl PartialEqSpecImpl for NonZeroU64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &NonZeroU64) -> bool { *self == *o } }
impl PartialEq for NonZeroU64 { #[verifier::external_body] fn eq(&self, o: &NonZeroU64) -> bool { unimplemented!() } }

// ---------- SocketAddr
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct SocketAddr { x: u8 }
impl PartialEqSpecImpl for SocketAddr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &SocketAddr) -> bool { *self == *o } }
impl SocketAddr {
    pub uninterp spec fn sport(&self) -> u16;
    pub uninterp spec fn sip(&self) -> IpAddr;
    #[verifier::external_body] pub fn port(&self) -> (r: u16) ensures r == self.sport() { unimplemented!() }
    #[verifier::external_body] pub fn ip(&self) -> (r: IpAddr) ensures r == self.sip() { unimplemented!() }
}
#[verifier::external_body]
pub struct IpAddr { x: u8 }
impl Clone for IpAddr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Copy for IpAddr { }
impl PartialEqSpecImpl for IpAddr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &IpAddr) -> bool { *self == *o } }
impl PartialEq for IpAddr { #[verifier::external_body] fn eq(&self, o: &IpAddr) -> bool { unimplemented!() } }
impl PartialEq for SocketAddr { #[verifier::external_body] fn eq(&self, o: &SocketAddr) -> bool { unimplemented!() } }

// ---------- iteration
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { t: core::marker::PhantomData<T> }
impl<T> VIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    #[verifier::external_body]
    pub fn has_next(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn take_next(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len(),
        ensures r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1
    { unimplemented!() }
    #[verifier::external_body]
    pub fn last_index(&self) -> (r: usize) requires self.pos() > 0 ensures r == self.pos() - 1 { unimplemented!() }
    #[verifier::external_body]
    pub fn rev(self) -> (r: VIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: VIter<(usize, T)>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == ((i as usize), self.seq()[i]), self.seq().len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: VIter<T>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().skip(n as int) } else { Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(self, n: usize) -> (r: VIter<T>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == (if n <= self.seq().len() { self.seq().take(n as int) } else { self.seq() }) { unimplemented!() }
}
pub trait VxFrom<T>: Sized { spec fn from_ok(s: Seq<T>, r: Self) -> bool; }
impl<T> VxFrom<T> for Vec<T> { open spec fn from_ok(s: Seq<T>, r: Vec<T>) -> bool { r@ == s } }
impl<T> VxFrom<T> for BTreeSet<T> { open spec fn from_ok(s: Seq<T>, r: BTreeSet<T>) -> bool { r@ == s.to_set() } }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn vx_collect<C: VxFrom<T>>(self) -> (r: C) requires self.pos() == 0 ensures C::from_ok(self.seq(), r) { unimplemented!() }
}
impl<'a, T> VIter<&'a T> {
    #[verifier::external_body]
    pub fn copied(self) -> (r: VIter<T>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == deref_seq(self.seq()), r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == *self.seq()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn cloned(self) -> (r: VIter<T>) requires self.pos() == 0
        ensures r.pos() == 0, r.seq() == deref_seq(self.seq()), r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == *self.seq()[i] { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_range(a: usize, b: usize) -> (r: VIter<usize>)
    ensures r.pos() == 0, a <= b ==> r.seq() == Seq::new((b - a) as nat, |i: int| (a + i) as usize), a > b ==> r.seq().len() == 0 { unimplemented!() }
pub trait VxIntoIter: Sized { type Item; spec fn vseq(&self) -> Seq<Self::Item>; fn vx_into_iter(self) -> (r: VIter<Self::Item>) where Self: Sized ensures r.pos() == 0, r.seq() == self.vseq(); }
impl<T> VxIntoIter for Vec<T> { type Item = T; open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn vseq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<'a, T> VxIntoIter for &'a [T] { type Item = &'a T; open spec fn vseq(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<&'a T>) { unimplemented!() } }
impl<T> VxIntoIter for VIter<T> { type Item = T; open spec fn vseq(&self) -> Seq<T> { if self.pos() == 0 { self.seq() } else { self.seq().skip(self.pos()) } } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) { unimplemented!() } }
pub trait VxVec<T> { spec fn vs(&self) -> Seq<T>; fn vx_iter<'a>(&self) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == Seq::new(self.vs().len(), |i: int| &self.vs()[i]), deref_seq(r.seq()) == self.vs(); fn vx_take_all(&mut self) -> (r: VIter<T>) ensures r.pos() == 0, r.seq() == old(self).vs(), final(self).vs() == Seq::<T>::empty(); }
pub trait VxToVec<T> { spec fn tv(&self) -> Seq<T>; fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tv(); }
impl<T: Clone> VxToVec<T> for [T] { open spec fn tv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() } }
pub trait VxSlice<T> { spec fn ss(&self) -> Seq<T>; fn vx_iter<'a>(&self) -> (r: VIter<&'a T>) ensures r.pos() == 0, r.seq() == Seq::new(self.ss().len(), |i: int| &self.ss()[i]), deref_seq(r.seq()) == self.ss(); }
impl<T> VxSlice<T> for [T] {
    open spec fn ss(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&self) -> (r: VIter<&'a T>) { unimplemented!() }
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vs(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter<'a>(&self) -> (r: VIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_take_all(&mut self) -> (r: VIter<T>) { unimplemented!() }
}
pub trait VxVal: Sized { fn value(&self) -> (r: &Self) ensures *r == *self; }
impl<T> VxVal for T { #[verifier::external_body] fn value(&self) -> (r: &Self) { unimplemented!() } }

/// s lists the elements of a set, each once
pub open spec fn lists<T>(s: Seq<T>, d: Set<T>) -> bool { s.no_duplicates() && (forall|x: T| #[trigger] d.contains(x) <==> s.contains(x)) }

// ---------- borrowed keys
pub trait VxBorrow<Q: ?Sized>: Sized { spec fn kb(q: &Q) -> Self; }
impl<T> VxBorrow<T> for T { open spec fn kb(q: &T) -> T { *q } }
impl VxBorrow<str> for String { open spec fn kb(q: &str) -> String { vstr(q@) } }
pub broadcast axiom fn ax_vstr_view(s: String) ensures #[trigger] vstr(s@) == s;

pub trait VxDefault: Sized { spec fn vdef(v: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::vdef(r); }

// ---------- BTreeSet
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { t: core::marker::PhantomData<T> }
impl<T> View for BTreeSet<T> { type V = Set<T>; uninterp spec fn view(&self) -> Set<T>; }
pub broadcast axiom fn ax_btreeset_ext<T>(a: BTreeSet<T>, b: BTreeSet<T>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
impl<T> BTreeSet<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, t: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(t), r == !old(self)@.contains(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, t: &Q) -> (r: bool) where T: VxBorrow<Q> ensures final(self)@ == old(self)@.remove(T::kb(t)), r == old(self)@.contains(T::kb(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: ?Sized>(&self, t: &Q) -> (r: bool) where T: VxBorrow<Q> ensures r == self@.contains(T::kb(t)) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&self) -> (r: VIter<&'a T>) ensures r.pos() == 0, deref_seq(r.seq()).len() == r.seq().len(), lists(deref_seq(r.seq()), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&self) -> (r: VIter<&'a T>) ensures r.pos() == 0, deref_seq(r.seq()).len() == r.seq().len(), lists(deref_seq(r.seq()), self@) { unimplemented!() }
}
pub open spec fn deref_seq<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }
pub uninterp spec fn set_order<T>(s: Set<T>) -> Seq<T>;
pub broadcast axiom fn ax_set_order<T>(s: BTreeSet<T>) ensures #[trigger] lists(set_order(s@), s@);
pub broadcast axiom fn ax_set_order_empty<T>() ensures #[trigger] set_order(Set::<T>::empty()) == Seq::<T>::empty();
impl<T> VxIntoIter for BTreeSet<T> { type Item = T; open spec fn vseq(&self) -> Seq<T> { set_order(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<T>) ensures lists(set_order(self@), self@) { unimplemented!() } }
impl<T> VxDefault for BTreeSet<T> { open spec fn vdef(v: Self) -> bool { v@ == Set::<T>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }

// ---------- maps: shared helpers
pub broadcast proof fn lm_reinsert<K, V>(m: Map<K, V>, k: K, v: V)
    ensures #![trigger m.remove(k).insert(k, v)] m.remove(k).insert(k, v) == m.insert(k, v), m.contains_key(k) && m[k] == v ==> m.remove(k).insert(k, v) == m
{
    assert(m.remove(k).insert(k, v) =~= m.insert(k, v));
    if m.contains_key(k) && m[k] == v { assert(m.remove(k).insert(k, v) =~= m); }
}
pub open spec fn upd<K, V>(m: Map<K, V>, k: K, s: Option<V>) -> Map<K, V> { match s { Some(v) => m.insert(k, v), None => m.remove(k) } }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct OccupiedEntry<'a, K, V> { pub k: K, pub r: &'a mut Option<V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantEntry<'a, K, V> { pub k: K, pub r: &'a mut Option<V> }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get<'b>(&self) -> (r: &'b V) requires (*old(self.r)) is Some ensures *r == (*old(self.r))->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn key<'b>(&self) -> (r: &'b K) ensures *r == self.k { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(self) -> (r: V) requires (*self.r) is Some ensures r == (*old(self.r))->0, *final(self.r) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, v: V) -> (r: V) requires (*old(self).r) is Some ensures r == (*old(self).r)->0, *final(self).r == Some(v), final(self).k == old(self).k { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V) requires (*self.r) is Some ensures *r == (*old(self.r))->0, *final(self.r) == Some(*final(r)) { unimplemented!() }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, *final(self.r) == Some(*final(r)) { unimplemented!() }
}
impl<'a, K, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures match self { Entry::Occupied(o) => *r == (*o.r)->0 && *final(o.r) == Some(*final(r)), Entry::Vacant(o) => *r == v && *final(o.r) == Some(*final(r)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
        ensures match self { Entry::Occupied(o) => *r == (*o.r)->0 && *final(o.r) == Some(*final(r)), Entry::Vacant(o) => V::vdef(*r) && *final(o.r) == Some(*final(r)) }
    { unimplemented!() }
}
// entries of a static map held across other operations (extractor: held entries)
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxOccupied<K, V> { pub k: K, pub v: V }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxVacant<K, V> { pub k: K, pub p: core::marker::PhantomData<V> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum VxEntry<K, V> { Occupied(VxOccupied<K, V>), Vacant(VxVacant<K, V>) }
impl<K, V> VxOccupied<K, V> {
    #[verifier::external_body]
    pub fn get<'b>(&self) -> (r: &'b V) ensures *r == self.v { unimplemented!() }
    #[verifier::external_body]
    pub fn key<'b>(&self) -> (r: &'b K) ensures *r == self.k { unimplemented!() }
}
impl<K, V> VxVacant<K, V> {
    #[verifier::external_body]
    pub fn key<'b>(&self) -> (r: &'b K) ensures *r == self.k { unimplemented!() }
}
pub trait VxTok<K> { spec fn tk(&self) -> K; }
impl<K, V> VxTok<K> for VxOccupied<K, V> { open spec fn tk(&self) -> K { self.k } }
impl<K, V> VxTok<K> for VxVacant<K, V> { open spec fn tk(&self) -> K { self.k } }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapRef<'a, K, V> { pub k: &'a K, pub v: &'a V }
impl<'a, K, V> MapRef<'a, K, V> {
    pub fn key(&self) -> (r: &'a K) ensures *r == *self.k { self.k }
    pub fn value(&self) -> (r: &'a V) ensures *r == *self.v { self.v }
}
impl<'a, K, V> core::ops::Deref for MapRef<'a, K, V> { type Target = V; fn deref(&self) -> (r: &V) ensures *r == *self.v { self.v } }
/// s lists the entries of a map, each once
pub open spec fn lists_map<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
pub uninterp spec fn map_order<K, V>(m: Map<K, V>) -> Seq<(K, V)>;
pub broadcast axiom fn ax_map_order_empty<K, V>() ensures #[trigger] map_order(Map::<K, V>::empty()) == Seq::<(K, V)>::empty();

pub open spec fn mr_pairs<'a, K, V>(s: Seq<MapRef<'a, K, V>>) -> Seq<(K, V)> { Seq::new(s.len(), |i: int| (*s[i].k, *s[i].v)) }
// ---------- DashMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for DashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub broadcast axiom fn ax_dash_ext<K, V>(a: DashMap<K, V>, b: DashMap<K, V>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
impl<K, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn get<'a, Q: ?Sized>(&self, k: &Q) -> (r: Option<&'a V>) where K: VxBorrow<Q> ensures r is Some <==> self@.contains_key(K::kb(k)), r is Some ==> *r->0 == self@[K::kb(k)] { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) where K: VxBorrow<Q> ensures r == self@.contains_key(K::kb(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<(K, V)>) where K: VxBorrow<Q> ensures final(self)@ == old(self)@.remove(K::kb(k)), r == (if old(self)@.contains_key(K::kb(k)) { Some((K::kb(k), old(self)@[K::kb(k)])) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>) where K: VxBorrow<Q>
        ensures r is Some <==> old(self)@.contains_key(K::kb(k)), r matches Some(p) ==> *p == old(self)@[K::kb(k)] && final(self)@ == old(self)@.insert(K::kb(k), *final(p)), r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.contains_key(*k) { Some(old(self)@[*k]) } else { None }), r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_put(&mut self, k: &K, v: V) ensures final(self)@ == old(self)@.insert(*k, v), forall|o: DashMap<K, V>| #[trigger] o@ == final(self)@ ==> o == *final(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.k == k && *o.r == Some(old(self)@[k]) && final(self)@ == upd(old(self)@, k, *final(o.r)) && (*final(o.r) == *o.r ==> *final(self) == *old(self)),
            Entry::Vacant(o) => !old(self)@.contains_key(k) && o.k == k && *o.r is None && final(self)@ == upd(old(self)@, k, *final(o.r)) && (*final(o.r) == *o.r ==> *final(self) == *old(self)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry(&self, k: K) -> (r: VxEntry<K, V>)
        ensures match r { VxEntry::Occupied(o) => self@.contains_key(k) && o.k == k && o.v == self@[k], VxEntry::Vacant(o) => !self@.contains_key(k) && o.k == k }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_insert<T: VxTok<K>>(&mut self, t: T, v: V) ensures final(self)@ == old(self)@.insert(t.tk(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_entry_remove(&mut self, t: VxOccupied<K, V>) -> (r: V) ensures final(self)@ == old(self)@.remove(t.k), r == t.v { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&self) -> (r: VIter<MapRef<'a, K, V>>) ensures r.pos() == 0, lists_map(mr_pairs(r.seq()), self@) { unimplemented!() }
}

// ---------- BTreeMap
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K, V> View for BTreeMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
pub broadcast axiom fn ax_btreemap_ext<K, V>(a: BTreeMap<K, V>, b: BTreeMap<K, V>) ensures #![trigger a@, b@] a@ == b@ ==> a == b;
pub broadcast axiom fn ax_map_order<K, V>(m: BTreeMap<K, V>) ensures #[trigger] lists_map(map_order(m@), m@);
impl<K, V> BTreeMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<'a, Q: ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>) where K: VxBorrow<Q> ensures r is Some <==> self@.contains_key(K::kb(k)), r is Some ==> *r->0 == self@[K::kb(k)] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'a, Q: ?Sized>(&'a mut self, k: &Q) -> (r: Option<&'a mut V>) where K: VxBorrow<Q>
        ensures r is Some <==> old(self)@.contains_key(K::kb(k)), r matches Some(p) ==> *p == old(self)@[K::kb(k)] && final(self)@ == old(self)@.insert(K::kb(k), *final(p)), r is None ==> final(self)@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, k: &Q) -> (r: bool) where K: VxBorrow<Q> ensures r == self@.contains_key(K::kb(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.contains_key(k) { Some(old(self)@[k]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, k: &Q) -> (r: Option<V>) where K: VxBorrow<Q> ensures final(self)@ == old(self)@.remove(K::kb(k)), r == (if old(self)@.contains_key(K::kb(k)) { Some(old(self)@[K::kb(k)]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(o) => old(self)@.contains_key(k) && o.k == k && *o.r == Some(old(self)@[k]) && final(self)@ == upd(old(self)@, k, *final(o.r)) && (*final(o.r) == *o.r ==> *final(self) == *old(self)),
            Entry::Vacant(o) => !old(self)@.contains_key(k) && o.k == k && *o.r is None && final(self)@ == upd(old(self)@, k, *final(o.r)) && (*final(o.r) == *o.r ==> *final(self) == *old(self)) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&self) -> (r: VIter<(&'a K, &'a V)>) ensures r.pos() == 0, lists_map(map_order(self@), self@), r.seq() == refpairs(map_order(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter<'a>(&self) -> (r: VIter<(&'a K, &'a V)>) ensures r.pos() == 0, lists_map(map_order(self@), self@), r.seq() == refpairs(map_order(self@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&self) -> (r: VIter<&'a V>) ensures r.pos() == 0, lists_map(map_order(self@), self@), r.seq() == Seq::new(map_order(self@).len(), |i: int| &map_order(self@)[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&self) -> (r: VIter<&'a K>) ensures r.pos() == 0, lists_map(map_order(self@), self@), r.seq() == Seq::new(map_order(self@).len(), |i: int| &map_order(self@)[i].0) { unimplemented!() }
}
pub open spec fn refpairs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<K, V> VxIntoIter for BTreeMap<K, V> { type Item = (K, V); open spec fn vseq(&self) -> Seq<(K, V)> { map_order(self@) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VIter<(K, V)>) ensures lists_map(map_order(self@), self@) { unimplemented!() } }
impl<K, V> VxDefault for BTreeMap<K, V> { open spec fn vdef(v: Self) -> bool { v@ == Map::<K, V>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl<K, V> VxDefault for DashMap<K, V> { open spec fn vdef(v: Self) -> bool { v@ == Map::<K, V>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for bool { open spec fn vdef(v: Self) -> bool { !v } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
impl VxDefault for usize { open spec fn vdef(v: Self) -> bool { v == 0 } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
pub trait VxOrDefault<T> { fn vx_or_default(self) -> (r: T); }
impl<T: VxDefault> VxOrDefault<T> for Option<T> { #[verifier::external_body] fn vx_or_default(self) -> (r: T) ensures match self { Some(t) => r == t, None => T::vdef(r) } { unimplemented!() } }
impl<T> VxDefault for Vec<T> { open spec fn vdef(v: Self) -> bool { v@ == Seq::<T>::empty() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }

// ---------- Option / Result combinators without closures
pub trait VxCloned { type O; spec fn cl(&self) -> Self::O; fn vx_cloned(self) -> (r: Self::O) where Self: Sized ensures r == self.cl(); }
impl<'a, T> VxCloned for Option<&'a T> { type O = Option<T>; open spec fn cl(&self) -> Option<T> { match self { Some(t) => Some(**t), None => None } } #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() } }
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(x), None => b });

pub trait VxUnwrap { type O; spec fn is_val(&self, o: Self::O) -> bool; fn vx_unwrap(self) -> (r: Self::O) where Self: Sized ensures self.is_val(r); }
impl<T> VxUnwrap for Option<T> { type O = T; open spec fn is_val(&self, o: T) -> bool { *self == Some(o) } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } }
impl<T, E> VxUnwrap for Result<T, E> { type O = T; open spec fn is_val(&self, o: T) -> bool { *self == Ok::<T, E>(o) } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } }
// ---------- AnyBox (Box<dyn Any + Send>)
#[verifier::external_body]
pub struct AnyBox { x: u8 }
pub uninterp spec fn anybox<T>(t: T) -> AnyBox;
pub uninterp spec fn is_any<T>(a: AnyBox) -> bool;
pub uninterp spec fn any_val<T>(a: AnyBox) -> T;
pub broadcast axiom fn ax_anybox<T>(t: T) ensures #[trigger] is_any::<T>(anybox(t)), any_val::<T>(anybox(t)) == t;
pub broadcast axiom fn ax_anybox2<T>(a: AnyBox) ensures #[trigger] is_any::<T>(a) ==> anybox(any_val::<T>(a)) == a;
#[verifier::external_body]
pub fn vx_any_box<T>(t: T) -> (r: AnyBox) ensures r == anybox(t) { unimplemented!() }
impl AnyBox {
    #[verifier::external_body]
    pub fn downcast_ref<'a, T>(&self) -> (r: Option<&'a T>) ensures r is Some <==> is_any::<T>(*self), r matches Some(t) ==> *t == any_val::<T>(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn downcast<T>(self) -> (r: Result<Box<T>, AnyBox>) ensures r is Ok <==> is_any::<T>(self), r matches Ok(t) ==> *t == any_val::<T>(self), r matches Err(e) ==> e == self { unimplemented!() }
}
// ---------- message serialization (rmp_serde): a function of the value
//@assume rmp_serde: serializing a value is a function of the value (ser_vec); decoding is a function of the bytes (de_val)
pub uninterp spec fn ser_vec<M>(m: M) -> Vec<u8>;
pub uninterp spec fn de_val<M>(v: Vec<u8>) -> Option<M>;

#[verifier::external_body]
pub fn vx_dup<T>(t: &T) -> (r: T) ensures r == *t { unimplemented!() }
pub trait VxSet<T> { spec fn vxs(&self) -> Seq<T>; fn vx_set(&mut self, i: usize, t: T) requires i < old(self).vxs().len() ensures final(self).vxs() == old(self).vxs().update(i as int, t); }
impl<T> VxSet<T> for Vec<T> { open spec fn vxs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_set(&mut self, i: usize, t: T) { unimplemented!() } }
pub use core::marker::PhantomData;
pub struct IoError { pub x: u8 }
// ---------- atomics
pub enum Ordering { Relaxed, SeqCst, Acquire, Release, AcqRel }
#[verifier::external_body]
pub struct AtomicU64 { x: u64 }
impl View for AtomicU64 { type V = u64; uninterp spec fn view(&self) -> u64; }
impl AtomicU64 {
    /// ids are counters that never wrap in practice: 2^64 allocations are assumed not to happen
    #[verifier::external_body]
    pub fn fetch_add(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self)@, final(self)@ == old(self)@ + n, r < u64::MAX - n { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self)@, old(self)@ >= n ==> final(self)@ == old(self)@ - n { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_max(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self)@, final(self)@ == (if n > old(self)@ { n } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> (r: u64) ensures r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, n: u64, o: Ordering) ensures final(self)@ == n { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&mut self, n: u64, o: Ordering) -> (r: u64) ensures r == old(self)@, final(self)@ == n { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&mut self, cur: u64, n: u64, o: Ordering, p: Ordering) -> (r: Result<u64, u64>)
        ensures old(self)@ == cur ==> r == Ok::<u64, u64>(cur) && final(self)@ == n, old(self)@ != cur ==> r == Err::<u64, u64>(old(self)@) && final(self)@ == old(self)@ { unimplemented!() }
}

// ---------- time
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Duration { x: u64 }
impl Duration {
    pub uninterp spec fn ns(&self) -> nat;
    #[verifier::external_body]
    pub fn from_secs(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn from_millis(s: u64) -> (r: Duration) ensures r.ns() == s * 1_000_000 { unimplemented!() }
}
#[verifier::external_body]
#[derive(Copy, Clone)]
pub struct Instant { x: u64 }
impl Instant {
    pub uninterp spec fn t(&self) -> int;
}
pub assume_specification<T>[ std::mem::drop::<T> ](t: T);

pub broadcast group vx_base_axioms { ax_string_eq, ax_string_inj, ax_string_obeys, ax_string_obeys2, ax_string_eq2, ax_string_obeys3, ax_string_eq3, ax_vstr, ax_vstr_view, ax_anybox, ax_anybox2, ax_btreeset_ext, ax_btreemap_ext, ax_set_order, ax_set_order_empty, ax_map_order, ax_map_order_empty, ax_nz, ax_nz2, ax_dash_ext, lm_reinsert }
