// HashRing: library models and spec vocabulary (C18)
//@hofn binary_search_by
pub broadcast proof fn lm_small_mod(a: int, b: int) ensures (0 <= a < b ==> #[trigger] (a % b) == a), (a == b && b > 0 ==> a % b == 0)
{
    if 0 <= a < b { vstd::arithmetic::div_mod::lemma_small_mod(a as nat, b as nat); }
    if a == b && b > 0 { vstd::arithmetic::div_mod::lemma_mod_self_0(b); }
}
pub broadcast group vx_axioms { lm_small_mod, vx_base_axioms, lm_insert, lm_update, lm_remove }
//@assume arc_swap: store replaces the value, load returns the last one stored; std binary search on a sorted vector finds the key or its insertion point; BuildHasher::hash_one is a function of builder and key
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ArcSwap<T> { t: core::marker::PhantomData<T> }
impl<T> View for ArcSwap<T> { type V = T; uninterp spec fn view(&self) -> T; }
impl<T> ArcSwap<T> {
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Self) ensures r@ == t { unimplemented!() }
    #[verifier::external_body]
    pub fn load<'a>(&self) -> (r: &'a T) ensures *r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&mut self, t: T) ensures final(self)@ == t { unimplemented!() }
}
#[verifier::external_body]
pub struct RandomState { x: u8 }
pub uninterp spec fn hash_of<K>(s: RandomState, k: K) -> u64;
impl RandomState {
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn hash_one<K>(&self, k: K) -> (r: u64) ensures r == hash_of::<K>(*self, k) { unimplemented!() }
}
pub open spec fn ord64(a: u64, b: u64) -> core::cmp::Ordering { if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
pub trait VxSearch<T> {
    spec fn vsr(&self) -> Seq<T>;
    fn vx_binary_search_by<F: Fn(&T) -> core::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>)
        requires forall|i: int| 0 <= i < self.vsr().len() ==> call_requires(f, (&#[trigger] self.vsr()[i],)),
        ensures match r {
            Ok(i) => i < self.vsr().len() && call_ensures(f, (&self.vsr()[i as int],), core::cmp::Ordering::Equal),
            Err(i) => i <= self.vsr().len() && (i > 0 ==> call_ensures(f, (&self.vsr()[i - 1],), core::cmp::Ordering::Less)) && (i < self.vsr().len() ==> call_ensures(f, (&self.vsr()[i as int],), core::cmp::Ordering::Greater)),
        };
    fn vx_replace(&mut self, i: usize, t: T) -> (r: T) requires i < old(self).vsr().len() ensures r == old(self).vsr()[i as int], final(self).vsr() == old(self).vsr().update(i as int, t);
}
impl<T> VxSearch<T> for Vec<T> {
    open spec fn vsr(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_binary_search_by<F: Fn(&T) -> core::cmp::Ordering>(&self, f: F) -> (r: Result<usize, usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_replace(&mut self, i: usize, t: T) -> (r: T) { unimplemented!() }
}

// ---- specification
pub open spec fn sorted<T>(s: Seq<Node<T>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).key < (#[trigger] s[j]).key }
/// the members of the ring: position -> node
pub open spec fn members<T>(s: Seq<Node<T>>) -> Map<u64, T> decreases s.len() { if s.len() == 0 { Map::empty() } else { members(s.drop_last()).insert(s.last().key, s.last().node) } }
/// position k owns hash h: the first member at or after h, or the first member of all
pub open spec fn owns(d: Set<u64>, h: u64, k: u64) -> bool {
    d.contains(k) && ((k >= h && forall|j: u64| #[trigger] d.contains(j) && j >= h ==> j >= k) || ((forall|j: u64| #[trigger] d.contains(j) ==> j < h && j >= k)))
}
pub open spec fn ring_of<T>(r: HashRing<T>) -> Map<u64, T> { members(r.ring@@) }
pub open spec fn ring_wf<T>(r: HashRing<T>) -> bool { sorted(r.ring@@) }
/// what a lookup of hash h must return: only members and overrides matter
pub open spec fn found<T>(m: Map<u64, T>, o: Map<u64, T>, h: u64, r: Option<T>) -> bool {
    if o.contains_key(h) { r == Some(o[h]) } else if m.dom() =~= Set::<u64>::empty() { r is None } else { exists|k: u64| #[trigger] owns(m.dom(), h, k) && r == Some(m[k]) }
}
pub open spec fn old_of<T>(m: Map<u64, T>, k: u64) -> Option<T> { if m.contains_key(k) { Some(m[k]) } else { None } }
pub open spec fn put_all<K, T>(s: RandomState, m: Map<u64, T>, q: Seq<(K, T)>, n: int) -> Map<u64, T> decreases n { if n <= 0 { m } else { put_all(s, m, q, n - 1).insert(hash_of::<K>(s, q[n - 1].0), q[n - 1].1) } }

pub proof fn lm_members<T>(s: Seq<Node<T>>)
    requires sorted(s)
    ensures forall|k: u64| #[trigger] members(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k,
        forall|i: int| 0 <= i < s.len() ==> members(s)[(#[trigger] s[i]).key] == s[i].node,
        s.len() == 0 ==> members(s) == Map::<u64, T>::empty(),
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert(sorted(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).key < (#[trigger] t[j]).key by { assert(t[i] == s[i] && t[j] == s[j]); } }
        lm_members(t);
        assert forall|k: u64| #[trigger] members(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k by {
            if members(s).contains_key(k) { if k == s.last().key { assert(s[s.len() - 1].key == k); } else { assert(members(t).contains_key(k)); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).key == k; assert(s[i].key == k); } }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k; if i < t.len() { assert(t[i].key == k); assert(members(t).contains_key(k)); } }
        }
        assert forall|i: int| 0 <= i < s.len() implies members(s)[(#[trigger] s[i]).key] == s[i].node by { if i < t.len() { assert(t[i] == s[i]); assert(s[i].key < s[s.len() - 1].key); } }
    }
}
pub proof fn lm_same<T>(s: Seq<Node<T>>, m: Map<u64, T>)
    requires sorted(s), forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).key) && m[s[i].key] == s[i].node, forall|k: u64| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k
    ensures members(s) == m
{
    lm_members(s);
    assert forall|k: u64| members(s).contains_key(k) <==> #[trigger] m.contains_key(k) by {}
    assert forall|k: u64| #[trigger] m.contains_key(k) implies members(s)[k] == m[k] by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).key == k; assert(s[i].key == k); }
    assert(members(s) =~= m);
}
proof fn lm_insert_sorted<T>(s: Seq<Node<T>>, i: int, n: Node<T>)
    requires sorted(s), 0 <= i <= s.len(), i > 0 ==> s[i - 1].key < n.key, i < s.len() ==> n.key < s[i].key
    ensures sorted(s.insert(i, n)), forall|a: int| 0 <= a < i ==> (#[trigger] s[a]).key < n.key, forall|a: int| i <= a < s.len() ==> n.key < (#[trigger] s[a]).key
{
    assert forall|a: int| 0 <= a < i implies (#[trigger] s[a]).key < n.key by { if a < i - 1 { assert(s[a].key < s[i - 1].key); } }
    assert forall|a: int| i <= a < s.len() implies n.key < (#[trigger] s[a]).key by { if a > i { assert(s[i].key < s[a].key); } }
    let t = s.insert(i, n);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).key < (#[trigger] t[b]).key by {
        let sa = if a < i { s[a] } else if a == i { n } else { s[a - 1] };
        let sb = if b < i { s[b] } else if b == i { n } else { s[b - 1] };
        assert(t[a] == sa && t[b] == sb);
    }
}
proof fn lm_insert_dom<T>(s: Seq<Node<T>>, i: int, n: Node<T>, k: u64)
    requires sorted(s), 0 <= i <= s.len(), members(s).contains_key(k)
    ensures exists|a: int| 0 <= a < s.len() + 1 && (#[trigger] s.insert(i, n)[a]).key == k
{
    lm_members(s);
    let t = s.insert(i, n);
    let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == k;
    if a < i { assert(t[a].key == k); } else { assert(t[a + 1] == s[a]); assert(t[a + 1].key == k); }
}
pub broadcast proof fn lm_insert<T>(s: Seq<Node<T>>, i: int, n: Node<T>)
    requires sorted(s), 0 <= i <= s.len(), i > 0 ==> s[i - 1].key < n.key, i < s.len() ==> n.key < s[i].key
    ensures #![trigger members(s.insert(i, n))] sorted(s.insert(i, n)), members(s.insert(i, n)) == members(s).insert(n.key, n.node), !members(s).contains_key(n.key)
{
    let t = s.insert(i, n);
    lm_insert_sorted(s, i, n);
    lm_members(s);
    let m = members(s).insert(n.key, n.node);
    assert forall|a: int| 0 <= a < t.len() implies m.contains_key((#[trigger] t[a]).key) && m[t[a].key] == t[a].node by {
        if a < i { assert(t[a] == s[a]); } else if a > i { assert(t[a] == s[a - 1]); } else { assert(t[a] == n); }
    }
    assert forall|k: u64| #[trigger] m.contains_key(k) implies exists|a: int| 0 <= a < t.len() && (#[trigger] t[a]).key == k by {
        if k == n.key { assert(t[i].key == k); } else { assert(members(s).contains_key(k)); lm_insert_dom(s, i, n, k); }
    }
    lm_same(t, m);
}
pub broadcast proof fn lm_update<T>(s: Seq<Node<T>>, i: int, n: Node<T>)
    requires sorted(s), 0 <= i < s.len(), s[i].key == n.key
    ensures #![trigger members(s.update(i, n))] sorted(s.update(i, n)), members(s.update(i, n)) == members(s).insert(n.key, n.node), members(s).contains_key(n.key), members(s)[n.key] == s[i].node
{
    let t = s.update(i, n);
    lm_members(s);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).key < (#[trigger] t[b]).key by { assert(s[a].key < s[b].key); }
    let m = members(s).insert(n.key, n.node);
    assert forall|a: int| 0 <= a < t.len() implies m.contains_key((#[trigger] t[a]).key) && m[t[a].key] == t[a].node by { if a < i { assert(s[a].key < s[i].key); } else if a > i { assert(s[i].key < s[a].key); } }
    assert forall|k: u64| #[trigger] m.contains_key(k) implies exists|a: int| 0 <= a < t.len() && (#[trigger] t[a]).key == k by {
        if k == n.key { assert(t[i].key == k); } else { let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == k; assert(t[a].key == k); }
    }
    lm_same(t, m);
}
pub broadcast proof fn lm_remove<T>(s: Seq<Node<T>>, i: int)
    requires sorted(s), 0 <= i < s.len()
    ensures #![trigger members(s.remove(i))] sorted(s.remove(i)), members(s.remove(i)) == members(s).remove(s[i].key), members(s).contains_key(s[i].key), members(s)[s[i].key] == s[i].node
{
    let t = s.remove(i);
    lm_members(s);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).key < (#[trigger] t[b]).key by { let (sa, sb) = (if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 }); assert(s[sa].key < s[sb].key); }
    let m = members(s).remove(s[i].key);
    assert forall|a: int| 0 <= a < t.len() implies m.contains_key((#[trigger] t[a]).key) && m[t[a].key] == t[a].node by { if a < i { assert(s[a].key < s[i].key); assert(t[a] == s[a]); } else { assert(s[i].key < s[a + 1].key); assert(t[a] == s[a + 1]); } }
    assert forall|k: u64| #[trigger] m.contains_key(k) implies exists|a: int| 0 <= a < t.len() && (#[trigger] t[a]).key == k by {
        let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == k; if a < i { assert(t[a].key == k); } else { assert(t[a - 1].key == k); }
    }
    lm_same(t, m);
}
pub proof fn lm_absent<T>(s: Seq<Node<T>>, i: int, h: u64)
    requires sorted(s), 0 <= i <= s.len(), i > 0 ==> s[i - 1].key < h, i < s.len() ==> h < s[i].key
    ensures !members(s).contains_key(h)
{ lm_members(s); if members(s).contains_key(h) { let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == h; if a < i { assert(s[a].key <= s[i - 1].key); } else { assert(s[i].key <= s[a].key); } } }
/// the node a sorted ring yields for h
pub proof fn lm_owner<T>(s: Seq<Node<T>>, h: u64)
    requires sorted(s)
    ensures s.len() == 0 <==> members(s).dom() =~= Set::<u64>::empty(),
        forall|i: int| 0 <= i < s.len() && (i > 0 ==> s[i - 1].key < h) && h <= s[i].key ==> owns(members(s).dom(), h, (#[trigger] s[i]).key),
        s.len() > 0 && s.last().key < h ==> owns(members(s).dom(), h, s[0].key),
{
    lm_members(s);
    let d = members(s).dom();
    if s.len() > 0 { assert(members(s).contains_key(s[0].key)); assert(d.contains(s[0].key)); } else { assert(d =~= Set::<u64>::empty()); }
    assert forall|i: int| 0 <= i < s.len() && (i > 0 ==> s[i - 1].key < h) && h <= s[i].key implies owns(d, h, (#[trigger] s[i]).key) by {
        let k = s[i].key; assert(members(s).contains_key(k));
        assert forall|j: u64| #[trigger] d.contains(j) && j >= h implies j >= k by { assert(members(s).contains_key(j)); let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == j; if a < i { assert(s[a].key <= s[i - 1].key); } }
    }
    if s.len() > 0 && s.last().key < h {
        let k = s[0].key;
        assert forall|j: u64| #[trigger] d.contains(j) implies j < h && j >= k by { assert(members(s).contains_key(j)); let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).key == j; assert(s[a].key <= s[s.len() - 1].key); assert(s[0].key <= s[a].key); }
    }
}
// ---- consequences of the contracts: moves are minimal, lookups depend on the members only
pub proof fn lm_owner_unique(d: Set<u64>, h: u64, a: u64, b: u64) requires owns(d, h, a), owns(d, h, b) ensures a == b { }
/// adding a node moves keys only to that node
pub proof fn lm_add_moves(d: Set<u64>, h: u64, a: u64, k: u64, b: u64) requires owns(d, h, a), owns(d.insert(k), h, b) ensures b == a || b == k
{ if b != k { assert(d.contains(b)); assert(d.insert(k).contains(a)); assert forall|j: u64| #[trigger] d.contains(j) implies d.insert(k).contains(j) by {} assert(owns(d, h, b)) by { if b >= h { assert forall|j: u64| #[trigger] d.contains(j) && j >= h implies j >= b by { assert(d.insert(k).contains(j)); } } else { assert forall|j: u64| #[trigger] d.contains(j) implies j < h && j >= b by { assert(d.insert(k).contains(j)); } } } } }
/// removing a node moves only that node's keys
pub proof fn lm_remove_moves(d: Set<u64>, h: u64, a: u64, k: u64, b: u64) requires owns(d, h, a), a != k, owns(d.remove(k), h, b) ensures b == a
{ assert(d.remove(k).contains(a)); assert(owns(d.remove(k), h, a)) by { assert forall|j: u64| #[trigger] d.remove(k).contains(j) implies d.contains(j) by {} } lm_owner_unique(d.remove(k), h, a, b); }
