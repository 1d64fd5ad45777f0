//# HashRing (C18)
@fn hash_ring::Node::new(key, node) nw
  ensures r.key == key, r.node == node,
@fn hash_ring::HashRing::hash_key(self, key) nw
  ensures r == hash_of::<K>(self.hash_builder, key),
@fn hash_ring::HashRing::new() nw
  ensures ring_wf(r), ring_of(r) == Map::<u64, T>::empty(), r.overrides@ == Map::<u64, T>::empty(),

@fn hash_ring::HashRing::add_node(self, key, node) nw mutself
  requires ring_wf(*old(self)),
  ensures ring_wf(*final(self)), *final(self) == (HashRing { ring: final(self).ring, ..*old(self) }),
    ring_of(*final(self)) == ring_of(*old(self)).insert(hash_of::<K>(old(self).hash_builder, key), node),
    r == old_of(ring_of(*old(self)), hash_of::<K>(old(self).hash_builder, key)),
@entry
  proof { lm_members(self.ring@@); }
@closure binary_search_by
  |__vxc: &Node<T>| -> (o: core::cmp::Ordering) ensures o == ord64(__vxc.key, key)

@fn hash_ring::HashRing::remove_node(self, key) nw mutself
  requires ring_wf(*old(self)),
  ensures ring_wf(*final(self)), *final(self) == (HashRing { ring: final(self).ring, ..*old(self) }),
    ring_of(*final(self)) == ring_of(*old(self)).remove(hash_of::<K>(old(self).hash_builder, key)),
    r == old_of(ring_of(*old(self)), hash_of::<K>(old(self).hash_builder, key)),
@entry
  proof { lm_members(self.ring@@); }
@closure binary_search_by
  |__vxc: &Node<T>| -> (o: core::cmp::Ordering) ensures o == ord64(__vxc.key, key)

@fn hash_ring::HashRing::add_nodes(self, nodes) nw mutself inst.I=Vec<(K,T)>
  requires ring_wf(*old(self)),
  ensures ring_wf(*final(self)), *final(self) == (HashRing { ring: final(self).ring, ..*old(self) }),
    ring_of(*final(self)) == put_all(old(self).hash_builder, ring_of(*old(self)), nodes@, nodes@.len() as int),
@entry
  let ghost s0 = nodes@; let ghost m0 = ring_of(*self); let ghost self0 = *self;
@closure binary_search_by
  |__vxc: &Node<T>| -> (o: core::cmp::Ordering) ensures o == ord64(__vxc.key, key)
@loop 0
  *self == self0, sorted(new_ring@), __s0 == s0, members(new_ring@) == put_all(self0.hash_builder, m0, s0, __it0.pos()),

@fn hash_ring::HashRing::set_nodes(self, nodes) nw mutself inst.I=Vec<(K,T)>
  requires ring_wf(*old(self)),
  ensures ring_wf(*final(self)), *final(self) == (HashRing { ring: final(self).ring, ..*old(self) }),
    ring_of(*final(self)) == put_all(old(self).hash_builder, Map::empty(), nodes@, nodes@.len() as int),
@entry
  let ghost s0 = nodes@; let ghost m0 = Map::<u64, T>::empty(); let ghost self0 = *self;
@closure binary_search_by
  |__vxc: &Node<T>| -> (o: core::cmp::Ordering) ensures o == ord64(__vxc.key, key)
@loop 0
  *self == self0, sorted(new_ring@), __s0 == s0, members(new_ring@) == put_all(self0.hash_builder, m0, s0, __it0.pos()),

@fn hash_ring::HashRing::find_node(self, key) nw
  requires ring_wf(*self),
  ensures found(ring_of(*self), self.overrides@, hash_of::<K>(self.hash_builder, key), r),
@entry
  proof { lm_members(self.ring@@); lm_owner(self.ring@@, hash_of::<K>(self.hash_builder, key)); }
@closure binary_search_by
  |__vxc: &Node<T>| -> (o: core::cmp::Ordering) ensures o == ord64(__vxc.key, key__i0)

@fn hash_ring::HashRing::add_override(self, key, node) nw mutself
  ensures *final(self) == (HashRing { overrides: final(self).overrides, ..*old(self) }),
    final(self).overrides@ == old(self).overrides@.insert(hash_of::<K>(old(self).hash_builder, key), node), r == old_of(old(self).overrides@, hash_of::<K>(old(self).hash_builder, key)),
@fn hash_ring::HashRing::remove_override(self, key) nw mutself
  ensures *final(self) == (HashRing { overrides: final(self).overrides, ..*old(self) }),
    final(self).overrides@ == old(self).overrides@.remove(hash_of::<K>(old(self).hash_builder, key)), r == old_of(old(self).overrides@, hash_of::<K>(old(self).hash_builder, key)),
@fn hash_ring::HashRing::add_overrides(self, overrides) nw mutself inst.I=Vec<(K,T)>
  ensures *final(self) == (HashRing { overrides: final(self).overrides, ..*old(self) }),
    final(self).overrides@ == put_all(old(self).hash_builder, old(self).overrides@, overrides@, overrides@.len() as int),
@entry
  let ghost s0 = overrides@; let ghost m0 = self.overrides@; let ghost self0 = *self;
@loop 0
  __s0 == s0, *self == (HashRing { overrides: self.overrides, ..self0 }), self.overrides@ == put_all(self0.hash_builder, m0, s0, __it0.pos()),
@fn hash_ring::HashRing::set_overrides(self, overrides) nw mutself inst.I=Vec<(K,T)>
  ensures *final(self) == (HashRing { overrides: final(self).overrides, ..*old(self) }),
    final(self).overrides@ == put_all(old(self).hash_builder, Map::empty(), overrides@, overrides@.len() as int),
@entry
  let ghost s0 = overrides@; let ghost m0 = Map::<u64, T>::empty(); let ghost self0 = *self;
@loop 0
  __s0 == s0, *self == (HashRing { overrides: self.overrides, ..self0 }), self.overrides@ == put_all(self0.hash_builder, m0, s0, __it0.pos()),
@fn hash_ring::HashRing::clear(self) nw mutself
  ensures *final(self) == (HashRing { ring: final(self).ring, overrides: final(self).overrides, ..*old(self) }), ring_wf(*final(self)), ring_of(*final(self)) == Map::<u64, T>::empty(), final(self).overrides@ == Map::<u64, T>::empty(),
