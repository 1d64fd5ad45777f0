@fn serialize::serialize_value(value) nw trusted
  ensures r == ser_vec(*value),
@fn frame_send::SendTarget#From<Pid>::from(value) nw panics
@from_spec
  SendTarget::Pid(nz(pidid(value)))
@fn frame_send::SendTarget#From<Reference>::from(value) nw panics
@from_spec
  SendTarget::Alias(nz(refid(value)))
@fn frame_send::SendTarget#From<CowStr>::from(value) nw
@from_spec
  SendTarget::Named(vstr(value@))
@fn process_item::ProcessItem#From<Message<T>>::from(value) nw anybox
@from_spec
  match value { Message::User(u) => user_item(u), Message::System(s) => ProcessItem::SystemMessage(s) }

@fn process_kernel::process_send_optimal(dest, message)
  requires to_local_pid(dest) || nodes_wf(*old(w)) && sp_wf(*old(w)) && ids_wf(*old(w)) && names_nz(*old(w)),
  ensures
    nodes_wf(*old(w)) ==> nodes_wf(*final(w)), sp_wf(*old(w)) ==> sp_wf(*final(w)), ids_wf(*old(w)) ==> ids_wf(*final(w)),
    dest_local(dest) ==> *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) })
      && final(w).ALIASES@ =~= deliver_w(*old(w), dest, user_item(message)).0 && final(w).mail@ =~= deliver_w(*old(w), dest, user_item(message)).1,
    !dest_local(dest) ==> *final(w) == (World { wire: final(w).wire, ..node_frame(*old(w), *final(w)) }) && map_grows(old(w).NODE_MAP@, final(w).NODE_MAP@)
      && final(w).wire@.len() == old(w).wire@.len() + 1 && final(w).wire@ =~= old(w).wire@.push(final(w).wire@.last())
      && final(w).wire@.last().1 == node_of(final(w).NODE_MAP@, dest) && is_send(final(w).wire@.last().0, seq![target_of(dest)], ser_vec(message)),
    !dest_local(dest) && !(dest is Named) ==> *final(w) == (World { wire: final(w).wire, ..*old(w) }),

@fn process_kernel::process_send_unoptimal(dest, message)
  requires dest_local(dest), names_nz(*old(w)), reg_wf(*old(w)),
  ensures
    *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) }),
    final(w).ALIASES@ =~= deliver_w(*old(w), dest, ProcessItem::UserRemoteMessage(message)).0, final(w).mail@ =~= deliver_w(*old(w), dest, ProcessItem::UserRemoteMessage(message)).1,

@fn process_kernel::process_send(dests, message)
  requires (dests is Dest && to_local_pid(dests->Dest_0)) || nodes_wf(*old(w)) && sp_wf(*old(w)) && ids_wf(*old(w)) && names_nz(*old(w)),
  ensures
    nodes_wf(*old(w)) ==> nodes_wf(*final(w)), sp_wf(*old(w)) ==> sp_wf(*final(w)), ids_wf(*old(w)) ==> ids_wf(*final(w)),
    dests is Dest && dest_local(dests->Dest_0) ==> *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) }),
    *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, wire: final(w).wire, ..node_frame(*old(w), *final(w)) }),
    map_grows(old(w).NODE_MAP@, final(w).NODE_MAP@),
    dests matches Dests::Dest(d) ==>
      (dest_local(d) ==> final(w).ALIASES@ =~= deliver_w(*old(w), d, user_item(message)).0 && final(w).mail@ =~= deliver_w(*old(w), d, user_item(message)).1 && final(w).wire == old(w).wire)
      && (!dest_local(d) ==> final(w).ALIASES == old(w).ALIASES && final(w).mail == old(w).mail && final(w).wire@.len() == old(w).wire@.len() + 1 && final(w).wire@ =~= old(w).wire@.push(final(w).wire@.last())
         && final(w).wire@.last().1 == node_of(final(w).NODE_MAP@, d) && is_send(final(w).wire@.last().0, seq![target_of(d)], ser_vec(message))),
    dests matches Dests::Dests(v) ==> ({
        let s = v@;
        &&& final(w).ALIASES@ =~= deliver_end(*old(w), s, message).0 && final(w).mail@ =~= deliver_end(*old(w), s, message).1
        &&& send_frames(old(w).wire@, final(w).wire@, final(w).NODE_MAP@, s, ser_vec(message))
    }),
@entry
  let ghost sv = (if dests is Dests { dests->Dests_0@ } else { Seq::empty() });
@loop 0
  __s0 == sv,
  nodes_wf(*w), sp_wf(*w), ids_wf(*w), names_nz(*w),
  *w == (World { ALIASES: w.ALIASES, mail: w.mail, ..node_frame(*old(w), *w) }),
  map_grows(old(w).NODE_MAP@, w.NODE_MAP@),
  w.ALIASES@ =~= deliver_rest(old(w).PROCESS_NAMES@, old(w).PROCESS_REGISTRY@, old(w).open@, (old(w).ALIASES@, old(w).mail@), __s0, __it0.pos(), ProcessItem::UserRemoteMessage(ser_vec(message))).0,
  w.mail@ =~= deliver_rest(old(w).PROCESS_NAMES@, old(w).PROCESS_REGISTRY@, old(w).open@, (old(w).ALIASES@, old(w).mail@), __s0, __it0.pos(), ProcessItem::UserRemoteMessage(ser_vec(message))).1,
  first_local_process is Some <==> first_local(__s0, __it0.pos()) >= 0,
  first_local_process matches Some(d) ==> d == __s0[first_local(__s0, __it0.pos())] && dest_local(d),
  serialized matches Some(v) ==> v == ser_vec(message),
  dests_known(w.NODE_MAP@, __s0, __it0.pos()),
  forall|n: u64| #[trigger] remote_sends@.contains_key(n) <==> some_target(w.NODE_MAP@, __s0, __it0.pos(), n),
  forall|n: u64| #[trigger] remote_sends@.contains_key(n) ==> remote_sends@[n].message == ser_vec(message) && remote_sends@[n].targets@ =~= targets_of(w.NODE_MAP@, __s0, __it0.pos(), n),
@loop_start 0
  let ghost m0 = w.NODE_MAP@; let ghost k0 = __it0.pos(); let ghost rs0 = remote_sends@;
  proof { lm_first_local(__s0, k0); lm_first_local(__s0, k0 + 1);
    assert forall|n: u64| !some_target(m0, __s0, k0, n) implies #[trigger] targets_of(m0, __s0, k0, n) =~= Seq::<SendTarget>::empty() by { lm_no_target(m0, __s0, k0, n); } }
@loop_end 0
  proof {
    let m1 = w.NODE_MAP@;
    assert forall|n: u64| targets_of(m1, __s0, k0, n) == targets_of(m0, __s0, k0, n) && some_target(m0, __s0, k0, n) == some_target(m1, __s0, k0, n) by { lm_targets_grow(m0, m1, __s0, k0, n); }
    lm_targets_grow(m0, m1, __s0, k0, 0);
    assert forall|n: u64| #[trigger] some_target(m1, __s0, k0 + 1, n) <==> some_target(m1, __s0, k0, n) || (!dest_local(__s0[k0]) && node_of(m1, __s0[k0]) == n) by {
      if some_target(m1, __s0, k0, n) { let j = choose|j: int| 0 <= j < k0 && !dest_local(#[trigger] __s0[j]) && node_of(m1, __s0[j]) == n; assert(!dest_local(__s0[j])); }
      if some_target(m1, __s0, k0 + 1, n) { let j = choose|j: int| 0 <= j < k0 + 1 && !dest_local(#[trigger] __s0[j]) && node_of(m1, __s0[j]) == n; assert(!dest_local(__s0[j])); }
    }
  }
@before_loop 1
  let ghost rl = remote_sends@; let ghost rs1 = map_order(rl); let ghost nm1 = w.NODE_MAP@;
@loop 1
  nodes_wf(*w), sp_wf(*w), ids_wf(*w), names_nz(*w),
  *w == (World { ALIASES: w.ALIASES, mail: w.mail, wire: w.wire, ..node_frame(*old(w), *w) }),
  w.NODE_MAP@ == nm1,
  lists_map(__s1, rl), __s1 == rs1,
  w.ALIASES@ =~= deliver_end(*old(w), sv, message).0, w.mail@ =~= deliver_end(*old(w), sv, message).1,
  w.wire@.len() == old(w).wire@.len() + __it1.pos(),
  forall|j: int| 0 <= j < old(w).wire@.len() ==> #[trigger] w.wire@[j] == old(w).wire@[j],
  forall|j: int| old(w).wire@.len() <= j < w.wire@.len() ==> is_send((#[trigger] w.wire@[j]).0, targets_of(nm1, sv, sv.len() as int, w.wire@[j].1), ser_vec(message)) && w.wire@[j].1 == __s1[j - old(w).wire@.len()].0,
@after_loop 1
  proof {
    assert forall|n: u64| #[trigger] some_target(nm1, sv, sv.len() as int, n) implies exists|j: int| old(w).wire@.len() <= j < w.wire@.len() && (#[trigger] w.wire@[j]).1 == n by {
      assert(rl.contains_key(n)); let k = choose|k: int| 0 <= k < rs1.len() && (#[trigger] rs1[k]).0 == n; assert(w.wire@[old(w).wire@.len() + k].1 == n); }
    assert(w.ALIASES@ =~= deliver_end(*old(w), sv, message).0);
    assert(w.mail@ =~= deliver_end(*old(w), sv, message).1);
    assert forall|j: int| old(w).wire@.len() <= j < w.wire@.len() implies some_target(nm1, sv, sv.len() as int, (#[trigger] w.wire@[j]).1) by { assert(rs1[j - old(w).wire@.len()].0 == w.wire@[j].1); assert(rl.contains_key(w.wire@[j].1)); }
    assert forall|i: int, j: int| old(w).wire@.len() <= i < j < w.wire@.len() implies (#[trigger] w.wire@[i]).1 != (#[trigger] w.wire@[j]).1 by { assert(rs1[i - old(w).wire@.len()].0 != rs1[j - old(w).wire@.len()].0); }
  }

@fn node_kernel::node_process_send_exit(pid, from, exit_reason)
  ensures *final(w) == (World { wire: final(w).wire, ..*old(w) }),
    final(w).wire@ == old(w).wire@.push((Frame::Exit(Exit { process_id: pidid(pid), from_id: pidid(from), exit_reason }), pidnode(pid))),

@fn node_kernel::node_process_send_with_pid(pid, message) panics
  ensures pid is Remote, *final(w) == (World { wire: final(w).wire, ..*old(w) }),
    final(w).wire@ =~= old(w).wire@.push(final(w).wire@.last()), final(w).wire@.last().1 == pidnode(pid), is_send(final(w).wire@.last().0, seq![SendTarget::Pid(nz(pidid(pid)))], ser_vec(message)),
@fn node_kernel::node_process_send_with_alias(reference, message) panics
  ensures reference is Remote, *final(w) == (World { wire: final(w).wire, ..*old(w) }),
    final(w).wire@ =~= old(w).wire@.push(final(w).wire@.last()), final(w).wire@.last().1 == refnode(reference), is_send(final(w).wire@.last().0, seq![SendTarget::Alias(nz(refid(reference)))], ser_vec(message)),
@fn node_kernel::node_process_send_with_name(name, node, message)
  requires nodes_wf(*old(w)), sp_wf(*old(w)), ids_wf(*old(w)), node is Remote,
  ensures
    nodes_wf(*final(w)), sp_wf(*final(w)), ids_wf(*final(w)),
    *final(w) == (World { wire: final(w).wire, ..node_frame(*old(w), *final(w)) }), map_grows(old(w).NODE_MAP@, final(w).NODE_MAP@), final(w).NODE_MAP@.contains_key(node),
    final(w).wire@ =~= old(w).wire@.push(final(w).wire@.last()), final(w).wire@.last().1 == final(w).NODE_MAP@[node], is_send(final(w).wire@.last().0, seq![SendTarget::Named(name)], ser_vec(message)),

@fn node_kernel::node_forward_send(send)
  requires names_nz(*old(w)), reg_wf(*old(w)),
  ensures
    *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) }),
    ({ let b = deliver_targets(old(w).PROCESS_NAMES@, old(w).PROCESS_REGISTRY@, old(w).open@, (old(w).ALIASES@, old(w).mail@), send.targets@, send.targets@.len() as int, ProcessItem::UserRemoteMessage(send.message));
       final(w).ALIASES@ =~= b.0 && final(w).mail@ =~= b.1 }),
@entry
  let ghost s0 = send.targets@; let ghost msg = send.message;
@loop 0
  __s0 == s0,
  *w == (World { ALIASES: w.ALIASES, mail: w.mail, ..*old(w) }),
  is_single_target == (s0.len() == 1),
  !is_single_target || __it0.pos() == 0 ==> send.message == msg,
  w.ALIASES@ =~= deliver_targets(old(w).PROCESS_NAMES@, old(w).PROCESS_REGISTRY@, old(w).open@, (old(w).ALIASES@, old(w).mail@), s0, __it0.pos(), ProcessItem::UserRemoteMessage(msg)).0,
  w.mail@ =~= deliver_targets(old(w).PROCESS_NAMES@, old(w).PROCESS_REGISTRY@, old(w).open@, (old(w).ALIASES@, old(w).mail@), s0, __it0.pos(), ProcessItem::UserRemoteMessage(msg)).1,
