@fn process_receiver::ProcessReceiver::new() nw
  ensures r.ignore_type,
@fn process_receiver::ProcessReceiver::strict_type_checking(self) nw
  ensures !r.ignore_type,
@fn process_receiver::ProcessReceiver::for_message(self) nw
  ensures r.ignore_type == self.ignore_type,

@fn process_receiver::convert_item(item) nw panics
  ensures item is UserLocalMessage || item is SystemMessage,
    r == item_conv::<T>(item), item matches ProcessItem::UserLocalMessage(a) ==> is_any::<T>(a),

@fn process_receiver::process_item(item) statref anybox
  ensures
    *final(item) == item_after::<T>(old(w).PROCESS.monitors@, *old(item)),
    *final(w) == (World { PROCESS: final(w).PROCESS, ..*old(w) }),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, aliases: final(w).PROCESS.aliases, ..old(w).PROCESS }),
    final(w).PROCESS.monitors@ =~= mon_after(old(w).PROCESS.monitors@, *old(item)),
    final(w).PROCESS.aliases@ =~= ali_after(old(w).PROCESS.aliases@, *old(item)),
    match item_look::<T>(old(w).PROCESS.monitors@, *old(item)) {
      Look::Msg(m) => r == Ok::<Option<Message<&'static T>>, ()>(Some(mref(m))),
      Look::Skip => r == Ok::<Option<Message<&'static T>>, ()>(None),
      Look::Bad => r is Err,
    },

@fn process_receiver::ProcessReceiver::select(self, filter) onself statref hofn panics
  requires total_filter::<T, F>(filter),
  ensures
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, aliases: final(w).PROCESS.aliases, items: final(w).PROCESS.items, ..old(w).PROCESS }),
    exists|k: int| sel_at::<T, F>(*old(w), *final(w), filter, self.ignore_type, r, k),
@entry
  let ghost i0 = w.PROCESS.items@.len() as int; let ghost m = w.PROCESS.monitors@; let ghost a = w.PROCESS.aliases@; let ghost s0 = w.PROCESS.items@; let ghost t0 = w.taken@.len() as int;
  let ghost ok0 = w.taken@;
@loop 0
  found is None,
  refused::<T, F>(filter, self.ignore_type, m, s0, __it0.pos()),
  w.PROCESS.items@ =~= Seq::new(i0 as nat, |i: int| if i < __it0.pos() { after_n::<T>(m, s0, i) } else { s0[i] }),
--
  i0 == s0.len(), __s0.len() == i0, forall|i: int| 0 <= i < i0 ==> #[trigger] __s0[i] == i as usize,
  w.PROCESS == (Process { monitors: w.PROCESS.monitors, aliases: w.PROCESS.aliases, items: w.PROCESS.items, ..old(w).PROCESS }),
  w.taken@ == ok0,
  w.PROCESS.items@.len() == i0,
  w.PROCESS.monitors@ =~= mons_n(m, s0, __it0.pos()), w.PROCESS.aliases@ =~= alis_n(a, s0, __it0.pos()),
  found matches Some(k) ==> k == __it0.pos() - 1 && refused::<T, F>(filter, self.ignore_type, m, s0, k as int) && sel_hit::<T, F>(filter, look_n::<T>(m, s0, k as int))
    && w.PROCESS.items@ =~= Seq::new(i0 as nat, |i: int| if i <= k { after_n::<T>(m, s0, i) } else { s0[i] }),
@before_call convert_item 0
  proof { let q = queue(*old(w), *w); assert(q =~= s0); assert(look_n::<T>(m, q, found as int) == look_n::<T>(m, s0, found as int)); }
@after_call convert_item 0
  proof { let q = queue(*old(w), *w); assert(q =~= s0); let k = found as int; assert(w.PROCESS.items@ =~= Seq::new(i0 as nat, |i: int| if i <= k { after_n::<T>(m, q, i) } else { q[i] }).remove(k));
    assert(sel_at::<T, F>(*old(w), *w, filter, self.ignore_type, __tail->0, k)); }
@loop 1
  invariant
    i0 == s0.len(), w.taken@.len() >= t0, w.taken@.take(t0) =~= ok0, receiver.chan() == old(w).PROCESS.receiver.chan(),
    w.PROCESS == (Process { monitors: w.PROCESS.monitors, aliases: w.PROCESS.aliases, items: w.PROCESS.items, ..old(w).PROCESS }),
    ({ let q = queue(*old(w), *w); let n = q.len() as int; refused::<T, F>(filter, self.ignore_type, m, q, n)
       && w.PROCESS.monitors@ =~= mons_n(m, q, n) && w.PROCESS.aliases@ =~= alis_n(a, q, n)
       && w.PROCESS.items@ =~= Seq::new(i0 as nat, |i: int| after_n::<T>(m, q, i)) + kept::<T>(m, q, i0, n) }),
@loop_start 1
  let ghost q1 = queue(*old(w), *w); let ghost w1 = *w;
@after_call recv_async 0
  let ghost q2 = queue(*old(w), *w);
  proof { assert(q2 =~= q1.push(item)); lm_queue_prefix::<T>(m, a, q2, q1, i0, q1.len() as int); lm_mons_prefix(m, a, q2, q1, q1.len() as int);
    assert(refused::<T, F>(filter, self.ignore_type, m, q2, q1.len() as int)); }
  let ghost it0 = item;
@before_call convert_item 1
  proof { let q = queue(*old(w), *w); let k = q.len() - 1; assert(q == q2);
    assert(q[k] == it0); assert(item == item_after::<T>(mons_n(m, q, k), it0)); assert(item_look::<T>(mons_n(m, q, k), it0) is Msg);
    lm_look_conv::<T>(mons_n(m, q, k), it0); assert(look_n::<T>(m, q, k) == Look::Msg(item_conv::<T>(item)));
    assert(refused::<T, F>(filter, self.ignore_type, m, q, k));
    assert(k >= i0); lm_queue_prefix::<T>(m, a, q2, q1, i0, k);
    assert(w.PROCESS.items@ =~= Seq::new(i0 as nat, |i: int| after_n::<T>(m, q, i)) + kept::<T>(m, q, i0, k));
    assert(sel_at::<T, F>(*old(w), *w, filter, self.ignore_type, item_conv::<T>(item), k)); }

@fn serialize::deserialize_value(value: &Vec<u8>) nw trusted ret=Result<T,IoError>
  ensures match de_val::<T>(*value) { Some(t) => r == Ok::<T, IoError>(t), None => r is Err },

@fn process_receiver::ProcessReceiver::receive(self) onself statref panics
  ensures
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, aliases: final(w).PROCESS.aliases, items: final(w).PROCESS.items, ..old(w).PROCESS }),
    ({ let q = queue(*old(w), *final(w)); let m = old(w).PROCESS.monitors@;
       exists|k: int| #[trigger] recv_at::<T>(*old(w), *final(w), self.ignore_type, r, k) }),
@entry
  let ghost w0 = *w; let ghost ig = self.ignore_type;
@before_call select 0
  proof { assert(never_false(__c0)); }
@after_call select 0
  proof { let k = choose|k: int| sel_at(w0, *w, __c0, ig, __tail, k); lm_sel_recv(w0, *w, __c0, ig, __tail, k); }
@closure select
  |__vxc: &Message<&T>| -> (b: bool) ensures b

@fn process_receiver::ProcessReceiver::remove(self, filter) onself statref hofn panics
  requires total_filter::<T, F>(filter),
  ensures
    *final(w) == (World { PROCESS: final(w).PROCESS, mail: final(w).mail, taken: final(w).taken, ..*old(w) }),
    final(w).PROCESS == (Process { monitors: final(w).PROCESS.monitors, aliases: final(w).PROCESS.aliases, items: final(w).PROCESS.items, ..old(w).PROCESS }),
    final(w).mail@ =~= old(w).mail@.insert(old(w).PROCESS.receiver.chan(), Seq::empty()),
    ({ let q = old(w).PROCESS.items@ + old(w).mail@[old(w).PROCESS.receiver.chan()]; let n = q.len() as int; let i0 = old(w).PROCESS.items@.len() as int; let m = old(w).PROCESS.monitors@;
       final(w).PROCESS.monitors@ =~= mons_n(m, q, n) && final(w).PROCESS.aliases@ =~= alis_n(old(w).PROCESS.aliases@, q, n)
       && rem_state::<T, F>(filter, self.ignore_type, m, q, i0, n, final(w).PROCESS.items@) }),
@entry
  let ghost i0 = w.PROCESS.items@.len() as int; let ghost m = w.PROCESS.monitors@; let ghost a = w.PROCESS.aliases@; let ghost s0 = w.PROCESS.items@;
  let ghost q = s0 + w.mail@[w.PROCESS.receiver.chan()];
  proof { lm_rem_zero::<T, F>(filter, self.ignore_type, m, q, i0); }
@loop 0
  __s0 == s0,
  *w == (World { PROCESS: w.PROCESS, ..*old(w) }),
  w.PROCESS == (Process { monitors: w.PROCESS.monitors, aliases: w.PROCESS.aliases, items: w.PROCESS.items, ..old(w).PROCESS }),
  w.PROCESS.monitors@ =~= mons_n(m, q, __it0.pos()), w.PROCESS.aliases@ =~= alis_n(a, q, __it0.pos()),
  rem_state::<T, F>(filter, self.ignore_type, m, q, i0, __it0.pos(), w.PROCESS.items@),
@loop_start 0
  proof { lm_rem_step::<T, F>(filter, self.ignore_type, m, q, i0, __it0.pos(), w.PROCESS.items@); assert(__s0[__it0.pos()] == q[__it0.pos()]); }
@loop 1
  __s1 == old(w).mail@[old(w).PROCESS.receiver.chan()],
  *w == (World { PROCESS: w.PROCESS, mail: w.mail, taken: w.taken, ..*old(w) }),
  w.mail@ =~= old(w).mail@.insert(old(w).PROCESS.receiver.chan(), Seq::empty()),
  w.PROCESS == (Process { monitors: w.PROCESS.monitors, aliases: w.PROCESS.aliases, items: w.PROCESS.items, ..old(w).PROCESS }),
  w.PROCESS.monitors@ =~= mons_n(m, q, i0 + __it1.pos()), w.PROCESS.aliases@ =~= alis_n(a, q, i0 + __it1.pos()),
  rem_state::<T, F>(filter, self.ignore_type, m, q, i0, i0 + __it1.pos(), w.PROCESS.items@),
@loop_start 1
  proof { lm_rem_step::<T, F>(filter, self.ignore_type, m, q, i0, i0 + __it1.pos(), w.PROCESS.items@); assert(__s1[__it1.pos()] == q[i0 + __it1.pos()]); }
