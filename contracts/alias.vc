@fn alias::alias_create(sender, reference, reply)
  ensures
    final(w).ALIASES@ =~= old(w).ALIASES@.insert(refid(reference), Alias { sender, reply }),
    *final(w) == (World { ALIASES: final(w).ALIASES, ..*old(w) }),

@fn alias::alias_destroy(reference)
  ensures
    r == old(w).ALIASES@.contains_key(refid(reference)),
    final(w).ALIASES@ =~= old(w).ALIASES@.remove(refid(reference)),
    *final(w) == (World { ALIASES: final(w).ALIASES, ..*old(w) }),

@fn alias::alias_destroy_owned(sender, reference)
  ensures
    r == (old(w).ALIASES@.contains_key(refid(reference)) && old(w).ALIASES@[refid(reference)].sender.chan() == sender.chan()),
    final(w).ALIASES@ =~= (if r { old(w).ALIASES@.remove(refid(reference)) } else { old(w).ALIASES@ }),
    *final(w) == (World { ALIASES: final(w).ALIASES, ..*old(w) }),

@fn alias::alias_destroy_all(ids) inst.A=VIter<&u64>
  requires ids.pos() == 0,
  ensures
    forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !deref_seq(ids.seq()).contains(a),
    forall|a: u64| #[trigger] final(w).ALIASES@.contains_key(a) ==> final(w).ALIASES@[a] == old(w).ALIASES@[a],
    *final(w) == (World { ALIASES: final(w).ALIASES, ..*old(w) }),
@loop 0
  *w == (World { ALIASES: w.ALIASES, ..*old(w) }),
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) ==> w.ALIASES@[a] == old(w).ALIASES@[a],
  forall|a: u64| #[trigger] w.ALIASES@.contains_key(a) <==> old(w).ALIASES@.contains_key(a) && !exists|j: int| 0 <= j < __it0.pos() && *#[trigger] __s0[j] == a,
@after_loop 0
  proof { let d = deref_seq(ids.seq());
    assert forall|a: u64| d.contains(a) <==> exists|j: int| 0 <= j < d.len() && *#[trigger] ids.seq()[j] == a by {
      if d.contains(a) { let j = choose|j: int| 0 <= j < d.len() && d[j] == a; assert(*ids.seq()[j] == a); }
      if exists|j: int| 0 <= j < d.len() && *#[trigger] ids.seq()[j] == a { let j = choose|j: int| 0 <= j < d.len() && *#[trigger] ids.seq()[j] == a; assert(d[j] == a); } } }

@fn alias::alias_retrieve(reference)
  ensures
    r == (if old(w).ALIASES@.contains_key(refid(reference)) { Some(old(w).ALIASES@[refid(reference)]) } else { None }),
    final(w).ALIASES@ =~= (if r is Some && r->0.reply { old(w).ALIASES@.remove(refid(reference)) } else { old(w).ALIASES@ }),
    final(w).mail@ =~= (if r is Some && r->0.reply && old(w).open@.contains(r->0.sender.chan()) { mail_push(old(w).mail@, r->0.sender.chan(), ProcessItem::AliasDeactivated(refid(reference))) } else { old(w).mail@ }),
    *final(w) == (World { ALIASES: final(w).ALIASES, mail: final(w).mail, ..*old(w) }),
