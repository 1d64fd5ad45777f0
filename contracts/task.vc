@units task
@fn semaphore::Semaphore::new(permits) nw
  ensures r.inner.total() == permits,
@fn semaphore::Semaphore::acquire(self)
  ensures took(*old(w), *final(w), self.inner.sid(), 1), r._permit.sid() == self.inner.sid(), r._permit.n() == 1,
@fn semaphore::Semaphore::acquire_many(self, count)
  ensures took(*old(w), *final(w), self.inner.sid(), count as int), r._permit.sid() == self.inner.sid(), r._permit.n() == count,
@fn semaphore::Semaphore::try_acquire(self) tryid
  ensures tried(*old(w), *final(w), self.inner.sid(), 1, r is Ok), r is Ok ==> r->Ok_0._permit.sid() == self.inner.sid() && r->Ok_0._permit.n() == 1,
@fn semaphore::OwnedSemaphore::new(permits) nw
  ensures r.inner.total() == permits,
@fn semaphore::OwnedSemaphore::acquire(self)
  ensures took(*old(w), *final(w), self.inner.sid(), 1), r._permit.sid() == self.inner.sid(), r._permit.n() == 1,
@fn semaphore::OwnedSemaphore::acquire_many(self, count)
  ensures took(*old(w), *final(w), self.inner.sid(), count as int), r._permit.sid() == self.inner.sid(), r._permit.n() == count,
@fn semaphore::OwnedSemaphore::try_acquire(self) tryid
  ensures tried(*old(w), *final(w), self.inner.sid(), 1, r is Ok), r is Ok ==> r->Ok_0._permit.sid() == self.inner.sid() && r->Ok_0._permit.n() == 1,
@fn semaphore::OwnedSemaphore::acquire_owned(self)
  ensures took(*old(w), *final(w), self.inner.sid(), 1), r._permit.sid() == self.inner.sid(), r._permit.n() == 1,
@fn semaphore::OwnedSemaphore::acquire_many_owned(self, count)
  ensures took(*old(w), *final(w), self.inner.sid(), count as int), r._permit.sid() == self.inner.sid(), r._permit.n() == count,
@fn semaphore::OwnedSemaphore::try_acquire_owned(self) tryid
  ensures tried(*old(w), *final(w), self.inner.sid(), 1, r is Ok), r is Ok ==> r->Ok_0._permit.sid() == self.inner.sid() && r->Ok_0._permit.n() == 1,
@fn task::Task::spawn(task) ret=TaskHandle<u64>
  ensures *final(w) == (World { spawned: final(w).spawned, ..*old(w) }), !old(w).spawned@.contains_key(r.handle.hid()), final(w).spawned@ == old(w).spawned@.insert(r.handle.hid(), is_fut(task)),
@fn task::Task::spawn_blocking(task) ret=TaskHandle<u64>
  ensures *final(w) == (World { spawned: final(w).spawned, ..*old(w) }), !old(w).spawned@.contains_key(r.handle.hid()), final(w).spawned@ == old(w).spawned@.insert(r.handle.hid(), is_fut(task)),
@fn task::Task::shutdown(task) awaits
  ensures final(w).aborted@ == old(w).aborted@.insert(task.handle.hid()), final(w).waited@ == old(w).waited@.push(task.handle.hid()), task_result(task, r),
@fn task::Task::await_many(tasks) awaits tryid
  ensures final(w).aborted@ == old(w).aborted@,
    (forall|i: int| 0 <= i < N ==> (#[trigger] tasks@[i]).handle.outcome() is Ok) ==> final(w).waited@ == old(w).waited@ + hids(tasks@) && r is Ok && r->Ok_0@.len() == N && forall|i: int| 0 <= i < N ==> #[trigger] r->Ok_0@[i] == tasks@[i].handle.outcome()->Ok_0,
    (exists|i: int| 0 <= i < N && (#[trigger] tasks@[i]).handle.outcome() is Err) ==> r is Err && exists|k: int| 0 <= k < N && task_result((#[trigger] tasks@[k]), r_of::<R>(r->Err_0)) && forall|i: int| 0 <= i < k ==> (#[trigger] tasks@[i]).handle.outcome() is Ok,
@loop 0
  __s0 == tasks@, w.aborted@ == old(w).aborted@, results@.len() == __it0.pos(), w.waited@ =~= old(w).waited@ + hids(tasks@).take(__it0.pos()),
  forall|i: int| 0 <= i < __it0.pos() ==> (#[trigger] tasks@[i]).handle.outcome() is Ok && results@[i] == tasks@[i].handle.outcome()->Ok_0,
@after_loop 0
  proof { assert(hids(tasks@).take(N as int) =~= hids(tasks@)); }
@fn task::TaskHandle#Future::poll(self, cx) map_err=poll
  ensures polled(old(self).handle, r), *final(w) == *old(w), final(self).handle.hid() == old(self).handle.hid(),
