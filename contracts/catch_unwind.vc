@units task
@fn catch_unwind::AsyncCatchUnwind::new(future) nw
  ensures r.future == future,
@fn catch_unwind::AsyncCatchUnwind#Future::poll(self, cx) trypoll map=poll
  ensures r == caught(fut_step::<Fut, Fut::Output>(old(self).future)), *final(w) == *old(w),
