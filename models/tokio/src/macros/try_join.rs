/// Contract of `try_join!`: every branch that has not completed is polled once
/// per poll, in order; the first error ends it, and it is ready when all
/// branches are. (Which branch is polled first varies in tokio; here it is the
/// first one.)
#[macro_export]
macro_rules! try_join {
    (@ { ( $($count:tt)* ) ( $($total:tt)* ) $( ( $($skip:tt)* ) $e:expr, )* }) => {{
        use $crate::macros::support::{poll_fn, Branch};
        use $crate::macros::support::Poll::{Ready, Pending};
        let mut futures = ( $( Branch::new($e), )* );
        // Safety: the branches are not moved until they are dropped.
        let mut futures = &mut futures;
        poll_fn(move |cx| {
            let mut is_pending = false;
            $(
                let ( $($skip,)* branch, .. ) = &mut *futures;
                match unsafe { branch.poll(cx) } {
                    Pending => is_pending = true,
                    Ready(Err(e)) => return Ready(Err(e)),
                    Ready(Ok(())) => {}
                }
            )*
            if is_pending {
                Pending
            } else {
                Ready(Ok(($({
                    let ( $($skip,)* branch, .. ) = &mut *futures;
                    branch.take()
                },)*)))
            }
        }).await
    }};

    // ===== Normalize =====

    (@ { ( $($s:tt)* ) ( $($n:tt)* ) $($t:tt)* } $e:expr, $($r:tt)* ) => {
      $crate::try_join!(@{ ($($s)* _) ($($n)* + 1) $($t)* ($($s)*) $e, } $($r)*)
    };

    // ===== Entry point =====

    ( $($e:expr),+ $(,)?) => {
        $crate::try_join!(@{ () (0) } $($e,)*)
    };

    () => { async { Ok(()) }.await }
}
