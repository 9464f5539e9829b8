macro_rules! harnesses {
    ($($(#[$m:meta])* $name:ident [$unwind:literal] $body:block)*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const TABLE: &[(&str, fn())] = &[
            $((concat!(module_path!(), "::", stringify!($name)), $name as fn())),*
        ];
        #[cfg(not(kani))]
        #[allow(unused)]
        pub fn all() -> Vec<(&'static str, fn())> {
            TABLE.to_vec()
        }
    };
}

/// Reachability witness: the solver must find an execution that gets here with
/// the condition true, otherwise the harness is vacuous and the check errors.
macro_rules! witness {
    ($cond:expr) => {
        #[cfg(kani)]
        kani::cover!($cond);
        #[cfg(not(kani))]
        let _ = $cond;
    };
}

/// Unwraps a `Result` without pulling `Debug` formatting into the encoding.
macro_rules! ok {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(_) => panic!(concat!("unexpected error: ", stringify!($e))),
        }
    };
}

/// Asserts that the result is an error of the given kind.
macro_rules! err {
    ($e:expr, $kind:ident) => {
        match $e {
            Ok(_) => panic!(concat!("expected an error: ", stringify!($e))),
            Err(e) => assert!(
                *e.kind() == bytecodec::ErrorKind::$kind,
                concat!("wrong error kind, expected ", stringify!($kind))
            ),
        }
    };
}

/// Items of the thorough tier (always present natively, for replay).
macro_rules! thorough {
    ($($i:item)*) => { $(#[cfg(any(feature = "thorough", not(kani)))] $i)* };
}

/// The replay table of a module: its own harnesses or those of submodules.
macro_rules! tables {
    ($($m:ident),*) => {
        #[cfg(not(kani))]
        pub fn all() -> Vec<(&'static str, fn())> {
            let mut v = Vec::new();
            $(v.extend($m::all());)*
            v
        }
    };
}
