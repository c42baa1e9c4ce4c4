/// Returns early with an error (a `String`) if the condition does not hold.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $msg:expr $(,)?) => {
        if !($cond) {
            return Err($msg.into());
        }
    };
    ($cond:expr, $fmt:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($fmt, $($arg)*).into());
        }
    };
}

/// Returns early with an error (a `String`) if the two values differ.
#[macro_export]
macro_rules! ensure_eq {
    ($lhs:expr, $rhs:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{} ({:?}) is not equal to {} ({:?})", stringify!($lhs), $lhs, stringify!($rhs), $rhs).into());
        }
    };
    ($lhs:expr, $rhs:expr, $msg:expr $(,)?) => {
        if $lhs != $rhs {
            return Err(format!("{}: {} ({:?}) is not equal to {} ({:?})", $msg, stringify!($lhs), $lhs, stringify!($rhs), $rhs).into());
        }
    };
    ($lhs:expr, $rhs:expr, $fmt:expr, $($arg:tt)*) => {
        if $lhs != $rhs {
            return Err(format!("{}: {} ({:?}) is not equal to {} ({:?})", format!($fmt, $($arg)*), stringify!($lhs), $lhs, stringify!($rhs), $rhs).into());
        }
    };
}
