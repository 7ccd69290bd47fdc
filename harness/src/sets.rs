//! User-defined parameter sets. Written by tools/gen_sets.py.

use ml_kem::array::typenum::*;
use refmodel::fips203::Params;

macro_rules! user_set {
    ($p:ident, $s:ident, $k:expr, $e1:expr, $e2:expr, $du:expr, $dv:expr, $tk:ty, $te1:ty, $te2:ty, $tdu:ty, $tdv:ty) => {
        #[derive(Default, Clone, Debug, PartialEq)]
        pub struct $p;
        impl ml_kem::ParameterSet for $p {
            type K = $tk;
            type Eta1 = $te1;
            type Eta2 = $te2;
            type Du = $tdu;
            type Dv = $tdv;
        }
        crate::define_set!($s, $p, Params { name: stringify!($s), k: $k, eta1: $e1, eta2: $e2, du: $du, dv: $dv });
    };
}

user_set!(PK1E23Du1Dv8, K1E23Du1Dv8, 1, 2, 3, 1, 8, U1, U2, U3, U1, U8);
user_set!(PK1E32Du2Dv11, K1E32Du2Dv11, 1, 3, 2, 2, 11, U1, U3, U2, U2, U11);
user_set!(PK1E22Du3Dv3, K1E22Du3Dv3, 1, 2, 2, 3, 3, U1, U2, U2, U3, U3);
user_set!(PK1E33Du4Dv7, K1E33Du4Dv7, 1, 3, 3, 4, 7, U1, U3, U3, U4, U7);
user_set!(PK1E23Du5Dv10, K1E23Du5Dv10, 1, 2, 3, 5, 10, U1, U2, U3, U5, U10);
user_set!(PK1E32Du6Dv2, K1E32Du6Dv2, 1, 3, 2, 6, 2, U1, U3, U2, U6, U2);
user_set!(PK1E22Du7Dv5, K1E22Du7Dv5, 1, 2, 2, 7, 5, U1, U2, U2, U7, U5);
user_set!(PK1E33Du8Dv9, K1E33Du8Dv9, 1, 3, 3, 8, 9, U1, U3, U3, U8, U9);
user_set!(PK1E23Du9Dv1, K1E23Du9Dv1, 1, 2, 3, 9, 1, U1, U2, U3, U9, U1);
user_set!(PK1E32Du10Dv4, K1E32Du10Dv4, 1, 3, 2, 10, 4, U1, U3, U2, U10, U4);
user_set!(PK1E22Du11Dv7, K1E22Du11Dv7, 1, 2, 2, 11, 7, U1, U2, U2, U11, U7);
user_set!(PK2E32Du1Dv1, K2E32Du1Dv1, 2, 3, 2, 1, 1, U2, U3, U2, U1, U1);
user_set!(PK2E23Du2Dv4, K2E23Du2Dv4, 2, 2, 3, 2, 4, U2, U2, U3, U2, U4);
user_set!(PK2E33Du3Dv7, K2E33Du3Dv7, 2, 3, 3, 3, 7, U2, U3, U3, U3, U7);
user_set!(PK2E22Du4Dv11, K2E22Du4Dv11, 2, 2, 2, 4, 11, U2, U2, U2, U4, U11);
user_set!(PK2E32Du5Dv3, K2E32Du5Dv3, 2, 3, 2, 5, 3, U2, U3, U2, U5, U3);
user_set!(PK2E23Du6Dv6, K2E23Du6Dv6, 2, 2, 3, 6, 6, U2, U2, U3, U6, U6);
user_set!(PK2E33Du7Dv9, K2E33Du7Dv9, 2, 3, 3, 7, 9, U2, U3, U3, U7, U9);
user_set!(PK2E22Du8Dv2, K2E22Du8Dv2, 2, 2, 2, 8, 2, U2, U2, U2, U8, U2);
user_set!(PK2E32Du9Dv5, K2E32Du9Dv5, 2, 3, 2, 9, 5, U2, U3, U2, U9, U5);
user_set!(PK2E23Du10Dv8, K2E23Du10Dv8, 2, 2, 3, 10, 8, U2, U2, U3, U10, U8);
user_set!(PK2E33Du11Dv11, K2E33Du11Dv11, 2, 3, 3, 11, 11, U2, U3, U3, U11, U11);
user_set!(PK3E23Du1Dv5, K3E23Du1Dv5, 3, 2, 3, 1, 5, U3, U2, U3, U1, U5);
user_set!(PK3E32Du2Dv8, K3E32Du2Dv8, 3, 3, 2, 2, 8, U3, U3, U2, U2, U8);
user_set!(PK3E22Du3Dv11, K3E22Du3Dv11, 3, 2, 2, 3, 11, U3, U2, U2, U3, U11);
user_set!(PK3E33Du4Dv4, K3E33Du4Dv4, 3, 3, 3, 4, 4, U3, U3, U3, U4, U4);
user_set!(PK3E23Du5Dv7, K3E23Du5Dv7, 3, 2, 3, 5, 7, U3, U2, U3, U5, U7);
user_set!(PK3E32Du6Dv10, K3E32Du6Dv10, 3, 3, 2, 6, 10, U3, U3, U2, U6, U10);
user_set!(PK3E22Du7Dv2, K3E22Du7Dv2, 3, 2, 2, 7, 2, U3, U2, U2, U7, U2);
user_set!(PK3E33Du8Dv6, K3E33Du8Dv6, 3, 3, 3, 8, 6, U3, U3, U3, U8, U6);
user_set!(PK3E23Du9Dv9, K3E23Du9Dv9, 3, 2, 3, 9, 9, U3, U2, U3, U9, U9);
user_set!(PK3E32Du10Dv1, K3E32Du10Dv1, 3, 3, 2, 10, 1, U3, U3, U2, U10, U1);
user_set!(PK3E22Du11Dv4, K3E22Du11Dv4, 3, 2, 2, 11, 4, U3, U2, U2, U11, U4);
user_set!(PK4E32Du1Dv9, K4E32Du1Dv9, 4, 3, 2, 1, 9, U4, U3, U2, U1, U9);
user_set!(PK4E23Du2Dv1, K4E23Du2Dv1, 4, 2, 3, 2, 1, U4, U2, U3, U2, U1);
user_set!(PK4E33Du3Dv4, K4E33Du3Dv4, 4, 3, 3, 3, 4, U4, U3, U3, U3, U4);
user_set!(PK4E22Du4Dv8, K4E22Du4Dv8, 4, 2, 2, 4, 8, U4, U2, U2, U4, U8);
user_set!(PK4E32Du5Dv11, K4E32Du5Dv11, 4, 3, 2, 5, 11, U4, U3, U2, U5, U11);
user_set!(PK4E23Du6Dv3, K4E23Du6Dv3, 4, 2, 3, 6, 3, U4, U2, U3, U6, U3);
user_set!(PK4E33Du7Dv6, K4E33Du7Dv6, 4, 3, 3, 7, 6, U4, U3, U3, U7, U6);
user_set!(PK4E22Du8Dv10, K4E22Du8Dv10, 4, 2, 2, 8, 10, U4, U2, U2, U8, U10);
user_set!(PK4E32Du9Dv2, K4E32Du9Dv2, 4, 3, 2, 9, 2, U4, U3, U2, U9, U2);
user_set!(PK4E23Du10Dv5, K4E23Du10Dv5, 4, 2, 3, 10, 5, U4, U2, U3, U10, U5);
user_set!(PK4E33Du11Dv8, K4E33Du11Dv8, 4, 3, 3, 11, 8, U4, U3, U3, U11, U8);
user_set!(PK5E23Du1Dv2, K5E23Du1Dv2, 5, 2, 3, 1, 2, U5, U2, U3, U1, U2);
user_set!(PK5E32Du2Dv5, K5E32Du2Dv5, 5, 3, 2, 2, 5, U5, U3, U2, U2, U5);
user_set!(PK5E22Du3Dv8, K5E22Du3Dv8, 5, 2, 2, 3, 8, U5, U2, U2, U3, U8);
user_set!(PK5E33Du4Dv1, K5E33Du4Dv1, 5, 3, 3, 4, 1, U5, U3, U3, U4, U1);
user_set!(PK5E23Du5Dv4, K5E23Du5Dv4, 5, 2, 3, 5, 4, U5, U2, U3, U5, U4);
user_set!(PK5E32Du6Dv7, K5E32Du6Dv7, 5, 3, 2, 6, 7, U5, U3, U2, U6, U7);
user_set!(PK5E22Du7Dv10, K5E22Du7Dv10, 5, 2, 2, 7, 10, U5, U2, U2, U7, U10);
user_set!(PK5E33Du8Dv3, K5E33Du8Dv3, 5, 3, 3, 8, 3, U5, U3, U3, U8, U3);
user_set!(PK5E23Du9Dv6, K5E23Du9Dv6, 5, 2, 3, 9, 6, U5, U2, U3, U9, U6);
user_set!(PK5E32Du10Dv9, K5E32Du10Dv9, 5, 3, 2, 10, 9, U5, U3, U2, U10, U9);
user_set!(PK5E22Du11Dv1, K5E22Du11Dv1, 5, 2, 2, 11, 1, U5, U2, U2, U11, U1);

pub const COUNT: u64 = 55;

/// Run a generic function for user-defined set number `i`.
#[macro_export]
macro_rules! on_user_set {
    ($i:expr, $f:ident ( $($a:expr),* )) => {
        match ($i) % $crate::sets::COUNT {
            0 => $f::<$crate::sets::K1E23Du1Dv8>($($a),*),
            1 => $f::<$crate::sets::K1E32Du2Dv11>($($a),*),
            2 => $f::<$crate::sets::K1E22Du3Dv3>($($a),*),
            3 => $f::<$crate::sets::K1E33Du4Dv7>($($a),*),
            4 => $f::<$crate::sets::K1E23Du5Dv10>($($a),*),
            5 => $f::<$crate::sets::K1E32Du6Dv2>($($a),*),
            6 => $f::<$crate::sets::K1E22Du7Dv5>($($a),*),
            7 => $f::<$crate::sets::K1E33Du8Dv9>($($a),*),
            8 => $f::<$crate::sets::K1E23Du9Dv1>($($a),*),
            9 => $f::<$crate::sets::K1E32Du10Dv4>($($a),*),
            10 => $f::<$crate::sets::K1E22Du11Dv7>($($a),*),
            11 => $f::<$crate::sets::K2E32Du1Dv1>($($a),*),
            12 => $f::<$crate::sets::K2E23Du2Dv4>($($a),*),
            13 => $f::<$crate::sets::K2E33Du3Dv7>($($a),*),
            14 => $f::<$crate::sets::K2E22Du4Dv11>($($a),*),
            15 => $f::<$crate::sets::K2E32Du5Dv3>($($a),*),
            16 => $f::<$crate::sets::K2E23Du6Dv6>($($a),*),
            17 => $f::<$crate::sets::K2E33Du7Dv9>($($a),*),
            18 => $f::<$crate::sets::K2E22Du8Dv2>($($a),*),
            19 => $f::<$crate::sets::K2E32Du9Dv5>($($a),*),
            20 => $f::<$crate::sets::K2E23Du10Dv8>($($a),*),
            21 => $f::<$crate::sets::K2E33Du11Dv11>($($a),*),
            22 => $f::<$crate::sets::K3E23Du1Dv5>($($a),*),
            23 => $f::<$crate::sets::K3E32Du2Dv8>($($a),*),
            24 => $f::<$crate::sets::K3E22Du3Dv11>($($a),*),
            25 => $f::<$crate::sets::K3E33Du4Dv4>($($a),*),
            26 => $f::<$crate::sets::K3E23Du5Dv7>($($a),*),
            27 => $f::<$crate::sets::K3E32Du6Dv10>($($a),*),
            28 => $f::<$crate::sets::K3E22Du7Dv2>($($a),*),
            29 => $f::<$crate::sets::K3E33Du8Dv6>($($a),*),
            30 => $f::<$crate::sets::K3E23Du9Dv9>($($a),*),
            31 => $f::<$crate::sets::K3E32Du10Dv1>($($a),*),
            32 => $f::<$crate::sets::K3E22Du11Dv4>($($a),*),
            33 => $f::<$crate::sets::K4E32Du1Dv9>($($a),*),
            34 => $f::<$crate::sets::K4E23Du2Dv1>($($a),*),
            35 => $f::<$crate::sets::K4E33Du3Dv4>($($a),*),
            36 => $f::<$crate::sets::K4E22Du4Dv8>($($a),*),
            37 => $f::<$crate::sets::K4E32Du5Dv11>($($a),*),
            38 => $f::<$crate::sets::K4E23Du6Dv3>($($a),*),
            39 => $f::<$crate::sets::K4E33Du7Dv6>($($a),*),
            40 => $f::<$crate::sets::K4E22Du8Dv10>($($a),*),
            41 => $f::<$crate::sets::K4E32Du9Dv2>($($a),*),
            42 => $f::<$crate::sets::K4E23Du10Dv5>($($a),*),
            43 => $f::<$crate::sets::K4E33Du11Dv8>($($a),*),
            44 => $f::<$crate::sets::K5E23Du1Dv2>($($a),*),
            45 => $f::<$crate::sets::K5E32Du2Dv5>($($a),*),
            46 => $f::<$crate::sets::K5E22Du3Dv8>($($a),*),
            47 => $f::<$crate::sets::K5E33Du4Dv1>($($a),*),
            48 => $f::<$crate::sets::K5E23Du5Dv4>($($a),*),
            49 => $f::<$crate::sets::K5E32Du6Dv7>($($a),*),
            50 => $f::<$crate::sets::K5E22Du7Dv10>($($a),*),
            51 => $f::<$crate::sets::K5E33Du8Dv3>($($a),*),
            52 => $f::<$crate::sets::K5E23Du9Dv6>($($a),*),
            53 => $f::<$crate::sets::K5E32Du10Dv9>($($a),*),
            _ => $f::<$crate::sets::K5E22Du11Dv1>($($a),*),
        }
    };
}
