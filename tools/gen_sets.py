#!/usr/bin/env python3
"""Writes harness/src/sets.rs: every (k, du) and nearly every (k, dv), (eta1, eta2, du), (eta1, eta2, dv)."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sets = []
for k in range(1, 6):
    for du in range(1, 12):
        dv = ((du * 3 + k * 4 + (du // 4)) % 11) + 1
        sets.append((k, 2 + ((du + k) % 2), 2 + (((du // 2) + k) % 2), du, dv))
HEAD = '''//! User-defined parameter sets. Written by tools/gen_sets.py.

use ml_kem::array::typenum::*;
use refmodel::fips203::Params;

macro_rules! user_set {
    ($p:ident, $s:ident, $k:expr, $e1:expr, $e2:expr, $du:expr, $dv:expr, $tk:ty, $te1:ty, $te2:ty, $tdu:ty, $tdv:ty) => {
        #[derive(Default, Clone, Debug, PartialEq)]
        pub struct $p;
        impl ml_kem::ParameterSet for $p {
            type K = $tk;
            type Eta1 = $te1;
            type Eta2 = $te2;
            type Du = $tdu;
            type Dv = $tdv;
        }
        crate::define_set!($s, $p, Params { name: stringify!($s), k: $k, eta1: $e1, eta2: $e2, du: $du, dv: $dv });
    };
}

'''
with open(os.path.join(ROOT, "harness/src/sets.rs"), "w") as o:
    o.write(HEAD)
    name = lambda s: "K%dE%d%dDu%dDv%d" % s
    for s in sets:
        n = name(s)
        k, a, b, du, dv = s
        o.write(f"user_set!(P{n}, {n}, {k}, {a}, {b}, {du}, {dv}, U{k}, U{a}, U{b}, U{du}, U{dv});\n")
    o.write(f"\npub const COUNT: u64 = {len(sets)};\n\n/// Run a generic function for user-defined set number `i`.\n"
            "#[macro_export]\nmacro_rules! on_user_set {\n    ($i:expr, $f:ident ( $($a:expr),* )) => {\n        match ($i) % $crate::sets::COUNT {\n")
    for i, s in enumerate(sets):
        o.write(f"            {i if i < len(sets) - 1 else '_'} => $f::<$crate::sets::{name(s)}>($($a),*),\n")
    o.write("        }\n    };\n}\n")
