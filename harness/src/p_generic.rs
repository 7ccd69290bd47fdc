//! C14: the KEM over user-defined parameter sets.

use crate::fw::*;
use crate::gen;
use crate::kemset::*;
use crate::on_user_set;
use crate::p_codec::{arbitrary, round_trip, tape};
use crate::p_mlkem::{
    decaps_arbitrary_key, decaps_honest, decaps_noisy, decaps_steered, encaps_adversarial, encaps_honest, keygen_case,
};

fn all<S: Set>(c: &mut Case, ext: &[gen::Extreme]) -> R {
    let (d, z) = (gen::b32(&mut c.rng), gen::b32(&mut c.rng));
    keygen_case::<S>(c, &d, &z)?;
    encaps_honest::<S>(c)?;
    encaps_adversarial::<S>(c, ext)?;
    decaps_honest::<S>(c)?;
    decaps_noisy::<S>(c)?;
    decaps_steered::<S>(c, ext, c.index % 2 == 0)?;
    decaps_arbitrary_key::<S>(c, ext)?;
    round_trip::<S>(c)?;
    arbitrary::<S>(c, ext)?;
    tape::<S>(c)?;
    let p = &S::P;
    c.l.seen("parameter_sets", c.index % crate::sets::COUNT);
    c.l.seen("ranks", p.k as u64);
    c.l.seen("du", p.du as u64);
    c.l.seen("dv", p.dv as u64);
    c.l.seen("eta1_eta2", (10 * p.eta1 + p.eta2) as u64);
    Ok(())
}

pub fn c14(ctx: &mut Ctx) {
    let ext = gen::extremes();
    let n = ctx.n(4_400, 220_000);
    ctx.stage("user-defined", n, |c| on_user_set!(c.index, all(c, &ext)));
    ctx.require("parameter_sets", crate::sets::COUNT);
    ctx.require("ranks", 5);
    ctx.require("du", 11);
    ctx.require("dv", 11);
    ctx.require("eta1_eta2", 4);
    ctx.require("steered_accepted", 500);
    ctx.require("noncanonical_accepted", 100);
}
