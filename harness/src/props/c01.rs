//! C01: analyses return normally for every text. Crashes, stack overflows and hangs are turned into
//! violations by the engine (child process with a watchdog); panics by unwinding.
use super::{info, Info};
use crate::common::*;
use crate::corpus::*;

pub fn run(ctx: &Ctx) -> Info {
    texts(ctx, |c, code, v, focus| {
        let mut n = 0u64;
        let k = sweep(code, v, focus, &mut |_| n += 1);
        c.steps(k);
        c.compared += k;
        c.outcome(&n);
    });
    info(
        format!("every position of 15 seed programs; every prefix and suffix; every single-token mutation over 32 operators ({}); all sequences of up to {} of 26 item fragments and of 22 attribute fragments in 4 contexts; {} import/alias graphs over 6 names; nesting ladders to depth 40", ctx.pick("half of them, alternating versions", "both versions"), ctx.pick(3, 4), ctx.pick("254016", "all")),
        &["a case that runs for 45 s counts as non-terminating", "16 MiB of stack"],
    )
}
