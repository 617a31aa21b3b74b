"""C02: hypervolume gradient.  Spec: HVLocal.tla (vectors), TraceHVDeriv.tla (traces)."""
import hvderiv


def run(ctx):
    hvderiv.vectors(ctx, ctx.pick([(4, 2, False), (3, 3, False), (4, 3, True), (3, 4, True)],
                                  [(5, 2, False), (4, 3, False), (3, 4, False), (3, 5, True)]), False)
    trs = hvderiv.traces(ctx, ctx.pick(150, 900), False, 2)
    ctx.samples.append(trs[0])
    ctx.validate("TraceHVDeriv", trs)
    hvderiv.selftest(ctx, trs, "grads")
