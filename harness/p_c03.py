"""C03: hypervolume Hessian.  Spec: HVLocal.tla (vectors), TraceHVDeriv.tla (traces)."""
import hvderiv


def run(ctx):
    hvderiv.vectors(ctx, ctx.pick([(4, 2, False), (3, 3, False), (2, 4, False)],
                                  [(5, 2, True), (4, 3, True), (3, 4, True), (2, 5, False)]), True)
    trs = hvderiv.traces(ctx, ctx.pick(110, 700), True, 3)
    ctx.samples.append(trs[0])
    ctx.validate("TraceHVDeriv", trs)
    hvderiv.selftest(ctx, trs, "hess")
